"""C06: versions of a configuration unpacked into one folder"""
from thm import registry
T, theorem = registry()
ASSUMPTIONS = ['helper.get_near_descent_file_name meets its contract: the file of exactly that name with the greatest number not above the version, else the one without a number, else nothing (proved in C05)',
               'version numbers are at least 1; a file has an extension (the only one without, the splash screen, is not versioned by the listing either: evaluated at run time)',
               'a file that a lower version stores and the version unpacked does not have is a known finding']
CE = 'organizer_file_ce:OrganizerFileCE'


class Versions:
    """the files of one name in one folder of the sources: the file of the version at hand (there or not), and the nearest one below (there or not)"""
    def __init__(self, S, folder, name, d, content, encode=lambda b: b):
        self.S, self.folder, self.d = S, folder, d
        p, x = name
        self.name = p + '.' + x
        self.own = p + '.' + S.decimal(d) + '.' + x
        self.had_own = S.flag('the version has the file')
        low = S.pick('nearest lower', ['none', 'number', 'plain'])
        self.low = None
        if low == 'number':
            self.lower = S.int('lower', 1)
            S.assume(self.lower < d)
            self.low = p + '.' + S.decimal(self.lower) + '.' + x
        elif low == 'plain':
            self.low = self.name
        self.old = content('stored by this version') if self.had_own else None
        self.low_raw = content('stored by the lower version') if self.low else None
        self.low_content = encode(self.low_raw) if self.low else None
        if self.had_own:
            self.old = encode(self.old)
        if self.had_own:
            S.file(folder + '/' + self.own, self.old)
        if self.low:
            S.file(folder + '/' + self.low, self.low_content)

    def near(self, vm, path, file_name, descent):
        """contract of helper.get_near_descent_file_name"""
        S = self.S
        S.eq('looked up in the folder of the file', path, self.folder)
        S.eq('looked up by its name', file_name, self.name)
        S.eq('looked up at the version', descent, self.d)
        if S.read(self.folder + '/' + self.own) is not None:
            return path, self.own
        if self.low:
            return path, self.low
        return '', ''

    def decided(self, same):
        """what is in the folder once content was stored; same(a): the new content is a"""
        S = self.S
        now = S.read(self.folder + '/' + self.own)
        if self.low:
            S.check('the lower version is as it was', S.read(self.folder + '/' + self.low) is not None)
            S.eq('the lower version is as it was', S.read(self.folder + '/' + self.low), self.low_content)
        if not self.had_own and self.low and same(self.low_raw):
            S.check('what is inherited is not stored again', now is None)
        else:
            S.check('it is stored for the version', now is not None)
        return now


def folder_of(S, root):
    return S.pick('folder', [(root, ''), None]) or (lambda a: (root + '/' + a, a))(S.text('subfolder', no='/.', min=1))


def name_of(S):
    return S.text('p', no='/', min=1), S.text('x', no='./', min=1)


def others(S, v):
    """another file of the folder, of any other name"""
    o = v.folder + '/' + S.text('other', no='/', min=1)
    S.assume(not S.truth(o == v.folder + '/' + v.own))
    if v.low:
        S.assume(not S.truth(o == v.folder + '/' + v.low))
    c = S.bytes('content of the other')
    S.file(o, c)
    return o, c


def setup(S):
    root = S.path('w', 'p', 'src', 'v')
    S.dir(root)
    new = S.path('built')
    S.dir(new)
    d = S.int('d', 1)
    return root, new, d


@theorem('a file unpacked for a version is stored for that version unless it equals the inherited one; nothing else changes; building the version gives its bytes', top=True, native=False,
         functions=('organizer_file:OrganizerFile.unpack_file', CE + '.unpack_get_descent_filename', CE + '.equal_binary_file', CE + '.pack_get_descent_filename', CE + '._pack_file'))
def file_stored(S):
    root, new, d = setup(S)
    folder, path = folder_of(S, root)
    S.dir(folder)
    name = name_of(S)
    v = Versions(S, folder, name, d, S.bytes)
    o, oc = others(S, v)
    src = S.path('s3') + ('/' + path if path != '' else '')
    data = S.bytes('data')
    S.file(src + '/' + v.name, data)
    S.contract('helper:get_near_descent_file_name', v.near)
    before = list(S.paths())
    S.call(CE + '.unpack_file', src, v.name, root, path, v.name, None, d)
    now = v.decided(lambda c: S.truth(c == data))
    if now is not None:
        S.eq('with its content', now, data)
    S.eq('other files are as they were', S.read(o), oc)
    S.eq('nothing else is written', len(S.paths()), len(before) + (1 if now is not None and not v.had_own else 0))
    n = len(S.paths())
    where, file = S.call(CE + '.pack_get_descent_filename', folder, v.name, d)
    S.call(CE + '._pack_file', where, file, new + ('/' + path if path != '' else ''), v.name, d)
    got = S.read(new + ('/' + path if path != '' else '') + '/' + v.name)
    S.check('building the version gives the file', got is not None)
    S.eq('with the same bytes', got, data)
    S.eq('building changes nothing in the sources', len(S.paths()), n + 1)


def text(S, name):
    return S.text(name, no=('\r', '\ufeff'))


@theorem('a module unpacked for a version: its text and the texts of its areas inside the sources are stored like files; areas outside have no versions; read-only areas are not written', top=True, native=False,
         functions=('organizer_file:OrganizerFile.unpack_code_file', CE + '.unpack_get_descent_filename', CE + '.equal_code_file', CE + '.pack_get_descent_filename'))
def code_stored(S):
    root, new, d = setup(S)
    area = S.pick('area', ['none', 'inside', 'outside', 'read only'])
    folder, path = folder_of(S, root) if area == 'none' else (root + '/m', 'm')
    S.dir(folder)
    p, _ = name_of(S)
    raw = lambda n: text(S, n)
    data = text(S, 'data')
    if area == 'inside':
        S.dir(root + '/areas')
        v = Versions(S, root + '/areas', (S.text('area file', no='/', min=1), 'bsl'), d, raw, S.utf8)
        main = p + '.' + S.decimal(d) + '.bsl'
        near = lambda vm, a, b, c: v.near(vm, a, b, c) if not S.truth(a == folder) else ('', '')
    else:
        v = Versions(S, folder, (p, 'bsl'), d, raw, S.utf8)
        near = v.near
    S.contract('helper:get_near_descent_file_name', near)
    o, oc = others(S, v)
    name = p + '.bsl'
    areas = {None: {'data': data}}
    inner = text(S, 'area text')
    a = S.text('area name', no='/', min=1)
    file = v.name if area == 'inside' else S.text('file of the area', no='/', min=1)
    where = '../../src/v/areas' if area == 'inside' else '../../lib'
    if area != 'none':
        import models
        areas[models.SKey(a)] = {'data': inner, 'area_type': 'includr' if area == 'read only' else 'include'}

    def unpack(vm, cls, params):
        S.eq('the module is read from where it lies', params[:3], (S.path('s3'), path, name))
        return areas
    S.contract('organizer_code:OrganizerCode.unpack', unpack)

    def parse(vm, include_path, *rest, **k):
        S.eq('the place of the area', include_path, a)
        return where, file
    S.contract('organizer_code:OrganizerCode.parse_include_path', parse)
    n0 = len(S.paths())
    S.call(CE + '.unpack_code_file', (S.path('s3'), path, name, root, None, d))
    now = v.decided(lambda c: S.truth(c == (inner if area == 'inside' else data)))
    if now is not None:
        S.eq('with its text', now, S.utf8(inner if area == 'inside' else data))
    S.eq('other files are as they were', S.read(o), oc)
    if area == 'inside':
        S.eq('the module is stored', S.read(folder + '/' + main), S.utf8(data))
    if area == 'outside':
        S.eq('the area lies outside, without a version', S.read(S.path('w', 'p', 'lib') + '/' + file), S.utf8(inner))
    S.eq('nothing else is written', len(S.paths()), n0 + (now is not None and not v.had_own) + (area in ('inside', 'outside')))
    w, f = S.call(CE + '.pack_get_descent_filename', v.folder, v.name, d)
    S.eq('building the version finds the text', S.call('helper:txt_read', w, f), inner if area == 'inside' else data)
