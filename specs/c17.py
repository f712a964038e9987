"""C17: the index of the sources"""
from thm import registry
T, theorem = registry()
ASSUMPTIONS = ['the command runs in the folder of the project, with the sources in src or, by versions, in src/v; index entries point into the project and name files that are there',
               'no entry sends a file into the very folder of the folder-wide entry (all files there belong to it); a name does not start with * and its entry stands before the folder-wide one; numeric last parts of names with a generated index are a known finding']
BASE, CE = 'organizer_file:OrganizerFile', 'organizer_file_ce:OrganizerFileCE'


def fn_name(f):
    return getattr(f, '__qualname__', repr(f))


class Index:
    """a folder of the sources with one file, and what an index says of it"""
    def __init__(self, S, ext='bin', depths=3):
        import models
        self.S = S
        K = models.SKey
        self.project = S.path('w', 'p')
        S.ctx.cwd = self.project
        self.d = S.int('d', 1) if S.flag('versions') else None
        self.root = self.project + ('/src' if self.d is None else '/src/v')
        S.dir(self.root)
        self.new = S.path('built')
        S.dir(self.new)
        depth = S.choose('depth', depths)
        dirs = [S.text(f'dir{i}', no=('/', '*', '.', '\\', ' '), min=1) for i in range(depth)]
        x = ext
        self.p, self.x = S.text('p', no=('/', '*', '\\'), min=1), x
        self.name = self.p + '.' + x
        if x == 'elem.json':       # the version stands before the last part
            self.p, self.x = self.p + '.elem', 'json'
        self.path = ''
        for i, a in enumerate(dirs):
            self.path = a if i == 0 else self.path + '/' + a
        g = S.text('folder', no=('/', '.', '\\'), min=1)
        S.assume(not S.truth(g == 'src'))
        t = S.text('target', no=('/', '\\'), min=1) + '.' + x
        S.assume(not S.truth(t == '.' + x))
        level = S.pick('entry', ['own', 'own at the top', 'star', 'own and star', 'empty', 'empty and star', 'other', 'nothing', 'no folder'])
        other = None
        if level in ('other', 'no folder'):
            other = S.text('other', no=('/', '*', '\\'), min=1) + '.' + x
            S.assume(not S.truth(other == self.name))
        inside = {}
        self.where = None
        if level in ('own', 'own and star'):
            inside[K(self.name)] = g + '/' + t
            self.where = (self.project + '/' + g, t)
        if level == 'own at the top':
            inside[K(self.name)] = t
            self.where = (self.project, t)
        if level in ('empty', 'empty and star'):
            inside[K(self.name)] = ''
        if level in ('own and star', 'star', 'empty and star'):
            inside['*'] = S.text('folder of all', no=('/', '.', '\\'), min=1)
            S.assume(not S.truth(inside['*'] == 'src') and not (level == 'own and star' and S.truth(inside['*'] == g)))
            if level == 'star':
                self.where = (self.project + '/' + inside['*'], self.name)
        if level == 'other':
            inside[K(other)] = g + '/' + t
        index = inside
        for a in reversed(dirs):
            index = {K(a): index}
        if level == 'no folder':
            S.assume(depth > 0)
            index = {K(other): g + '/' + t}
            S.assume(not S.truth(other == dirs[0]))
        self.index = index
        self.other = (other, self.path if level == 'other' else '', self.project + '/' + g + '/' + t) if level in ('other', 'no folder') else None
        self.at = self.root + ('/' + self.path if depth else '')
        self.put = self.new + ('/' + self.path if depth else '')
        self.stays = self.where is None
        if self.stays:
            self.where = (self.at, self.name if self.d is None else self.p + '.' + S.decimal(self.d) + '.' + self.x)
        S.contract('helper:get_near_descent_file_name', self.near)

    def near(self, vm, path, file_name, descent):
        S = self.S
        own = self.p + '.' + S.decimal(self.d) + '.' + self.x
        if S.truth(file_name == self.name) and S.read(path + '/' + own) is not None:
            return path, own
        if S.read(path + '/' + file_name) is not None:
            return path, file_name
        return '', ''


@theorem('a file goes exactly where its entry, or the folder-wide one, sends it, else into the sources; building takes it from there', top=True, native=False,
         functions=('index:get_dest_path', 'index:get_from_index', BASE + '.unpack_file', BASE + '._pack_index', BASE + '._pack_index_elem', BASE + '._pack', BASE + '._pack_file'))
def file_placed(S):
    i = Index(S)
    cls = CE if i.d is not None else BASE
    src = S.path('s3') + ('/' + i.path if i.path != '' else '')
    data = S.bytes('data')
    S.file(src + '/' + i.name, data)
    S.dir(i.at)
    if i.other:                 # the file the other entry is for
        o, opath, there = i.other
        osrc = S.path('s3') + ('/' + opath if opath != '' else '')
        odata = S.bytes('data of the other')
        S.file(osrc + '/' + o, odata)
        n = len(S.paths())
        S.call(cls + '.unpack_file', osrc, o, i.root, opath, o, i.index, i.d)
        S.eq('the other lies where its entry says', S.read(there), odata)
        S.eq('and nowhere else', len(S.paths()), n + 1)
    n = len(S.paths())
    S.call(cls + '.unpack_file', src, i.name, i.root, i.path, i.name, i.index, i.d)
    got = S.read(i.where[0] + '/' + i.where[1])
    S.check('it lies where the index says', got is not None)
    S.eq('with its bytes', got, data)
    S.eq('and nowhere else', len(S.paths()), n + 1)
    code, forms = [], []
    if S.truth(i.index):
        S.call(cls + '._pack_index', i.root, i.new, code, forms, i.index, None, [''], i.d)
    S.call(cls + '._pack', i.root, i.new, '', code, forms, i.index, None, i.d)
    got = S.read(i.put + '/' + i.name)
    S.check('building finds it', got is not None)
    S.eq('and returns its bytes', got, data)
    if i.other:
        S.eq('so does the other', S.read(i.new + ('/' + opath if opath != '' else '') + '/' + o), odata)
    S.eq('and nothing else', len(S.paths()), n + 2 + bool(i.other))
    S.eq('no other work is left', [code, forms], [[], []])


@theorem('a module or the elements of a form go exactly where the index sends them; building reads them from there into their place', top=True, native=False,
         functions=('organizer_file:OrganizerFile.unpack_code_file', 'organizer_code:OrganizerCode.pack', 'organizer_code:OrganizerCode.pack_file', BASE + '._pack_index_elem', BASE + '._pack', BASE + '.pack'))
def code_placed(S):
    import os
    ext = S.pick('kind', ['bsl', 'elem.json'])
    i = Index(S, ext, 2)
    cls = CE if i.d is not None else BASE
    data = S.text('data', only='abcdefg', min=2)
    S.contract('organizer_code:OrganizerCode.unpack', lambda vm, cls, params: {None: {'data': data}})
    if i.other:
        S.end()
    if ext == 'bsl':
        S.dir(i.at)
        n = len(S.paths())
        S.call(cls + '.unpack_code_file', (S.path('s3'), i.path, i.name, i.root, i.index, i.d))
        S.eq('it lies where the index says', S.read(i.where[0] + '/' + i.where[1]), S.utf8(data))
        S.eq('and nowhere else', len(S.paths()), n + 1)
    else:
        S.file(i.where[0] + '/' + i.where[1], S.utf8(data))
        n = len(S.paths()) - 1
    if not i.stays and S.flag('one left in the sources'):      # of an unpacking without the entry, say
        S.file(i.at + '/' + (i.name if i.d is None else i.p + '.' + S.decimal(i.d) + '.' + i.x), b'left')
        n += 1
    work = []
    S.contract('helper:run_in_pool', lambda vm, method, tasks, **k: work.append((method, list(tasks))))
    S.call(cls + '.pack', i.root, i.new, index=i.index, descent=i.d)
    S.eq('building has two kinds of work', len(work), 2)
    (code, codes), (form, forms) = work
    S.check('modules are put together', fn_name(code) == 'OrganizerCode.pack')
    S.check('elements of forms are put together', fn_name(form) == 'OrganizerFormElem.pack')
    tasks, rest = (codes, forms) if ext == 'bsl' else (forms, codes)
    S.eq('building has it to do, once', len(tasks), 1)
    S.eq('and nothing else', rest, [])
    for t in tasks:
        if ext == 'bsl':
            S.call('organizer_code:OrganizerCode.pack', t)
        else:
            there = S.call(os.path.abspath, S.call(os.path.join, t[0], t[1])) + '/' + t[2]
            S.eq('it is read from where it lies', there, i.where[0] + '/' + i.where[1])
            S.eq('into its place', S.call(os.path.join, t[3], t[4], t[5]), i.put + '/' + i.name)
    if ext == 'bsl':
        S.eq('building returns its text', S.read(i.put + '/' + i.name), S.utf8(data))
        S.eq('and writes nothing else', len(S.paths()), n + 2)


@theorem('updating the index adds an entry for every file that has none and changes no entry that is there', top=True, native=False, functions=('index:update_index',),
         bounded='sources of two files, one of them in a folder; a prior index of any entries for them and two others')
def index_updated(S):
    import models, sym
    K = models.SKey
    src = S.path('src')
    A = S.text('folder', no=('/', '.', '*'), min=1)
    S.contract('helper:remove_descent_from_filename', lambda vm, n: n)      # no numeric last part (known finding)
    f1, f2 = (S.text(n, no=('/', '.'), min=1) + '.bin' for n in ('first', 'second'))
    q = S.text('other', no=('/', '.'), min=1) + '.bin'
    S.assume(not S.truth(f2 == q) and not S.truth(f1 == q))
    S.file(src + '/' + A + '/' + f1, S.bytes('1'))
    S.file(src + '/' + f2, S.bytes('2'))
    had = S.pick('of the folder', ['nothing', 'its dictionary', 'its file']), S.flag('of the second')
    index = {K(q): S.opaque('kept')}
    v1, v2 = S.opaque('entry of the first', str), S.opaque('entry of the second', str)
    star = S.opaque('folder-wide', str)
    if had[0] != 'nothing':
        inner = {'*': star, K(q): S.opaque('kept inside')}
        if had[0] == 'its file':
            inner[K(f1)] = v1
        index[K(A)] = inner
    if had[1]:
        index[K(f2)] = v2
    old = models.dcopy(index)
    there = S.flag('there is an index')
    name = S.path('index.json')
    if there:
        t = S.text('index', no=('\r', '\ufeff'), min=2)
        t.parts[0].atom.info['json'] = index
        c = S.utf8(t)
        S.file(name, c)
    else:
        S.assume(had == ('nothing', False))
        old = {}
    dest = S.pick('dest', ['', 'core'])
    S.call('index:update_index', src, name, dest)
    w = S.read(name)
    S.check('an index is written', w is not None)
    new = models.t_decode(S.vm, w, 'utf-8').parts[0].atom.info['json']
    get = lambda d, k: d[models.find_key(d, k)[0]] if models.find_key(d, k) else None
    want = lambda rel: 'core/' + rel if dest else ''
    if there:
        S.eq('an entry of another file stays', get(new, q), get(old, q))
    inner = get(new, A)
    S.check('the folder has its dictionary', isinstance(inner, dict))
    S.eq('the first file has its entry', get(inner, f1), v1 if had[0] == 'its file' else want(A + '/' + f1))
    S.eq('the second file has its entry', get(new, f2), v2 if had[1] else want(f2))
    if had[0] != 'nothing':
        S.eq('the folder-wide entry stays', get(inner, '*'), star)
        S.eq('other entries of the folder stay', get(inner, q), get(get(old, A), q))
    S.eq('no other entries', [len(new), len(inner)], [2 + there, 1 + 2 * (had[0] != 'nothing')])


@theorem('building takes every file of the folder of a folder-wide entry, but those described before it and those it leaves out by name', top=True, native=False,
         functions=(BASE + '._pack_index', BASE + '._pack_index_elem', BASE + '._pack_file'), bounded='one place; a folder of two files, and a folder or up to two more left out by name')
def folder_taken(S):
    import models
    K = models.SKey
    project = S.path('w', 'p')
    S.ctx.cwd = project
    d = S.int('d', 1) if S.flag('versions') else None
    root = project + ('/src' if d is None else '/src/v')
    S.dir(root)
    cls = BASE if d is None else CE
    g, dirname = 'base/lib', 'Форма'
    names = [S.text(n, no=('/', '*', '-', '.', '\\'), min=1) for n in ('first', 'left out', 'left out too', 'free')]
    S.distinct(*names)
    names = [n + '.bin' for n in names]
    there = project + '/' + g
    out = S.choose('left out', 3)
    names = names[:1] + names[3:] + names[1:1 + out]
    data = [S.bytes('data of ' + str(i)) for i in range(len(names))]
    for n, b in zip(names, data):
        S.file(there + '/' + n, b)
    if not out:
        S.file(there + '/inner/a-x.bin', b'1')
    S.file(project + '/elsewhere/a-y.bin', b'2')
    before = S.pick('described before', ['nothing', 'stays', 'elsewhere'])
    inner = {}
    if before != 'nothing':
        inner[K(names[0])] = '' if before == 'stays' else 'elsewhere/a-y.bin'
    star = '*'
    for n in names[2:]:
        star = star + '-' + n
    inner[K(star) if out else '*'] = g
    new = S.path('built')
    S.dir(new)
    n = len(S.paths())
    code, forms = [], []
    S.call(cls + '._pack_index', root, new, code, forms, {K(dirname): inner}, None, [''], d)
    got = [S.read(new + '/' + dirname + '/' + x) for x in names]
    S.eq('a file described before is taken as it says', got[0], {'nothing': data[0], 'stays': None, 'elsewhere': b'2'}[before])
    S.eq('a file left out is not taken', got[2:], [None] * out)
    S.eq('every other is', got[1], data[1])
    S.eq('and nothing else', len(S.paths()), n + sum(x is not None for x in got))
    S.eq('no other work is left', [code, forms], [[], []])
