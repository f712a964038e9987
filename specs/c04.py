"""C04: modules with shared areas.

Laying out and assembling both run over the lines of a file. Each is proved line by line, from any state the run can be in
(loop contract), for every kind of line; the state of the layout is the text of the area being read, the areas around it
(_include_path) and every open region or area (_path, '' for a region). The round trip follows by induction over the nesting:
the text of an area is its own lines and the header and footer of each area in it; assembling gives every line as it is and
after the header of an area what assembling its file gives.
"""
import inspect
import interp
from thm import registry, fn_of
T, theorem = registry()
CODE = 'organizer_code:OrganizerCode'
ASSUMPTIONS = ['induction over the nesting of areas: the triples about one line compose to the whole module, an area being assembled as its contract says']
DYN = ' //DynamicDirective'


def bound(fn, a, k):
    """arguments of a call by name"""
    f = fn_of(fn)
    b = inspect.signature(getattr(f, '__func__', f)).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def ordinary(S, name, also=()):
    """a line that is not the header or footer of anything and has no dynamic directive"""
    core = S.text(name, no=('\n', '\r', DYN) + tuple(also))
    return core, core + ('\n' if S.flag('ends the line') else '')


class Layout:
    """the run over the lines of a module: an arbitrary state, one line, the state after it"""
    def __init__(self, S, line, opened=None):
        import models
        self.S, self.line = S, line
        K = models.SKey
        self.first, self.next = S.text('first line', no='\r'), S.text('next line', no='\r')
        self.opened = opened or S.pick('innermost', ['region', 'area'])
        name = lambda n: S.text(n, min=1, no=('\n', ' //'))
        self.cur = name('area') if self.opened == 'area' or S.flag('in an area') else None
        self.areas = {}
        path, inc = S.rest('path'), S.rest('areas around')
        text = lambda n: S.text(n, no='\r')
        self.kind = S.pick('kind', ['include', 'includr'])
        if self.opened == 'area':
            self.up = name('area around') if S.flag('in another area') else None
            self.areas[K(self.up) if self.up is not None else None] = dict({'data': text('text around')}, **({} if self.up is None else {'area_type': 'include'}))
            inc = inc + [self.up]
            if self.up is not None:
                S.distinct(self.up, self.cur)
            path = path + [self.cur]
        else:
            path = path + ['']
        inc = inc + [self.cur]
        self.areas[K(self.cur) if self.cur is not None else None] = dict({'data': text('text so far')}, **({} if self.cur is None else {'area_type': self.kind}))
        self.path, self.inc = path, inc

    def run(self, expect):
        """expect(areas, path, inc): what the state has to be after the line"""
        S = self.S
        reads = [self.first]
        S.vm.models.hooks['readline'] = lambda file: reads.pop(0)
        src = S.path('s3')
        name = S.text('file', no='/', min=1) + '.bsl'
        S.file(src + '/m/' + name, b'')

        def entry(env, it=None):
            me = env.get('self')
            S.eq('inv: nothing is laid out before the first line', me.code_areas, {None: {'data': ''}})
            S.eq('inv: nothing is open before the first line', [env.get('_path'), env.get('_include_path')], [[''], [None]])
            S.eq('inv: the first line', env.get('line'), self.first)

        def before(env):
            env.get('self').code_areas = {k: dict(v) for k, v in self.areas.items()}
            reads[:] = [self.next]

        def after(env):
            areas, path, inc = {k: dict(v) for k, v in self.areas.items()}, list(self.path), list(self.inc)
            expect(areas, path, inc)
            S.eq('inv: the texts', env.get('self').code_areas, areas)
            S.eq('inv: what is open', env.get('_path'), path)
            S.eq('inv: the areas around', env.get('_include_path'), inc)
            S.eq('inv: the next line is next', env.get('line'), self.next)
            S.check('inv: one line is read', reads == [])
        S.loop(CODE + '.unpack', interp.Loop(S, at_entry=entry, before=before, after=after, keep={
            'line': (None, lambda: self.line, None), '_path': (None, lambda: list(self.path), None), '_include_path': (None, lambda: list(self.inc), None)}))
        r, err = S.attempt(CODE + '.unpack', (src, 'm', name, S.path('w'), None, None))
        return r, err

    def add(self, areas, who, text):
        import models
        for k in areas:
            if (models.unkey(k) is None) == (who is None) and (who is None or models.unkey(k) is who):
                areas[k]['data'] = areas[k]['data'] + text
                return
        raise KeyError(who)


U = dict(inner=True, native=False, functions=[CODE + '.unpack', CODE + '.is_area'])


def eol(S):
    return '\n' if S.flag('line end') else ''


@theorem('an ordinary line, or any other directive, goes to the text of the innermost area and changes nothing else', **U)
def line(S):
    t = S.text('line', no=('\n', '\r', DYN)) + eol(S)
    S.assume(S.len(t) > 0)
    core = S.strip(t)
    S.assume(not S.starts(core, '#Область'))
    S.assume(not S.starts(core, '#КонецОбласти'))
    L = Layout(S, t)
    L.run(lambda areas, path, inc: L.add(areas, L.cur, t))


def blank(S, n):
    return S.text(n, only=' \t')


def word(S, n, no=(), min=1, plain=True):
    """text that neither begins nor ends with a blank"""
    t = S.text(n, no=('\n', '\r', ' //', DYN) + tuple(no) if plain else ('\n', '\r', DYN) + tuple(no), min=min)
    t.parts[0].atom.info['stripped'] = True
    return t


@theorem('a line with a directive of its own goes to the area without the directive', **U)
def directive_line(S):
    mark = DYN[1:] + S.text('rest', no=('\n', '\r', DYN)) + eol(S)
    t = '&' + S.text('directive', no=('\n', '\r', DYN)) + ' ' + mark
    L = Layout(S, t)
    L.run(lambda areas, path, inc: L.add(areas, L.cur, mark))


@theorem('a line with the mark of a directive but none of its own goes to the area as it is', **U)
def mark_line(S):
    t = S.text('before', no=('\n', '\r', DYN, '&')) + DYN + S.text('rest', no=('\n', '\r', DYN, '&')) + eol(S)
    core = S.strip(t)
    S.assume(not S.starts(core, '#Область'))
    S.assume(not S.starts(core, '#КонецОбласти'))
    L = Layout(S, t)
    L.run(lambda areas, path, inc: L.add(areas, L.cur, t))


@theorem('the header of an ordinary region goes to the text of the area it is in, and the region is open', **U)
def region(S):
    core = word(S, 'name', plain=False)
    t = blank(S, 'indent') + core + blank(S, 'trailing') + eol(S)
    S.assume(S.starts(core, '#Область'))
    S.assume(not S.starts(core, '#Область include_'))
    S.assume(not S.starts(core, '#Область includr_'))
    L = Layout(S, t)

    def expect(areas, path, inc):
        L.add(areas, L.cur, t)
        path.append('')
    L.run(expect)


def header(S, more=True):
    kind = S.pick('area of', ['include', 'includr'])
    name = word(S, 'name', no='/')
    t = '#Область ' + kind + '_' + blank(S, 'after the mark') + name
    parts = [name]
    for n in ('directive', 'more')[:2 if more else 1]:
        if S.flag('with ' + n):
            parts.append(('&' if n == 'directive' else '(') + word(S, n))
            t = t + ' //' + parts[-1]
        else:
            break
    return kind, parts, blank(S, 'indent') + t + blank(S, 'trailing') + eol(S)


@theorem('the header of a shared area goes to the text around; its own text begins, empty, under its name', **U)
def area(S):
    import models
    kind, parts, t = header(S)
    L = Layout(S, t)
    S.distinct(parts[0], *[k.v for k in L.areas if k is not None])

    def expect(areas, path, inc):
        L.add(areas, L.cur, t)
        areas[models.SKey(parts[0])] = {'data': '', 'area_type': kind}
        path.append(parts[0])
        inc.append(parts[0])
    L.run(expect)


@theorem('the header of an area met before: its text begins anew, the text of the same file is not added to itself', **U)
def area_again(S):
    import models
    kind, parts, t = header(S)
    L = Layout(S, t)
    S.distinct(parts[0], *[k.v for k in L.areas if k is not None])
    key = models.SKey(parts[0])
    L.areas[key] = {'data': S.text('text met before', no='\r'), 'area_type': kind}

    def expect(areas, path, inc):
        L.add(areas, L.cur, t)
        areas[key] = {'data': '', 'area_type': kind}
        path.append(parts[0])
        inc.append(parts[0])
    L.run(expect)


@theorem('the footer of an ordinary region goes to the text of the area it is in; the footer of an area to the text around, which goes on', **U)
def footer(S):
    t = blank(S, 'indent') + '#КонецОбласти' + S.text('tail', no=('\n', '\r', DYN)) + eol(S)
    L = Layout(S, t)

    def expect(areas, path, inc):
        if L.opened == 'area':
            inc.pop()
            L.add(areas, L.up, t)
        else:
            L.add(areas, L.cur, t)
        path.pop()
    L.run(expect)


@theorem('at the end of the file the texts are given as they are', **U)
def done(S):
    L = Layout(S, '')
    L.first = '' if S.flag('empty') else L.first
    r, err = L.run(None)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: the texts', r, L.areas)


FUNC = 'organizer_file_ce:OrganizerFileCE.pack_get_descent_filename'


class Assembly:
    """the assembling of a file, at an arbitrary line"""
    def __init__(self, S, line):
        self.S, self.line = S, line
        self.first, self.next = S.text('first line', no='\r'), S.text('next line', no='\r')
        self.d = S.int('descent', 1) if S.flag('versions') else None
        self.dd = S.pick('directive around', [None, '&']) and '&' + word(S, 'directive around')
        self.src = S.path('w', 'p', 'src')
        self.module = S.text('module folder', no='/.', min=1)
        self.areas = S.opaque('redirected areas', dict)
        self.root = self.module if S.flag('within an area') else None
        self.so_far = S.text('text so far', no='\r')
        self.name = S.text('file', no='/', min=1)
        self.func = fn_of(FUNC)
        self.asked, self.within, self.located = [], [], []

    def run(self, expect):
        S = self.S
        reads = [self.first]
        S.vm.models.hooks['readline'] = lambda file: reads.pop(0)
        folder = self.src + '/' + self.module
        S.file(folder + '/' + self.name, b'')
        given = []

        def stored(vm, cls, path, name, d):
            given.append((path, name, d))
            return path, name
        S.contract(FUNC, stored)

        def entry(env, it=None):
            S.eq('inv: nothing is assembled before the first line', env.get('data'), '')
            S.eq('inv: the first line', env.get('line'), self.first)

        def before(env):
            reads[:] = [self.next]
            S.contract(CODE + '.pack_file', self.nested)
            S.contract(CODE + '.parse_include_path', self.parse)
            S.contract(FUNC, self.version)

        def after(env):
            S.eq('inv: the text', env.get('data'), self.so_far + expect())
            S.eq('inv: the next line is next', env.get('line'), self.next)
            S.check('inv: one line is read', reads == [])
            S.eq('inv: the directive around stays', env.get('dynamic_directive'), self.dd)
            S.eq('inv: the module stays', env.get('root_path'), self.root)
        S.loop(CODE + '.pack_file', interp.Loop(S, at_entry=entry, before=before, after=after, keep={
            'line': (None, lambda: self.line, None), 'data': (None, lambda: self.so_far, None), 'dynamic_directive': (None, lambda: self.dd, None),
            'root_path': (None, lambda: self.root, None)}))
        return S.attempt(CODE + '.pack_file', self.src, self.module, self.name, self.areas, self.d, self.func, self.dd, self.root)

    def nested(self, vm, cls, *a, **k):
        self.within.append(bound(CODE + '.pack_file', (cls,) + a, k))
        self.text = self.S.text('text of the area', no='\r')
        return self.text

    def parse(self, vm, *a, **k):
        S = self.S
        self.located.append(bound(CODE + '.parse_include_path', a, k))
        self.place = S.pick('place', ['outside', 'inside'])
        self.where = ('../' + S.text('shared', no='/.\\', min=1, isnt=('src',)), S.text('area file', no='/', min=1)) if self.place == 'outside' else (self.module, S.text('area file', no='/', min=1))
        return self.where

    def version(self, vm, cls, path, name, d):
        S = self.S
        self.asked.append((path, name, d))
        self.versioned = (path, S.text('stored as', no='/', min=1))
        return self.versioned


P = dict(inner=True, native=False, functions=[CODE + '.pack_file', CODE + '.is_area'])


@theorem('assembling: an ordinary line comes as it is', **P)
def line_back(S):
    core = word(S, 'line', plain=False) if S.flag('not blank') else ''
    t = blank(S, 'indent') + core + blank(S, 'trailing') + eol(S)
    S.assume(S.len(t) > 0)
    S.assume(not S.starts(core, '#Область include_'))
    S.assume(not S.starts(core, '#Область includr_'))
    A = Assembly(S, t)
    if A.dd is not None:
        S.assume(not S.starts(core, '//DynamicDirective'))
    A.run(lambda: t)


@theorem('assembling: a line whose directive was taken away gets the one of the area around', **P)
def directive_back(S):
    core = word(S, 'line', plain=False)
    S.assume(S.starts(core, '//DynamicDirective'))
    t = blank(S, 'indent') + core + blank(S, 'trailing') + eol(S)
    A = Assembly(S, t)
    A.run(lambda: t if A.dd is None else A.dd + ' ' + t)


@theorem('assembling: after the header of an area comes the text of its file, found by its name from the module; with its directive, or the one around', **P)
def area_back(S):
    kind, parts, t = header(S)
    A = Assembly(S, t)

    def expect():
        S.check('inv: it is looked up once', len(A.located) == 1)
        loc = A.located[0]
        S.eq('inv: by its name', loc['include_path'], parts[0])
        S.eq('inv: from the module', loc['path'], A.module)
        S.eq('inv: in the index', loc['index_code_areas'], A.areas)
        S.eq('inv: at the version', loc['descent'], A.d)
        S.check('inv: it is read once', len(A.within) == 1)
        w = A.within[0]
        if A.place == 'inside':
            S.eq('inv: inside the sources it has versions', A.asked, [(A.src + '/' + A.module, A.where[1], A.d)])
            S.eq('inv: its file', [w['path'], w['file_name']], list(A.versioned))
        else:
            S.eq('inv: outside it has none', A.asked, [])
            S.eq('inv: its file', [w['path'], w['file_name']], list(A.where))
        S.eq('inv: of the same sources', [w['src_dir'], w['index_code_areas'], w['descent']], [A.src, A.areas, A.d])
        S.check('inv: with the same versions', w['pack_get_descent_filename'] == A.func)
        S.eq('inv: with its directive', w['dynamic_directive'], parts[1] if len(parts) > 1 else A.dd)
        S.eq('inv: from the same module', w['root_path'], A.root)
        return t + A.text
    A.run(expect)


@theorem('assembling: at the end of the file the text is given', **P)
def assembled(S):
    A = Assembly(S, '')
    A.first = '' if S.flag('empty') else A.first
    r, err = A.run(None)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: the text', r, A.so_far)


def plain(S, n):
    """a line of a module: any text without the marks the layout looks for"""
    t = S.text(n, no=('\n', '\r', '#', '/', '&', '\ufeff'), min=1)
    t.parts[0].atom.info['stripped'] = True
    return t + '\n'


class Area:
    def __init__(self, S, i, kind, parts=2):
        self.parts = parts
        x = [S.text(f'name {i}.{j}', no=('_', '/', '.', '\\', '\n', '\r', ' '), min=1, isnt=('src', 'p', 'w', 'v', 'm', 'obj')) for j in range(self.parts if self.parts < 3 else 2)]
        for t in x:
            t.parts[0].atom.info['stripped'] = True
        self.words = x
        self.name = x[0] if self.parts == 1 else x[0] + '_' + x[1] if self.parts == 2 else x[0] + '__' + x[1]
        self.head = '#Область ' + kind + '_' + self.name + '\n'
        self.foot = '#КонецОбласти\n'
        self.kind = kind


@theorem('laying out a module and assembling it gives the module', top=True, native=False, bounded='modules of up to two areas, side by side or one in the other, and a region; lines of letters, in the module of one area of any text; names of up to three parts, all different',
         functions=['organizer_file:OrganizerFile.unpack_code_file', CODE + '.unpack', CODE + '.pack', CODE + '.pack_file', CODE + '.parse_include_path', CODE + '.is_area',
                    'organizer_file_ce:OrganizerFileCE.unpack_get_descent_filename', 'organizer_file_ce:OrganizerFileCE.pack_get_descent_filename'], paths=20000)
def whole(S):
    d = S.int('descent', 1) if S.flag('versions') else None
    cls = 'organizer_file:OrganizerFile' if d is None else 'organizer_file_ce:OrganizerFileCE'
    root = S.path('w', 'p', 'src', 'v') if d is not None else S.path('w', 'p', 'src')
    S.dir(root)
    new, s3 = S.path('new'), S.path('s3')
    shape = S.pick('shape', ['one', 'nested', 'side by side', 'region around', 'region within', 'directive', 'none', 'redirected', 'read only'])
    mk = lambda i: plain(S, f'line {i}') if shape == 'one' else S.text(f'line {i}', only='abcdefg', min=1) + '\n'
    line1, line2, line3 = mk(1), mk(2), mk(3)
    line = lambda i: (line1, line2, line3)[i - 1]
    a = Area(S, 1, 'include', S.pick('name of', [2, 1, 3]) if shape == 'one' else 2)
    b = Area(S, 2, 'include') if shape in ('nested', 'side by side') else None
    if b:
        S.distinct(*a.words, *b.words)
    if shape == 'one':
        text = line(1) + a.head + line(2) + a.foot + line(3)
    elif shape == 'nested':
        text = line(1) + a.head + b.head + line(2) + b.foot + line(3) + a.foot
    elif shape == 'side by side':
        text = a.head + line(1) + a.foot + line(2) + b.head + b.foot
    elif shape == 'region around':
        text = '#Область Имя\n' + a.head + line(1) + a.foot + '#КонецОбласти\n' + line(2)
    elif shape == 'region within':
        text = a.head + '#Область Имя\n' + line(1) + '#КонецОбласти\n' + a.foot + line(2)
    elif shape == 'directive':
        a.head = '#Область include_' + a.name + ' //&НаКлиенте\n'
        text = line(1) + a.head + '&НаКлиенте //DynamicDirective\n' + line(2) + a.foot
    elif shape == 'none':
        text = line(1) + line(2)
    else:
        text = line(1) + a.head + (line(2) if shape == 'redirected' else '') + a.foot
    index = None
    at = S.path('w', 'p') + '/' + a.words[0] + '/' + a.words[-1] + '.bsl'
    if shape == 'redirected':
        import models
        to = [S.text(f'to {i}', no=('_', '/', '.', '\\', '\n', '\r', ' '), min=1, isnt=('src', 'p', 'w', 'v', 'm', 'obj')) for i in (0, 1)]
        S.distinct(*a.words, *to)
        index = {'Области include': {models.SKey(a.name): to[0] + '_' + to[1]}}
        at = S.path('w', 'p') + '/' + to[0] + '/' + to[1] + '.bsl'
    if shape == 'read only':
        a.head = '#Область includr_' + a.name + '\n'
        text = line(1) + a.head + line(2) + a.foot
        shared = S.text('shared', only='abcdefg', min=1) + '\n'
        S.dir(S.path('w', 'p') + '/' + a.words[0])
        S.file(at, S.utf8(shared))
    S.file(s3 + '/m/obj.bsl', S.utf8(text))
    S.call(cls + '.unpack_code_file', (s3, 'm', 'obj.bsl', root, index, d))
    stored = 'obj.bsl' if d is None else 'obj.' + S.decimal(d) + '.bsl'
    S.check('the module lies in its place', S.read(root + '/m/' + stored) is not None)
    if shape in ('one', 'redirected') and a.parts == 2:
        S.check('the area is a file of its own', S.read(at) is not None)
        S.eq('with its text', S.read(at), S.utf8(line2))
    if shape == 'read only':
        S.eq('the shared file is as it was', S.read(at), S.utf8(shared))
        text = line1 + a.head + shared + a.foot
    n = len(S.paths())
    S.call(CODE + '.pack', (root, 'm', stored, new, 'm', 'obj.bsl', index and index['Области include'], d, fn_of(cls + '.pack_get_descent_filename')))
    S.eq('assembling gives the module', S.read(new + '/m/obj.bsl'), S.utf8(text))
    S.eq('and writes nothing else', len(S.paths()), n + 1)
