"""C15: shared areas of forms.

A form is a tree of elements and a table of their data by path. The functions that move an area walk the tree; each is proved for
an arbitrary element of an arbitrary list (loop contract), a call for the children being taken by its contract (what it is given is
checked), so by induction over the tree the data of every element of an area goes to the area's file under its path there, and back.
"""
import interp
import models
from thm import registry, fn_of
T, theorem = registry()
ORG = 'organizer_form_elem:OrganizerFormElem'
CODE = 'organizer_code:OrganizerCode'
ASSUMPTIONS = ['induction over the tree of elements: what is proved of an element whose children are handled by contract composes to the whole tree']
K = models.SKey
I = dict(inner=True, native=False)


def name_of(S, kinds=('', 'include_', 'includr_'), n='name'):
    """(prefix of an area or '', rest of the name)"""
    k = S.pick(f'kind of {n}', kinds)
    t = S.text(n, no='/!', min=1)
    if k == '':
        S.assume(not S.starts(t, 'include_'))
        S.assume(not S.starts(t, 'includr_'))
    return k, t


class Element:
    def __init__(self, S, kinds=('', 'include_', 'includr_')):
        self.S = S
        k, n = name_of(S, kinds)
        self.kind, self.rest, self.name = k, n, k + n
        self.elem = {'name': self.name}
        self.page = S.pick('page', [None, '', S.text('page', no='!', min=1)])
        if self.page is not None:
            self.elem['page'] = self.page
        self.child = S.pick('children', [None, 'empty', 'some'])
        if self.child is not None:
            self.child = S.rest('child', min=1) if self.child == 'some' else []
            self.elem['child'] = self.child

    def within(self, path, name=None):
        out = path
        for x in (self.page, self.name if name is None else name):
            if x is not None and not (x is self.page and x == ''):
                out = x if out == '' else out + '/' + x
        return out

    def child_name(self):
        return 'include_' + self.rest if self.kind == 'includr_' else self.name


class Move:
    """the data of the elements of an area goes from src (under path there) to dst (under path here)"""
    def __init__(self, S):
        self.S = S
        self.prefix = S.pick('area lies', ['', S.text('place', no='!', min=1)])
        self.inner = S.text('path in the area', no='!', min=1)
        self.full = self.inner if self.prefix == '' else self.prefix + '/' + self.inner
        self.value, self.keep = S.opaque('data'), S.opaque('other data')


def moved(S, fn, out):
    """both directions: out: from the form to the area; else back"""
    m = Move(S)
    state = S.pick('at', ['element', 'missing', 'pages', 'page', 'page without data', 'no pages'])
    e = Element(S) if state in ('element', 'missing') else None
    here = lambda p: p if out else (p if m.prefix == '' else m.prefix + '/' + p)
    there = lambda p: (p if m.prefix == '' else m.prefix + '/' + p) if out else p
    kind = None
    given = m.full if out else m.inner
    if not out:
        # an area is put back under its name, its contents lie under that of an ordinary one
        kind = S.pick('called for', [None, 'include_', 'includr_'])
        if kind is not None:
            r = S.text('area', no='!', min=1)
            m.inner = 'include_' + r
            given = kind + r
    src, dst = {'!other': m.keep}, {'!here': m.keep}
    pages = S.rest('pages', min=int(state in ('page', 'page without data')))
    page = S.text('a page', no='!', min=1, isnt=('-pages-',))
    if state == 'element':
        src[K(there(e.within(m.inner)))] = m.value
    elif state in ('pages', 'page', 'page without data'):
        src[K(there(m.inner + '/-pages-'))] = pages
        if state == 'page':
            src[K(there(m.inner + '/' + page))] = m.value
    tree = S.pick('tree', [None, S.rest('tree', min=1), []]) if e is None else S.rest('tree', min=1)
    calls = []

    def recursion(vm, cls, *a):
        calls.append(a)

    def entry(env, it=None):
        S.eq('inv: every element in turn', it, tree)
        S.contract(fn, recursion)

    def after(env):
        if state != 'element':
            S.check('inv: an element without data is refused', False)
            return
        S.eq('inv: its data is taken', src, {'!other': m.keep})
        S.eq('inv: and put in its place', dst, {'!here': m.keep, K(here(e.within(m.inner))): m.value})
        if e.child:
            S.eq('inv: its children go the same way', [list(c[:5]) for c in calls], [[e.child, there(e.within(m.inner, e.child_name())), src, dst, m.prefix] if out else
                                                                                 [e.child, e.within(m.inner, e.child_name()), src, dst, m.prefix]][:1] if out else
                 [[e.child, e.within(m.inner, e.child_name()), dst, src, m.prefix]])
        else:
            S.eq('inv: there are no children', calls, [])

    def leave(env):
        if e is not None:
            S.end()
    if e is None:
        walk = interp.Loop(S, at_entry=lambda env, it=None: S.eq('inv: every element in turn', it, tree), element=lambda: S.end(), after=None)
    else:
        walk = interp.Loop(S, at_entry=entry, element=lambda: e.elem, after=after, leave=leave)

    def page_after(env):
        S.eq('inv: the data of a page is taken', src, {'!other': m.keep})
        want = {'!here': m.keep, K(here(m.inner + '/-pages-')): pages}
        if state == 'page':
            want[K(here(m.inner + '/' + page))] = m.value
        S.eq('inv: and put in its place', dst, want)
    over = interp.Loop(S, at_entry=lambda env, it=None: S.eq('inv: every page in turn', it, pages), element=lambda: page if state != 'pages' else S.end(),
                       after=page_after, leave=lambda env: S.end() if state != 'pages' else None)
    S.loops(fn, walk, over)
    if out:
        r, err = S.attempt(fn, tree, given, src, dst, m.prefix)
    else:
        r, err = S.attempt(fn, tree, given, dst, src, m.prefix, *([kind] if kind is not None else []))
    if state == 'missing':
        S.check('inv: an element without data is refused', err is not None)
        return
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: the list of pages is taken', src, {'!other': m.keep})
    S.eq('inv: and put in its place', dst, {'!here': m.keep} if state == 'no pages' else {'!here': m.keep, K(here(m.inner + '/-pages-')): pages})


@theorem('taking an area out: the data of an element, of its children and of the pages goes to the area, under its path there', functions=[ORG + '._pop_area_data', ORG + '.get_old_path', ORG + '.get_child_path', ORG + '.is_area'], **I)
def taken(S):
    moved(S, ORG + '._pop_area_data', True)


@theorem('putting an area back: the data of an element, of its children and of the pages goes to the form, under its path there', functions=[ORG + '._append_area_data', ORG + '.get_old_path', ORG + '.get_child_path', ORG + '.is_area'], **I)
def put_back(S):
    moved(S, ORG + '._append_area_data', False)


class Place:
    """where the element stands in the form"""
    def __init__(self, S):
        self.path = S.pick('in', ['', S.text('path', no='!', min=1)])


def after_page(e, path):
    return '/'.join([]) if not path and not e.page else path if not e.page else e.page if path == '' else path + '/' + e.page


@theorem('taking areas out: an area inside the form gets its children and their data; one for reading only goes nowhere; any other element is searched for areas',
         functions=[ORG + '._unpack_get_areas', ORG + '.get_old_path', ORG + '.is_area'], **I)
def areas_found(S):
    p = Place(S).path
    e = Element(S)
    tree = S.rest('tree', min=1)
    root, areas = {'!other': S.opaque('other data')}, {'!other': S.opaque('another area')}
    root0, areas0 = dict(root), dict(areas)
    calls, pops = [], []
    D = S.opaque('data of the area')

    def pop(vm, cls, *a):
        pops.append(a)
        S.eq('inv: the file of an area begins empty', a[3], {})
        a[3]['!filled'] = D

    def entry(env, it=None):
        S.eq('inv: every element in turn', it, tree)
        S.contract(ORG + '._unpack_get_areas', lambda vm, cls, *a: calls.append(a))
        S.contract(ORG + '._pop_area_data', pop)
    was = dict(e.elem)

    def after(env):
        S.eq('inv: the data of the form is left to the others', root, root0)
        if e.kind == '':
            S.eq('inv: any other element stays as it is', e.elem, was)
            S.eq('inv: no area', [areas, pops], [areas0, []])
            S.eq('inv: its children are searched', [list(c) for c in calls], [[e.child, e.within(p), root, areas]] if e.child else [])
            return
        S.eq('inv: the children of an area are its own matter', calls, [])
        S.eq('inv: its data is taken out', [list(c[:3]) + list(c[4:]) for c in pops], [[e.child or [], e.within(p, 'include_' + e.rest), root, after_page(e, p)]])
        S.check('inv: it says that its children lie elsewhere', isinstance(e.elem.get('child'), str) and e.elem['child'] != '')
        S.eq('inv: else it stays as it is', {k: v for k, v in e.elem.items() if k != 'child'}, {k: v for k, v in was.items() if k != 'child'})
        want = dict(areas0)
        if e.kind == 'include_':
            want[K(e.rest)] = {'data': {'!filled': D}, 'tree': e.child or []}
        S.eq('inv: its file', areas, want)
    S.loop(ORG + '._unpack_get_areas', interp.Loop(S, at_entry=entry, element=lambda: e.elem, after=after))
    r, err = S.attempt(ORG + '._unpack_get_areas', tree, p, root, areas)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: nothing else happens', [root, areas], [root0, areas0])


def named(fn, a, k):
    import inspect
    f = fn_of(fn)
    b = inspect.signature(getattr(f, '__func__', f)).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


@theorem('putting areas back: the children of an area come from its file, found by its name, and their data goes to its place in the form; any other element is searched for areas',
         functions=[ORG + '._pack_get_areas', ORG + '.get_old_path', ORG + '.is_area'], **I)
def areas_back(S):
    p = Place(S).path
    e = Element(S)
    out = S.flag('children lie elsewhere')
    if out:
        e.elem['child'] = e.child = S.text('mark', min=1)
    tree = S.pick('tree', [S.rest('tree', min=1), None, []])
    root = {'!other': S.opaque('other data')}
    root0 = dict(root)
    src, path, idx = S.path('w', 'p', 'src'), S.text('folder', no='/.!', min=1), S.opaque('redirected areas', dict)
    file = S.text('form', no='/', min=1) + '.elem.json'
    d = S.int('descent', 1) if S.flag('versions') else None
    calls, adds, looked, read = [], [], [], []
    where, to = '../' + S.text('shared', no='/.!\\', min=1, isnt=('src',)), S.text('area file', no='/', min=1)
    inside = S.flag('its file is among the sources')
    if inside:
        where = where[3:]
    own, near = (S.path('w', 'p', 'src') if inside else S.path('w', 'p')) + '/' + (where if inside else where[3:]), []

    CEF = 'organizer_file_ce:OrganizerFileCE.pack_get_descent_filename'
    nearest = fn_of(CEF)

    def of_version(vm, cls, p, f, v):
        near.append((p, f, v))
        return p + '/of', 'version ' + f
    S.contract(CEF, of_version)
    T2, D2 = S.opaque('tree of the area'), S.opaque('data of the area')

    def parse(vm, *a, **k):
        looked.append(named(CODE + '.parse_include_path', a, k))
        return where, to

    def json_read(vm, *a):
        read.append(a)
        return {'tree': T2, 'data': D2}

    def entry(env, it=None):
        S.eq('inv: every element in turn', it, tree or [])
        S.contract(ORG + '._pack_get_areas', lambda vm, cls, *a: calls.append(named(ORG + '._pack_get_areas', (cls,) + a, {})))
        S.contract(ORG + '._append_area_data', lambda vm, cls, *a, **k: adds.append(named(ORG + '._append_area_data', (cls,) + a, k)))
        S.contract(CODE + '.parse_include_path', parse)
        S.contract('helper:json_read', json_read)
    was = dict(e.elem)

    def after(env):
        S.eq('inv: the data of the form is left to the others', root, root0)
        if e.kind != '' and out:
            S.check('inv: it is looked up once', len(looked) == 1)
            l = looked[0]
            S.eq('inv: by its name, from the form', [l['include_path'], l['path'], l['index_code_areas'], l['descent'], l['file_extension']], [e.rest, path, idx, d, 'elem.json'])
            S.eq('inv: among the sources the file of the version is asked for', [list(x) for x in near], [[own, to, d]] if inside else [])
            S.eq('inv: its file is read', [list(x) for x in read], [[own + '/of', 'version ' + to] if inside else [own, to]])
            S.check('inv: its data is put back, once', len(adds) == 1)
            a = adds[0]
            S.eq('inv: its data is put back in its place', [a['tree'], a['path'], a['root_data'], a['data'], a['append_path'], a['area_type']],
                 [T2, e.name, root, D2, after_page(e, p), e.kind])
            S.eq('inv: its children are those of the file', e.elem, dict(was, child=T2))
            S.eq('inv: and nothing else', calls, [])
            return
        S.eq('inv: any other element stays as it is', e.elem, was)
        S.eq('inv: no area', [looked, read, adds], [[], [], []])
        want = [src, path, file, e.child, e.within(p), root, idx, d, nearest]
        S.eq('inv: its children are searched', [[c[n] for n in ('src_dir', 'src_path', 'file_name', 'tree', 'path', 'root_data', 'index_code_areas', 'descent', 'pack_get_descent_filename')] for c in calls],
             [want] if e.child else [])
    if out and e.kind == '':
        S.end()      # only areas have their children elsewhere
    S.loop(ORG + '._pack_get_areas', interp.Loop(S, at_entry=entry, element=lambda: e.elem if tree else S.end(), after=after))
    r, err = S.attempt(ORG + '._pack_get_areas', src, path, file, tree, p, root, idx, d, nearest)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: nothing else happens', root, root0)


class Files:
    """json files by their place (contracts of helper.json_read, json_write)"""
    def __init__(self, S):
        self.S, self.at, self.written = S, {}, []
        S.contract('helper:json_read', self.read)
        S.contract('helper:json_write', self.write)

    def place(self, path, name):
        import os
        return self.S.call(os.path.normpath, self.S.call(os.path.join, path, name))

    def read(self, vm, path, name, *a, **k):
        p = self.place(path, name)
        for q, v in self.at.items():
            if self.S.truth(models.unkey(q) == p):
                return self.S.copy(v)
        raise FileNotFoundError(2, 'No such file', 'json')

    def write(self, vm, data, path, name, *a, **k):
        p = self.place(path, name)
        self.written.append(p)
        for q in list(self.at):
            if self.S.truth(models.unkey(q) == p):
                del self.at[q]
        self.at[K(p)] = self.S.copy(data)
        self.S.file(p, b'json')

    def put(self, path, name, data):
        self.at[K(self.place(path, name))] = self.S.copy(data)
        self.S.file(path + '/' + name, b'json')


def x_same(S, comparer, value):
    read = []

    def json_read(vm, *a):
        read.append(a)
        return value if len(read) == 1 else dict(S.copy(value), tree=['other'])
    S.contract('helper:json_read', json_read)
    r = [bool(S.truth(S.call(comparer, None, None, value, 'at', 'name'))) for _ in range(2)]
    S.eq('inv: of the file found', [list(x) for x in read], [['at', 'name'], ['at', 'name']])
    return r


@theorem('the form and each area are written to their own files: the form where the index says, an area where its name says, which is where building looks', native=False, inner=True,
         functions=[ORG + '._unpack_write_areas'])
def written(S):
    dest, path = S.path('w', 'p', 'src'), S.text('folder', no='/.!', min=1)
    src, file = S.path('s3'), S.text('form', no='/', min=1) + '.elem.json'
    d = S.int('descent', 1) if S.flag('versions') else None
    redirected = S.opaque('redirected areas', dict)
    index = S.pick('index', [None, {'Области include': redirected}])
    area = S.flag('area')
    name = S.text('name', no='/!', min=1)
    value = {'tree': [], 'data': {'!e': S.text('its content')}}
    out, near = [], []
    where, to = '../' + S.text('shared', no='/.!\\', min=1, isnt=('src',)), S.text('area file', no='/', min=1)
    inside = S.flag('its place is among the sources')
    if inside:
        where = where[3:]
    own = (dest if inside else S.path('w', 'p')) + '/' + (where if inside else where[3:])
    stored = inside and S.flag('it has to be stored')

    CEF = 'organizer_file_ce:OrganizerFileCE.unpack_get_descent_filename'
    nearest = fn_of(CEF)

    def of_version(vm, cls, *a):
        near.append(a)
        return (a[3] + '/of', 'version ' + a[4]) if stored else ('', '')
    S.contract(CEF, of_version)

    def parse(vm, *a, **k):
        l = named(CODE + '.parse_include_path', a, k)
        S.eq('inv: by its name, from the form', [l['include_path'], l['path'], l['index_code_areas'], l['descent'], l['file_extension']],
             [name, path, redirected if index else None, d, 'elem.json'])
        S.check('inv: an area is looked up by name', area)
        return where, to

    def main(vm, *a):
        S.eq('inv: the form goes where the index says', list(a), [dest, path, file, index, d])
        S.check('inv: only the form', not area)
        return where, to
    S.contract(CODE + '.parse_include_path', parse)
    S.contract('index:get_dest_path', main)
    S.contract('organizer_form_elem:get_dest_path', main)
    S.contract('helper:json_write', lambda vm, *a, **k: out.append(a))
    areas = {(K(name) if area else None): value}
    S.call(ORG + '._unpack_write_areas', src, path, file, dest, index, d, areas, nearest)
    if inside:
        S.eq('inv: among the sources the file of the version is asked for', [list(x[2:6]) for x in near], [[value, own, to, d]])
        S.eq('inv: what it is compared with is its content', x_same(S, near[0][6], value), [True, False])
    else:
        S.eq('inv: outside it has no version', near, [])
    S.eq('inv: one file', [list(x) for x in out], [[value, own, to]] if not inside else [[value, own + '/of', 'version ' + to]] if stored else [])


def stage(S, kind):
    """shapes of forms: (tree, data, the tree of the form when the shared file of a read-only area is put in)"""
    o = lambda n: S.opaque('data ' + n)
    t = lambda n: S.text(n, no='/!_.*-', min=1, isnt=('include', 'includr', '-pages-', 'form'))
    a, b, g, f1, f2, page = (t(n) for n in ('a', 'b', 'g', 'f1', 'f2', 'page'))
    S.distinct(a, b, g, f1, f2, page)
    A, G = 'include_' + a, g
    pg = lambda e: dict(e, page=page)
    el = lambda n, ch=None: {'name': n} if ch is None else {'name': n, 'child': ch}
    if kind == 'flat':
        return [el(A, [el(f1)]), el(f2)], {K(A): o('A'), K(A + '/' + f1): o('1'), K(f2): o('2')}
    if kind == 'empty':
        return [el(A, []), el(f2)], {K(A): o('A'), K(f2): o('2')}
    if kind == 'in a group':
        return [el(G, [el(f2), el(A, [el(f1)])])], {K(G): o('G'), K(G + '/' + f2): o('2'), K(G + '/' + A): o('A'), K(G + '/' + A + '/' + f1): o('1')}
    if kind == 'group within':
        return [el(A, [el(G, [el(f1)]), el(f2)])], {K(A): o('A'), K(A + '/' + G): o('G'), K(A + '/' + G + '/' + f1): o('1'), K(A + '/' + f2): o('2')}
    if kind == 'area within':
        B = 'includr_' + b
        return [el(A, [el(B, [el(f1)])])], {K(A): o('A'), K(A + '/' + B): o('B'), K(A + '/include_' + b + '/' + f1): o('1')}
    if kind == 'on a page':
        return [pg(el(A, [pg(el(f1))]))], {K(page + '/' + A): o('A'), K(page + '/' + A + '/' + page + '/' + f1): o('1'), K(page + '/' + A + '/-pages-'): [page], K(page + '/' + A + '/' + page): o('P')}
    if kind == 'bare pages':
        pages = [page, t('page 2'), t('page 3')]
        S.distinct(a, b, g, f1, f2, *pages)
        d = {K(A): o('A'), K(A + '/' + page + '/' + f1): o('1'), K(A + '/-pages-'): pages}
        for i in S.pick('pages with data', [(1, 2), (0, 2), (0, 1), (2,)]):
            d[K(A + '/' + pages[i])] = o('of a page')
        return [el(A, [pg(el(f1))])], d
    B = 'include_' + b
    return [el(A, [el(f1)]), el(B, [el(f2)])], {K(A): o('A'), K(A + '/' + f1): o('1'), K(B): o('B'), K(B + '/' + f2): o('2')}


@theorem('moving the areas of a form to their files and back gives the form, wherever an index sends the form', top=True, native=False, bounded='eight shapes of forms: one or two areas, in a group, around one, in one another, on a page, with up to three pages with data or without; any names and data',
         functions=['organizer_file:OrganizerFile.unpack', 'organizer_file:OrganizerFile.pack', ORG + '.unpack', ORG + '.pack', ORG + '._unpack_get_areas', ORG + '._pop_area_data', ORG + '._unpack_write_areas', ORG + '._pack_get_areas', ORG + '._append_area_data', CODE + '.parse_include_path'])
def form(S):
    kind = S.pick('form', ['flat', 'empty', 'in a group', 'group within', 'area within', 'on a page', 'bare pages', 'two'])
    tree, data = stage(S, kind)
    d = S.int('descent', 1) if S.flag('versions') else None
    root, s3, new = S.path('w', 'p', 'src', 'v') if d is not None else S.path('w', 'p', 'src'), S.path('s3'), S.path('new')
    F = Files(S)
    content = {'tree': tree, 'data': data, 'props': S.opaque('the rest')}
    F.put(s3 + '/m', 'form.elem.json', content)
    cls = 'organizer_file_ce:OrganizerFileCE' if d is not None else 'organizer_file:OrganizerFile'
    index = None
    if S.flag('an index sends the form elsewhere'):
        index = {'m': {'form.elem.json': S.text('lib', no='/.!\\', min=1, isnt=('src',)) + '/' + S.text('sent', no='/.', min=1) + '.elem.json'}}
    S.contract('helper:run_in_pool', lambda vm, method, tasks, **k: [S.call(method, t) for t in tasks] and None)
    S.call(cls + '.unpack', s3, root, index=index, descent=d)
    S.eq('the form and its areas are written', len(F.written), 3 if kind == 'two' else 2)
    S.call(cls + '.pack', root, new, index=index, descent=d)
    got = F.read(None, new + '/m', 'form.elem.json')
    S.eq('the elements', got['tree'], tree)
    S.eq('their data', got['data'], data)
    S.eq('the rest', {k: v for k, v in got.items() if k not in ('tree', 'data')}, {'props': content['props']})
