"""C14: ordinary forms.

An element lies on a page of a panel; a panel is an element with pages and elements of its own. Every function that takes a part out
is proved against the one that puts it back, on lists laid out as the counters in them say; the loops are proved for an arbitrary
page, element or property. Elements of a panel are taken by contract, so by induction over the tree the form comes back.
"""
import interp
import models
from thm import registry
T, theorem = registry()
P = 'MetaDataObject.Form.FormElements27.Panel:Panel'
E = 'MetaDataObject.Form.FormElements27.FormElement:'
F27 = 'MetaDataObject.Form.FormElements27.FormElements27:FormElements27'
FC = 'MetaDataObject.Form.FormCore:FormCore'
MARK = 'Дочерние элементы отдельно'
ASSUMPTIONS = ['induction over the tree of elements: what is proved of a panel whose elements are handled by contract composes to the whole tree',
               'pages of a panel, elements of a page and properties of a form have distinct names, elements distinct ids (the platform keeps them so)']
K = models.SKey
I = dict(inner=True, native=False)
OTHER = '"'


def cls_of(name):
    import importlib
    mod, n = name.split(':')
    return getattr(importlib.import_module('v8unpack.' + mod), n)


def types():
    return cls_of(E + 'FormItemTypes')


class Raw:
    """a list laid out by counters"""
    def __init__(self, S, *first):
        self.S, self.x = S, list(first)

    def other(self, n=1):
        for _ in range(n):
            self.x.append(self.S.opaque('value'))
        return self

    def put(self, *v):
        self.x += v
        return self

    def counted(self, name, size=1):
        n = self.S.int(name, 0)
        self.x.append(self.S.decimal(n))
        r = self.S.rest(name)
        self.S.assume(r[0].length == n * size)
        self.x += r
        return self

    def tail(self, name='tail'):
        self.x += self.S.rest(name)
        return self


def run_of(S, name, n):
    """a run of n values"""
    r = S.rest(name)
    S.assume(r[0].length == n)
    return r


def joined(*xs):
    out = ''
    for x in xs:
        if x is not None and not (isinstance(x, str) and x == ''):
            out = x if isinstance(out, str) and out == '' else out + '/' + x
    return out


def area_name(S, n='name'):
    k = S.pick('kind of ' + n, ['', 'include_', 'includr_'])
    r = S.text(n, no=('/', '"', 'includ'), min=1)
    return k, r, k + r, ('include_' if k == 'includr_' else k) + r


def panel(S, version='27', **a):
    c = cls_of(P if version == '27' else P.replace('27', '26'))
    d = dict(elements_tree=[], pages=[], form=None, _elements_tree_index={}, elements_index={}, anchor_index=[[], [], [], []], auto_include=False, elements_data={}, props_index={},
             last_elem_id=1, field_data_source=[], anchored={})
    d.update(a)
    return S.obj(c, **d)


@theorem('an element is kept whole under its page and name, with its property by name; building finds it there and gives it back as it was (or under a new number, areas being shared, with its property tied to that number)', **I,
         functions=[E + 'FormElement.decode', E + 'FormElement.encode', P + '.add_elem', P + '.calc_id', 'helper:str_decode'])
def element(S):
    auto = S.flag('areas are shared')
    t = S.pick('type', ['Field', 'Panel', 'Dendrogram'])
    kind, rest, name, inside = area_name(S)
    path = S.pick('in', ['', S.text('path', no='"', min=1)])
    i, n = S.int('page', 0), S.int('pages', 1)
    S.assume(i < n)
    page = S.text('page name', no='/"', min=1)
    pages = run_of(S, 'pages before', i) + [page] + run_of(S, 'pages after', n - i - 1)
    ident = S.decimal(S.int('id', 1))
    raw = [types()[t].value, ident] + S.rest('values') + [S.rest('placement') + [S.decimal(i)] + [S.opaque('p') for _ in range(4)], [S.opaque('v'), '"' + name + '"'] + S.rest('more'), S.opaque('last')]
    was = S.copy(raw)
    prop = S.flag('has a property')
    pn, pid = S.text('property', no='"', min=1), S.text('property id', no='"', min=1)
    top = S.obj(cls_of(F27), props_index={K(ident): {'name': pn, 'index': 0}} if prop else {})
    keep = S.opaque('other')
    before = S.opaque('an element before')
    p = panel(S, form=top, auto_include=auto, pages=pages, elements_data={OTHER: keep})
    page_id = joined(path, page)
    if auto:
        node = {'name': page, 'type': 'Page', 'child': [before]}
        p.elements_tree = run_of(S, 'page nodes before', i) + [node] + run_of(S, 'page nodes after', n - i - 1)
        p._elements_tree_index = {OTHER: 0, K(page_id): i}
    else:
        p.elements_tree = [before]
    r, err = S.attempt(E + 'FormElement.decode', p, path, raw) if t != 'Panel' else S.attempt(cls_of(E + 'FormElement').decode.__func__.__get__(cls_of(P), type(cls_of(P))), p, path, raw)
    S.check('inv: no error', err is None, repr(err))
    key = joined(path, page, name)
    tree, _, eid = r
    want = {'name': name, 'type': t} if auto else {'name': name, 'type': t, 'page': page}
    S.eq('inv: its node', tree, want)
    S.eq('inv: its key', eid, key)
    S.eq('inv: the key by the id', p.elements_index, {K(ident): key})
    if auto:
        S.eq('inv: its node lies on its page', node, {'name': page, 'type': 'Page', 'child': [before, want]})
    else:
        S.eq('inv: its node lies in the panel', p.elements_tree, [before, want])
    data = p.elements_data.get(next((k for k in p.elements_data if k != OTHER), None))
    S.eq('inv: its data lies under its key, whole', p.elements_data, {OTHER: keep, K(key): data})
    S.eq('inv: whole', [data['raw'], data.get('prop')], [was, pn if prop else None])
    last = S.int('last id', 1)
    b = panel(S, auto_include=auto, props_index={K(pn): pid}, last_elem_id=last)
    r, err = S.attempt(cls_of(E + 'FormElement').encode.__func__.__get__(cls_of(P) if t == 'Panel' else cls_of(E + 'FormElement'), type), b, path, tree, data)
    S.check('inv: building: no error', err is None, repr(err))
    new = S.decimal(last + 1) if auto else ident
    S.eq('inv: its number', r[0], new)
    S.eq('inv: it comes back as it was', r[1], [was[0], new] + was[2:])
    S.eq('inv: numbers are not used twice', b.last_elem_id, last + 1 if auto else last)
    S.eq('inv: its property is tied to its number', [list(x) for x in b.field_data_source], [[new, pid]] if prop else [])


@theorem('the elements of a panel are taken one by one by the class their type names and leave a mark', **I, functions=[P + '.decode_elements', E + 'FormElement.get_class_form_elem'])
def elements_out(S):
    auto = S.flag('areas are shared')
    t = S.pick('type', [x.name for x in types()] if not auto else ['Field', 'Panel'])
    path = S.pick('in', ['', S.text('path', no='"', min=1)])
    v = S.pick('version', ['27', '26'])
    some = S.flag('elements')
    keep = S.opaque('other')
    p = panel(S, v, auto_include=auto, elements_data={OTHER: keep})
    after = S.rest('after')
    if not some:
        raw = ['0'] + after
        was = S.copy(raw)
        r, err = S.attempt(P + '.decode_elements', p, path, raw)
        S.check('inv: no error', err is None)
        S.eq('inv: nothing there, nothing taken', raw, was)
        return
    n, i = S.int('elements', 1), S.int('i', 0)
    S.assume(i < n)
    elem = [types()[t].value, S.opaque('id')] + S.rest('values')
    left, right = run_of(S, 'before', i), run_of(S, 'behind', n - i - 1)
    raw = [S.decimal(n)] + left + [elem] + right + after
    was = S.copy(raw)
    key = S.text('key', no='"', min=1)
    sofar, keys = run_of(S, 'keys so far', i), run_of(S, 'keys', n)
    calls, ties = [], []

    def decode(vm, cls, form, where, x):
        calls.append([cls.__name__, form is p, where, x is elem])
        return S.opaque('node'), S.opaque('data'), key
    placement = S.opaque('placement')
    data = S.pick('data', [{'id': S.opaque('id'), 'raw': S.rest('raw') + [placement, 0, 0]}]) if auto else None

    def entry(env, it=None):
        S.eq('inv: begins empty', env.get('panel_elements'), [])
        S.contract(E + 'FormElement.decode', decode)
        S.contract(P + '.decode', decode)

    def after_one(env):
        S.eq('inv: it is taken by its class, under the path of the panel', calls, [['Panel' if t == 'Panel' else 'FormElement', True, path, True]])
        S.eq('inv: its key is kept', env.get('panel_elements'), sofar + [key])
        S.eq('inv: the list stays as it is meanwhile', raw, was)
    first = interp.Loop(S, at_entry=entry, keep={'panel_elements': (None, lambda: list(sofar), None)}, element=lambda: i, after=after_one, leave=lambda env: env.set('panel_elements', keys))

    def entry2(env, it=None):
        S.eq('inv: every element in turn', it, keys)
        S.contract(P + '.anchored_elem_id_to_elem_name', lambda vm, self, *a: ties.append(list(a)))
        p.elements_data[K(key)] = data

    def after2(env):
        S.eq('inv: what it is tied to is told by name', ties, [[placement, path, key]])
    second = interp.Loop(S, at_entry=entry2, element=lambda: key, after=after2)
    S.loops(P + '.decode_elements', first, second)
    r, err = S.attempt(P + '.decode_elements', p, path, raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: they leave a mark', raw, [MARK] + after)


@theorem('the elements of a panel are built one by one from the data under their keys, in their order, and their number is told', **I, functions=[P + '.encode_elements', P + '.encode_element', E + 'FormElement.get_class_form_elem'])
def elements_back(S):
    auto = S.flag('areas are shared')
    t = S.pick('type', ['Field', 'Panel'])
    pre = S.pick('in', ['', S.text('path', no=('"', 'includ'), min=1)])
    kind = S.pick('panel', ['', 'include_', 'includr_', 'includrx']) if pre != '' else ''
    path, here = kind + pre, ('include_' if kind == 'includr_' else kind) + pre
    v = S.pick('version', ['27', '26'])
    name, page = S.text('name', no='"/', min=1), S.text('page', no='"/', min=1)
    node = {'name': name, 'type': t}
    missing = S.flag('without data')
    if not auto:
        node['page'] = S.pick('its page', [page, None])
        page = node['page']
    key, page_id = joined(here, page, name), joined(here, page)
    data, keep = S.opaque('data'), S.opaque('other')
    p = panel(S, v, auto_include=auto, elements_data={OTHER: keep} if missing else {OTHER: keep, K(key): data}, elements_index={})
    built, num = S.opaque('built'), S.opaque('number')
    n = S.int('elements', 0)
    sofar, records = S.rest('records so far'), run_of(S, 'records', n)
    calls, ties = [], []

    def encode(vm, cls, form, where, x, d):
        calls.append([cls.__name__, form is p, where, x is node, d])
        return num, built

    def entry(env, it=None):
        S.eq('inv: every one in turn', getattr(it, 'over', it), p.elements_tree)
        S.eq('inv: begins empty', env.get('result'), [])

    def contracts():
        S.contract(E + 'FormElement.encode', encode)
        S.contract(P + '.encode', encode)

    def after_one(env):
        S.check('inv: an element without data is refused', not missing)
        S.eq('inv: it is built by its class from the data under its key', calls, [['Panel' if t == 'Panel' else 'FormElement', True, page_id if auto else here, True, data]])
        S.eq('inv: it is added', env.get('result'), sofar + [built])
        S.eq('inv: its number is known by its key', p.elements_index, {K(key): num})
    S.contract(P + '.anchored_elem_name_to_elem_id', lambda vm, self, *a: ties.append(list(a)))
    p.elements_tree = S.rest('tree')
    if not auto:
        L = interp.Loop(S, at_entry=lambda env, it=None: (entry(env, it), contracts()), keep={'result': (None, lambda: list(sofar), None)}, element=lambda: node, after=after_one,
                        leave=lambda env: env.set('result', records))
        S.loops(P + '.encode_elements', None, None, L)
    else:
        some = S.pick('on the page', ['some', 'none'])
        on_page = S.rest('elements of the page', min=1) if some == 'some' else []
        page_node = {'name': page, 'type': 'Page', 'child': on_page}

        def outer_after(env):
            S.eq('inv: the records of a page come after those before', env.get('result'), sofar + page_records if some == 'some' else sofar)
        page_records = S.rest('records of the page')
        outer = interp.Loop(S, at_entry=entry, keep={'result': (None, lambda: list(sofar), None)}, element=lambda: (S.opaque('number of the page'), page_node) if isinstance(outer.it, models.Enumerated) else page_node, after=outer_after, leave=lambda env: env.set('result', records))
        inner = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: every element of the page in turn', it, on_page), S.eq('inv: after those before', env.get('result'), sofar), contracts()),
                            keep={'result': (None, lambda: list(sofar), None)}, element=lambda: node, after=after_one, leave=lambda env: env.set('result', sofar + page_records))
        S.loops(P + '.encode_elements', outer, inner)
    raw = [MARK]
    r, err = S.attempt(P + '.encode_elements', p, path, raw)
    if err is not None:
        S.check('inv: only an element without data is refused', missing and calls == [])
        return
    S.eq('inv: their number and they', raw, [S.decimal(n)] + records)
    if auto:
        S.eq('inv: what they are tied to gets its numbers', ties, [[records, path]])


def page_list(S):
    """the pages of a panel, one of them looked at"""
    i, n = S.int('page', 0), S.int('pages', 1)
    S.assume(i < n)
    return i, n


@theorem('the pages of a panel are taken with their names, in their order, each with its records and the information on it', **I, functions=[P + '.decode_pages', P + '.pages_offset', 'helper:calc_offset', 'helper:str_decode'])
def pages_out(S):
    auto = S.flag('areas are shared')
    path = S.pick('in', ['', S.text('path', no='"', min=1)])
    v = S.pick('version', ['27', '26'])
    i, n = page_list(S)
    name = S.text('page name', no='/"', min=1)
    page = [S.opaque('format')] + [S.opaque('p') for _ in range(5)] + ['"' + name + '"'] + S.rest('more')
    page0 = S.copy(page)
    records = ['1', S.decimal(n)] + run_of(S, 'pages before', i) + [page] + run_of(S, 'pages behind', n - i - 1) + S.rest('after the pages')
    after = records[-1:]
    L = Raw(S).other(2)
    for b in range(6):
        L.counted(f'border {b}')
    kept = L.x[10:]
    L.other(3).put(records).other(3)
    first = S.flag('first page')
    S.assume(i == 0 if first else i > 0)
    extra = S.int('more information', 0)
    if first:
        info = run_of(S, 'information', 4 + extra)
        infos = info + run_of(S, 'information behind', 4 * (n - 1))
    else:
        info = run_of(S, 'information', 4)
        infos = run_of(S, 'information before', 4 * i + extra) + info + run_of(S, 'information behind', 4 * (n - i - 1))
    at = len(L.x)
    L.put(S.decimal(4 * n + extra), *infos).tail()
    raw, was = L.x, S.copy(L.x)
    keep = S.opaque('other')
    before = S.opaque('a node before')
    p = panel(S, v, auto_include=auto)
    key = joined(path, name)
    names_so_far, names = run_of(S, 'names so far', i), run_of(S, 'names before', i) + [name] + run_of(S, 'names behind', n - i - 1)
    nodes_so_far, nodes = run_of(S, 'nodes so far', i), S.rest('nodes')

    def entry(env, it=None):
        S.eq('inv: begins empty', [p.pages, p.elements_tree, p.elements_data], [[], [], {}])

    def arbitrary(env):
        p.pages = list(names_so_far)
        p.elements_tree = list(nodes_so_far) if auto else []
        p.elements_data = {OTHER: keep}
        p._elements_tree_index = {OTHER: 0}

    def after_one(env):
        S.eq('inv: its name', p.pages, names_so_far + [name])
        d = p.elements_data.get(next((k for k in p.elements_data if k != OTHER), None))
        S.eq('inv: its record, under its name', p.elements_data, {OTHER: keep, K(key): d})
        S.eq('inv: whole', d['raw'], page0)
        if auto:
            S.eq('inv: its node', p.elements_tree, nodes_so_far + [{'name': name, 'type': 'Page', 'child': []}])
            S.eq('inv: is known by its name', p._elements_tree_index, {OTHER: 0, K(key): i})
        else:
            S.eq('inv: pages are no nodes', p.elements_tree, [])
        S.eq('inv: the list stays as it is meanwhile', raw, was)

    data = {'raw': page0, 'ver': 27}

    def leave(env):
        p.pages = list(names)
        p.elements_tree = nodes if auto else []
        p.elements_data = {OTHER: keep, K(key): data}
    S.loops(P + '.decode_pages', interp.Loop(S, at_entry=entry, before=arbitrary, element=lambda: i, after=after_one, leave=leave))

    def info_entry(env, it=None):
        S.eq('inv: the pages are known by now', p.pages, names)

    def info_after(env):
        S.eq('inv: the information on it', data.get('info'), info)

    def info_leave(env):
        S.eq('inv: the list of names', p.elements_data.get(next((k for k in p.elements_data if k != OTHER and not S.truth(models.unkey(k) == key)), None)), names)
        S.eq('inv: under its key', p.elements_data, {OTHER: keep, K(key): data, K(joined(path, '-pages-')): names})
    S.assume(S.truth(name != '-pages-'))
    S.loop(P + '.decode_pages.decode_info', interp.Loop(S, at_entry=info_entry, element=lambda: i, after=info_after, leave=info_leave))
    r, err = S.attempt(P + '.decode_pages', p, path, raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: what follows the pages stays', records, ['1'] + after)
    rest = [x for x in was[at + 1 + len(infos):]]
    if auto:
        S.eq('inv: only the pages, their information and the tables of ties are taken', [raw[:2], raw[2:6], raw[6:-len(rest) - 1], raw[-len(rest):]],
             [was[:2], ['0'] * 4, kept + was[14:17] + [records] + was[18:21], rest])
    else:
        S.eq('inv: only the pages and their information are taken', [raw[:14 + 3], raw[18:21], raw[-len(rest):]], [was[:14 + 3], was[18:21], rest])
    S.eq('inv: nothing else', len(raw), (23 - 4 if auto else 23) + 0 * len(rest))


@theorem('the pages of a panel are put back in their order behind their number, and the information on them in the same order', **I, functions=[P + '.encode_pages', P + '.pages_offset', 'helper:calc_offset'])
def pages_back(S):
    auto = S.flag('areas are shared')
    pre = S.pick('in', ['', S.text('path', no=('"', 'includ'), min=1)])
    kind = S.pick('panel', ['', 'include_', 'includr_', 'includrx']) if pre != '' else ''
    path, here = kind + pre, ('include_' if kind == 'includr_' else kind) + pre
    n = S.int('pages', 1)
    name = S.text('page name', no='/"', min=1)
    page, info = S.opaque('page'), S.rest('information')
    keep = S.opaque('other')
    L = Raw(S).other(2)
    for b in range(6):
        if auto and b < 4:
            L.put('0')
        else:
            L.counted(f'border {b}')
    L.other(3)
    after = S.rest('after the pages')
    at = len(L.x)
    L.put(['1'] + after).other(3).put('в отдельном файле').tail()
    raw = L.x
    was = S.copy(raw)
    names = run_of(S, 'names', n)
    tree = run_of(S, 'nodes', n)
    key = joined(here, name)
    missing = S.flag('without data')
    has_info = S.flag('information')
    data = {OTHER: keep, K(joined(here, '-pages-')): names}
    S.assume(S.truth(name != '-pages-'))
    if not missing:
        data[K(key)] = {'raw': page, 'info': info} if has_info else {'raw': page}
    p = panel(S, auto_include=auto, elements_data=data, elements_tree=tree if auto else [])
    sofar, info_sofar = S.rest('pages so far'), S.rest('information so far')
    all_, infos = run_of(S, 'all pages', n), S.rest('all information')
    held = []

    def entry(env, it=None):
        S.eq('inv: every page in turn', it, tree if auto else names)
        S.eq('inv: their number', env.get('pages'), [S.decimal(n)])
        S.eq('inv: begins empty', env.get('pages_info'), [])
        held.append(env.get('pages'))

    def arbitrary(env):
        held[0][:] = [S.decimal(n)] + sofar

    def after_one(env):
        S.check('inv: a page without data is refused', not missing)
        S.eq('inv: its record', env.get('pages'), [S.decimal(n)] + sofar + [page])
        S.eq('inv: the information on it', env.get('pages_info'), info_sofar + (info if has_info else []))

    def leave(env):
        held[0][:] = [S.decimal(n)] + all_
        env.set('pages', held[0])
        env.set('pages_info', list(infos))
    L2 = lambda: interp.Loop(S, at_entry=entry, before=arbitrary, keep={'pages_info': (None, lambda: list(info_sofar), None), 'pages': (None, lambda: held[0], None)},
                             element=lambda: {'name': name, 'type': 'Page', 'child': []} if auto else name, after=after_one, leave=leave)
    S.loop(P + '.encode_pages', L2())
    r, err = S.attempt(P + '.encode_pages', p, path, raw)
    if err is not None:
        S.check('inv: only a page without data is refused', missing)
        return
    S.eq('inv: they are back, everything else is as it was', r, was[:at] + [['1', S.decimal(n)] + all_ + after] + was[at + 1:at + 4] + [S.decimal(S.len(infos))] + infos + was[at + 5:])


def rebound(cls, name, sub):
    """FormElement's own method, of this class"""
    return getattr(cls_of(cls), name).__func__.__get__(sub, type(sub))


@theorem('a panel is taken as an element, then its pages, then its elements, under its own path, an area as if it were inside the form; the panel of the form itself has no path', **I, functions=[P + '.decode'])
def panel_out(S):
    auto = S.flag('areas are shared')
    top = S.flag('panel of the form')
    v = S.pick('version', ['27', '26'])
    C = cls_of(P if v == '27' else P.replace('27', '26'))
    keep = S.opaque('other')
    form = panel(S, v, auto_include=auto, elements_data={OTHER: keep}, form=S.obj(cls_of(F27), props_index=S.opaque('properties', dict)))
    path = S.pick('in', ['', S.text('path', no=('"', 'includ'), min=1)]) if not top else ''
    kind, rest, name, inside = area_name(S)
    pages, elements = S.opaque('pages'), S.rest('elements')
    tree, data = S.rest('tree'), S.opaque('data of an element')
    node = {'name': name, 'type': 'Panel'}
    raw = [S.opaque('type'), [S.opaque('v'), pages] + S.rest('more'), elements] if top else \
        [S.opaque('type'), S.text('id', no='"', min=1), [S.opaque('v'), pages] + S.rest('more')] + S.rest('values') + [S.opaque('placement'), S.opaque('name'), elements]
    was = S.copy(raw)
    log = []

    def element(vm, cls, f, where, x):
        log.append('element')
        S.check('inv: the panel itself, in its form', f is form and x is raw and cls is C)
        S.eq('inv: under the path it lies in', where, path)
        return node, None, joined(path, name)

    def decode_pages(vm, self, where, x):
        log.append('pages')
        S.check('inv: of the same kind', type(self) is C and self.auto_include == auto)
        S.eq('inv: its pages', [where, x], ['' if top else joined(path, inside), pages])

    def decode_elements(vm, self, where, x):
        log.append('elements')
        S.check('inv: its elements', x is elements)
        S.eq('inv: under its path', where, '' if top else joined(path, inside))
        S.check('inv: they find the properties of the form', top or self.form.props_index is form.form.props_index)
        self.elements_tree = tree
        self.elements_data[K('x' if top else joined(path, inside, 'x'))] = data
    S.contract(E + 'FormElement.decode', element)
    S.contract(P + '.decode_pages', decode_pages)
    S.contract(P + '.decode_elements', decode_elements)
    r, err = S.attempt(P + '.decode' if v == '27' else rebound_panel(C, 'decode'), form, path, raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: in this order', log, ['pages', 'elements'] if top else ['element', 'pages', 'elements'])
    S.check('inv: the list itself stays as it was', len(raw) == len(was))
    if top:
        S.eq('inv: the tree and the data of the form', [r[0] is tree, r[1]], [True, {K('x'): data}])
    else:
        S.eq('inv: its elements are its children', node, {'name': name, 'type': 'Panel', 'child': tree})
        S.eq('inv: their data lies in that of the form', form.elements_data, {OTHER: keep, K(joined(path, inside, 'x')): data})
        S.eq('inv: its key', r[2], joined(path, name))


def rebound_panel(C, name):
    return getattr(C, name)


@theorem('a panel is built as an element, its pages and elements put back into it from under its path; numbers of elements and properties go on from there', **I, functions=[P + '.encode', P + '.encode_anchor_index'])
def panel_back(S):
    auto = S.flag('areas are shared')
    top = S.flag('panel of the form')
    v = S.pick('version', ['27', '26'])
    C = cls_of(P if v == '27' else P.replace('27', '26'))
    props = S.opaque('properties', dict)
    sources, mine = S.rest('sources'), S.rest('sources of the panel')
    data, tree, sub = {OTHER: S.opaque('data')}, S.rest('tree of the form'), S.rest('children')
    first, last, after = S.int('last number', 1), S.int('number of the panel', 2), S.int('number of its last element', 2)
    form = panel(S, v, auto_include=auto, elements_data=data, elements_tree=tree, props_index=props, field_data_source=list(sources), last_elem_id=first)
    path = S.pick('in', ['', S.text('path', no='"', min=1)]) if not top else ''
    name, page = S.text('name', no='"/', min=1), S.pick('page', [None, S.text('page', no='"/', min=1)])
    node = {'name': name, 'type': 'Panel', 'child': sub}
    if not auto:
        node['page'] = page
    pages0, elements = S.opaque('pages left'), [S.opaque('mark')]
    heads = [S.opaque('v') for _ in range(2)]
    zero = ['0', '0', '0', '0']
    rest = S.rest('pages')
    pages1 = heads + zero + rest
    borders = [S.rest(f'tied to border {b}', min=1) if S.flag(f'tied to border {b} at all') else [] for b in range(4)]
    more, values = S.rest('more'), S.rest('values')
    t, ident, placement, nm, o = S.opaque('type'), S.text('id', no='"', min=1), S.opaque('placement'), S.opaque('name'), S.opaque('v')
    raw = [t, [o, pages0] + more, elements] if top else [t, ident, [o, pages0] + more] + values + [placement, nm, elements]
    made = S.opaque('built elements')
    num = S.opaque('its number')
    here = '' if top else joined(path, name) if auto else joined(path, page, name)
    log = []

    def element(vm, cls, f, where, n, d):
        log.append('element')
        S.check('inv: the panel itself', f is form and n is node and d['raw'] is raw and cls is C)
        f.last_elem_id = last
        f.field_data_source.append('its own')
        return num, raw

    def encode_pages(vm, self, where, x):
        log.append('pages')
        S.eq('inv: its pages, under its path', [where, x], [here, pages0])
        S.check('inv: of the same kind, with its own elements', type(self) is C and self.elements_data is data and self.elements_tree is (tree if top else sub) and self.auto_include == auto)
        return pages1

    def encode_elements(vm, self, where, x):
        log.append('elements')
        S.eq('inv: its elements, under its path', where, here)
        S.check('inv: into its own list', x is elements and self.props_index is props and self.elements_tree is (tree if top else sub) and self.elements_data is data)
        S.eq('inv: numbered after it', self.last_elem_id, last if not top else 1)
        x[0] = made
        self.last_elem_id = after
        self.field_data_source += mine
        self.anchor_index = borders
    S.contract(E + 'FormElement.encode', element)
    S.contract(P + '.encode_pages', encode_pages)
    S.contract(P + '.encode_elements', encode_elements)
    r, err = S.attempt(getattr(C, 'encode'), form, path, node if not top else None, {'raw': raw})
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: each once', sorted(log), ['elements', 'pages'] if top else ['element', 'elements', 'pages'])
    table = []
    for b in borders:
        table += [S.decimal(S.len(b))] + b
    built = heads + table + rest if auto else pages1
    S.eq('inv: everything is in its place', r[1], [t, [o, built] + more, [made]] if top else [t, ident, [o, built] + more] + values + [placement, nm, [made]])
    if not top:
        S.eq('inv: its number', r[0], num)
        S.eq('inv: the next number is free', form.last_elem_id, after)
    S.eq('inv: its properties and those of its elements', form.field_data_source, sources + ([] if top else ['its own']) + mine)


@theorem('properties of a form are taken one by one with their names and ids, leave a mark, and are put back in their order', **I, functions=[E + 'FormProps.' + n for n in ('decode_list', 'decode', 'encode_list', 'encode')])
def props(S):
    v = S.pick('version', ['27', '26'])
    C = cls_of(E + 'FormProps' if v == '27' else E.replace('27', '26') + 'FormProps')
    some = S.flag('properties')
    name, ident = S.text('name', no='"', min=1), S.text('id', no='"', min=1)
    n, i = S.int('properties', 1), S.int('i', 0)
    S.assume(i < n)
    rec = [[ident] + S.rest('rest of the id')] + [S.opaque('v') for _ in range(3 if v == '27' else 2)] + ['"' + name + '"'] + S.rest('values')
    left, right, after = run_of(S, 'before', i), run_of(S, 'behind', n - i - 1), S.rest('after')
    raw = [S.decimal(n)] + left + [rec] + right + after if some else ['0'] + after
    was = S.copy(raw)
    one = {'name': name, 'id': ident, 'raw': S.copy(rec)}
    sofar, all_ = run_of(S, 'so far', i), run_of(S, 'all', n)
    form = S.obj(cls_of(FC))

    def after_one(env):
        S.eq('inv: it is taken with its name and id', env.get('result'), sofar + [one])
        S.eq('inv: the list stays as it is meanwhile', raw, was)
    S.loop(E + 'FormProps.decode_list', interp.Loop(S, at_entry=lambda env, it=None: S.eq('inv: begins empty', env.get('result'), []), keep={'result': (None, lambda: list(sofar), None)}, element=lambda: i,
                                                    after=after_one, leave=lambda env: env.set('result', all_)))
    r, err = S.attempt(C.decode_list, form, raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: all of them', r, all_ if some else None)
    S.eq('inv: they leave a mark', raw, [MARK] + after if some else was)
    form.props = r
    bsofar = S.rest('records so far')

    def bentry(env, it=None):
        S.eq('inv: every one in turn', it, all_)
        S.eq('inv: begins empty', env.get('result'), [])
    S.loop(E + 'FormProps.encode_list', interp.Loop(S, at_entry=bentry, keep={'result': (None, lambda: list(bsofar), None)}, element=lambda: one,
                                                    after=lambda env: S.eq('inv: its record', env.get('result'), bsofar + [rec]), leave=lambda env: env.set('result', left + [rec] + right)))
    r, err = S.attempt(C.encode_list, form, raw)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: the list comes back as it was', raw, was)
    if not some:
        return
    raw2 = [MARK] + after
    form.props = S.pick('all removed', [[], None])
    r, err = S.attempt(C.encode_list, form, raw2)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: with all removed, none', raw2, ['0'] + after)


@theorem('an ordinary form is taken apart into properties and elements, those with a property knowing it by name; building puts both back', **I,
         functions=[F27 + '.decode', F27 + '.decode_elements', F27 + '.encode'])
def whole_form(S):
    auto = S.pick('options', [None, {}, {'auto_include': True}, {'auto_include': False}])
    v = S.pick('version', ['27', '26'])
    C = cls_of(F27 if v == '27' else F27.replace('27', '26'))
    shared = bool(auto and auto.get('auto_include'))
    core = S.obj(cls_of(FC), options=auto, props=[], elements_tree=[], elements_data={}, header={'name': 'Ф'})
    f = C(core)
    known = S.flag('a panel')
    root = [types().Panel.value if known else S.text('type', no='"', isnt=(types().Panel.value,)), S.opaque('root')]
    proplist, sources = S.rest('list of properties'), S.rest('sources')
    raw = [v, [S.opaque('v'), S.opaque('v'), root] + S.rest('m'), [S.opaque('v'), S.opaque('v'), proplist, sources] + S.rest('k')] + S.rest('parts')
    was = S.copy(raw)
    props, tree, data = S.pick('properties', [S.rest('properties', min=1), None]), S.rest('tree'), {OTHER: S.opaque('data')}
    log = []

    def props_out(vm, cls, form, x, *a):
        log.append('props')
        S.check('inv: its properties', x is proplist and form is core and cls is C.FormProps)
        return props

    def index(vm, self, x):
        log.append('index')
        S.check('inv: which elements have them, the properties being known', x is sources and core.props is props)

    def panel_out(vm, cls, form, path, x):
        log.append('panel')
        S.check('inv: its panel', form is f and x is root and cls is C.Panel)
        S.eq('inv: no path', path, '')
        return tree, data, None
    S.contract(E + 'FormProps.decode_list', props_out)
    S.contract(F27 + '.create_prop_index_by_elem_id', index)
    S.contract(P + '.decode', panel_out)
    r, err = S.attempt(F27 + '.decode', f, S.path('a'), S.path('b'), 'c', raw)
    if err is not None:
        S.check('inv: only a form without a panel is refused', not known)
        return
    S.eq('inv: properties and the elements that have them before the panel', log, ['props', 'index', 'panel'])
    S.check('inv: each is kept under its name', core.props is props and core.elements_tree is tree and core.elements_data is data)
    S.eq('inv: auto_include is told', f.auto_include is True, shared)
    B = S.obj(cls_of(FC), options=auto, props=[], elements_tree=[], elements_data={}, header={'name': 'Ф'})
    b = C(B)
    src, name = S.path('w', 'src'), S.text('name', no='/"', min=1)
    got = S.rest('elements with a property')
    log2 = []

    def json_read(vm, path, file):
        S.eq('inv: the file of its elements', [path, file], [src, name + '.elem.json'])
        return {'props': props, 'tree': tree, 'data': data, 'params': [], 'commands': []}

    def props_back(vm, cls, form, x, *a):
        S.check('inv: its properties', x is proplist and form is B and B.props is props)
        log2.append('props')

    def panel_back(vm, cls, form, path, node, d):
        S.check('inv: its panel', form is b and d['raw'] is root and B.elements_tree is tree and B.elements_data is data and 'names' in log2)
        S.eq('inv: no path', path, '')
        form.field_data_source += got
        log2.append('panel')
        return None, root
    S.contract('helper:json_read', json_read)
    S.contract(E + 'FormProps.encode_list', props_back)
    S.contract(P + '.encode', panel_back)
    S.contract(F27 + '.create_prop_index_by_name', lambda vm, self: log2.append('names'))
    filled = S.rest('table of sources')

    def fill(vm, self, x):
        S.eq('inv: the table is made anew from what the elements say', [x, self.field_data_source], [[], got])
        x += filled
        log2.append('table')
    S.contract(F27 + '.fill_datasource', fill)
    r, err = S.attempt(F27 + '.encode', b, src, name, None, raw)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: each once', sorted(log2), sorted(['props', 'names', 'panel'] + (['table'] if shared else [])))
    S.eq('inv: the rest is as it was', raw, was[:2] + [was[2][:3] + [filled] + was[2][4:]] + was[3:] if shared else was)


@theorem('the tables of properties: by the number of the element that has it, by name, and back into the list of elements with properties', **I,
         functions=[F27 + '.create_prop_index_by_elem_id', F27 + '.create_prop_index_by_name', F27 + '.fill_datasource'])
def tables(S):
    what = S.pick('table', ['by element', 'by name', 'back'])
    keep = S.opaque('other')
    core = S.obj(cls_of(FC), options=None, props=S.pick('props', [None, [], S.rest('properties', min=1)]))
    f = cls_of(F27)(core)
    name, pid, eid = S.text('name', no='"', min=1), S.text('property id', no='"', min=1), S.text('element id', no='"', min=1)
    one = {'name': name, 'id': pid, 'raw': S.opaque('record')}
    if what == 'by name':
        def entry(env, it=None):
            S.eq('inv: every one in turn', it, core.props)
            S.eq('inv: begins empty', f.props_index, {})
            f.props_index[OTHER] = keep
        S.loop(F27 + '.create_prop_index_by_name', interp.Loop(S, at_entry=entry, element=lambda: one, after=lambda env: S.eq('inv: its id by its name', f.props_index, {OTHER: keep, K(name): pid})))
        r, err = S.attempt(F27 + '.create_prop_index_by_name', f)
        S.check('inv: no error', err is None)
        return
    if what == 'back':
        f.field_data_source = S.rest('elements with properties')
        raw = []
        sofar, all_ = S.rest('records so far'), S.rest('all records')
        num = S.decimal(f.field_data_source[0].length)

        def entry(env, it=None):
            S.eq('inv: every one in turn', it, f.field_data_source)
            S.eq('inv: their number', raw, [num])
            raw[:] = [num] + sofar

        def leave(env):
            raw[:] = [num] + all_
        S.loop(F27 + '.fill_datasource', interp.Loop(S, at_entry=entry, element=lambda: (eid, pid), after=lambda env: S.eq('inv: its property', raw, [num] + sofar + [[eid, ['1', [pid]]]]), leave=leave))
        r, err = S.attempt(F27 + '.fill_datasource', f, raw)
        S.check('inv: no error', err is None)
        S.eq('inv: all of them', raw, [num] + all_)
        return
    n, i = S.int('records', 0), S.int('i', 0)
    if S.flag('records'):
        S.assume(i < n)
        rec = [eid, ['1', [pid]]]
        raw = [S.decimal(n)] + run_of(S, 'before', i) + [rec] + run_of(S, 'behind', n - i - 1)
    else:
        raw = ['0']
    was = S.copy(raw)
    known = S.flag('property is known')
    table = {OTHER: keep, K(pid): one} if known else {OTHER: keep}

    def entry1(env, it=None):
        S.eq('inv: every property in turn', it, core.props)
        S.eq('inv: begins empty', env.get('_props'), {})

    def entry2(env, it=None):
        S.eq('inv: begins empty', f.props_index, {})
        f.props_index[OTHER] = keep

    def after2(env):
        d = f.props_index.get(next((k for k in f.props_index if k != OTHER), None))
        S.eq('inv: the name of its property', f.props_index, {OTHER: keep, K(eid): d} if known else {OTHER: keep})
        if known:
            S.eq('inv: by its id', d['name'], name)
    S.loops(F27 + '.create_prop_index_by_elem_id',
          interp.Loop(S, at_entry=entry1, keep={'_props': (None, lambda: {OTHER: keep}, None)}, element=lambda: one, after=lambda env: S.eq('inv: it by its id', env.get('_props'), {OTHER: keep, K(pid): one}),
                      leave=lambda env: env.set('_props', dict(table))),
          interp.Loop(S, at_entry=entry2, element=lambda: i, after=after2))
    r, err = S.attempt(F27 + '.create_prop_index_by_elem_id', f, raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: the list stays as it was', raw, was)


def place(S, heads, anchors, borders, tail):
    """where an element lies: what its six sides are tied to, and what is tied to it, by four borders"""
    out = list(heads) + list(anchors)
    for b in borders:
        out += b
    return out + tail


TIED = ['-1', '0', 'known', 'unknown']


def near(S, path, n):
    """an element under a path: its key, and its name told from there"""
    short = S.text(n, no='"', min=1) + '/' + S.text(n + ' itself', no='"/', min=1)
    return (path + '/' + short, '/' + short) if not (isinstance(path, str) and path == '') else (short, short)


def ties_out(S, what):
    k, t, a = (S.pick('side', list(range(6))), S.pick('which', [1, 2]), S.pick('tied to', TIED)) if what == 'a side' else (0, 1, '0')
    q, c = (S.pick('border', list(range(4))), S.pick('record', TIED)) if what == 'a border' else (0, '0')
    some = S.flag('records') if what == 'a border' else False
    path = S.pick('in', ['', S.text('path', no='"', min=1)]) if a in ('known', 'unknown') or c in ('known', 'unknown') else ''
    key, short = near(S, path, 'other')
    own_key, own = near(S, path, 'own')
    ident, alien = S.decimal(S.int('its number', 1)), S.decimal(S.int('number of none', 1))
    if 'unknown' in (a, c):
        S.assume(S.truth(ident != alien))
    ids = {'-1': '-1', '0': '0', 'known': ident, 'unknown': alien}
    names = {'-1': '-1', '0': '0', 'known': short, 'unknown': own}
    way, x, y, z = (S.opaque(c) for c in 'way x y z'.split())
    more = S.rest('more')
    one, told = [way, z, z], [way, z, z]
    one[t], told[t] = [x, ids[a], y] + more, [x, names[a], y] + more
    heads, tail = [S.opaque('head') for _ in range(6)], S.rest('tail')
    sides = [S.opaque(f'side {j}') for j in range(6)]
    sides[k] = one
    n, i = S.int('records of the border', 1), S.int('record looked at', 0)
    S.assume(i < n)
    rec = [S.opaque('r'), ids[c], S.opaque('s')] + S.rest('of the record')
    left, right = run_of(S, 'records before', i), run_of(S, 'records behind', n - i - 1)
    borders, at = [], []
    for j in range(4):
        if j == q:
            borders.append([S.decimal(n)] + left + [rec] + right if some else ['0'])
        else:
            m = S.int(f'records of border {j}', 0)
            borders.append([S.decimal(m)] + run_of(S, f'records of border {j}', m))
    raw = place(S, heads, sides, borders, tail)
    pos = [12]
    for j in range(4):
        pos.append(pos[-1] + S.len(borders[j]))
    was = list(raw)
    p = panel(S, elements_index={OTHER: S.opaque('key'), K(ident): key})

    def after1(env):
        S.eq('inv: nothing else is touched', raw, was)
        S.eq('inv: the side is told by name', one, told)
    slots = interp.Loop(S, at_entry=lambda env, it=None: S.eq('inv: both places of a side', list(it), [1, 2]), element=lambda: t, after=after1, leave=lambda env: S.end() if a != '-1' else None)
    first = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: six sides', list(it), list(range(6))), S.eq('inv: behind the heads', env.get('offset'), 6)),
                        keep={'offset': (None, lambda: 6 + k, None)}, element=lambda: k if what == 'a side' else S.end(), after=lambda env: S.eq('inv: the next side', env.get('offset'), 7 + k), leave=lambda env: env.set('offset', 12) if what == 'a border' else S.end())
    second = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: four borders', list(it), list(range(4))), S.eq('inv: behind the sides', env.get('offset'), 12)),
                         keep={'offset': (None, lambda: pos[q], None)}, element=lambda: q, after=lambda env: S.eq('inv: the next border', env.get('offset'), pos[q + 1]), leave=lambda env: S.end() if q or some else None)

    def after3(env):
        S.eq('inv: nothing else is touched', raw, was)
        S.eq('inv: the record is told by name, if known', rec[1], {'unknown': alien}.get(c, names[c]))
        S.eq('inv: the record behind', env.get('offset'), pos[q] + i + 1)
    third = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: every record', S.len(it), n if some else 0), S.eq('inv: from the number on', env.get('offset'), pos[q])),
                        keep={'offset': (None, lambda: pos[q] + i, None)}, element=lambda: i if some else S.end(), after=after3, leave=lambda env: env.set('offset', pos[q + 1] - 1) if c == '-1' or not some else S.end())

    S.loops(P + '.anchored_elem_id_to_elem_name', first, slots, second, third)
    r, err = S.attempt(P + '.anchored_elem_id_to_elem_name', p, raw, path, own_key)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: nothing else is touched', raw, was)


def ties_back(S, what):
    KINDS = ['-1', '0', 'known', 'unknown', 'number']
    k, t, a = (S.pick('side', list(range(6))), S.pick('which', [1, 2]), S.pick('tied to', KINDS)) if what == 'a side' else (0, 1, '0')
    by = S.pick('by', ['0', '1', '2', '3', '4', '5']) if a == '0' and what == 'a side' else '0'
    q, c = (S.pick('border', list(range(4))), S.pick('record', KINDS)) if what == 'a border' else (0, '0')
    some = S.flag('records') if what == 'a border' else False
    pre = S.pick('in', ['', S.text('path', no=('"', 'includ'), min=1)]) if a in ('known', 'unknown') or c in ('known', 'unknown') else ''
    kind = S.pick('panel', ['', 'include_', 'includr_', 'includrx']) if pre != '' else ''
    path, here = kind + pre, ('include_' if kind == 'includr_' else kind) + pre
    key, short = near(S, here, 'other')
    none_key, none = near(S, here, 'none')
    if 'unknown' in (a, c):
        S.assume(S.truth(short != none))
    ident = S.decimal(S.int('its number', 1))
    names = {'-1': '-1', '0': '0', 'known': short, 'unknown': none, 'number': S.decimal(S.int('some number', 1))}
    ids = {'-1': '-1', '0': '0', 'known': ident, 'number': names['number']}
    way, x, z = (S.opaque(c) for c in 'way x z'.split())
    more = S.rest('more')
    one, told = [way, z, z], [way, z, z]
    one[t], told[t] = [x, names[a], by] + more, [x, ids.get(a), by] + more
    heads, tail = [S.opaque('head') for _ in range(6)], S.rest('tail')
    sides = [S.opaque(f'side {j}') for j in range(6)]
    sides[k] = one
    n, i = S.int('records of the border', 1), S.int('record looked at', 0)
    S.assume(i < n)
    rec = [S.opaque('r'), names[c], S.opaque('s')] + S.rest('of the record')
    left, right = run_of(S, 'records before', i), run_of(S, 'records behind', n - i - 1)
    borders = []
    for j in range(4):
        if j == q:
            borders.append([S.decimal(n)] + left + [rec] + right if some else ['0'])
        else:
            m = S.int(f'records of border {j}', 0)
            borders.append([S.decimal(m)] + run_of(S, f'records of border {j}', m))
    raw = place(S, heads, sides, borders, tail)
    pos = [12]
    for j in range(4):
        pos.append(pos[-1] + S.len(borders[j]))
    was = list(raw)
    own = S.opaque('own number')
    elem = [S.opaque('type'), own] + S.rest('values') + [raw, S.opaque('name'), S.opaque('last')]
    table = [S.rest(f'tied to border {j}') for j in range(4)]
    p = panel(S, elements_index={OTHER: S.opaque('number'), K(key): ident}, anchor_index=[[], [], [], []])
    result = S.rest('elements')

    def after1(env):
        S.eq('inv: nothing else is touched', raw, was)
        S.check('inv: a name of nothing is refused', a != 'unknown')
        S.eq('inv: the side is told by number', one, told)
        want = [list(t) for t in table]
        if a == '0':
            want[int(by) if int(by) < 4 else 1].append([way, own, str(k if k < 4 else 1)])
        S.eq('inv: what is tied to the panel is in its table', p.anchor_index, want)

    def enter(env, it=None):
        S.eq('inv: every element in turn', it, result)
        S.eq('inv: the table begins empty', p.anchor_index, [[], [], [], []])
        p.anchor_index = [list(t) for t in table]
    every = interp.Loop(S, at_entry=enter, element=lambda: elem, after=lambda env: None, leave=lambda env: S.end() if what == 'a side' or q or some else None)
    first = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: six sides', list(it), list(range(6))), S.eq('inv: behind the heads', env.get('offset'), 6)),
                        keep={'offset': (None, lambda: 6 + k, None)}, element=lambda: k if what == 'a side' else S.end(), after=lambda env: S.eq('inv: the next side', env.get('offset'), 7 + k), leave=lambda env: env.set('offset', 12) if what == 'a border' else S.end())
    slots = interp.Loop(S, at_entry=lambda env, it=None: S.eq('inv: both places of a side', list(it), [1, 2]), element=lambda: t, after=after1, leave=lambda env: S.end() if a != '-1' else None)
    second = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: four borders', list(it), list(range(4))), S.eq('inv: behind the sides', env.get('offset'), 12)),
                         keep={'offset': (None, lambda: pos[q], None)}, element=lambda: q, after=lambda env: S.eq('inv: the next border', env.get('offset'), pos[q + 1]), leave=lambda env: S.end() if q or some else None)

    def after3(env):
        S.eq('inv: nothing else is touched', raw, was)
        S.check('inv: a name of nothing is refused', c != 'unknown')
        S.eq('inv: the record is told by number', rec[1], ids[c])
        S.eq('inv: the record behind', env.get('offset'), pos[q] + i + 1)
    third = interp.Loop(S, at_entry=lambda env, it=None: (S.eq('inv: every record', S.len(it), n if some else 0), S.eq('inv: from the number on', env.get('offset'), pos[q])),
                        keep={'offset': (None, lambda: pos[q] + i, None)}, element=lambda: i if some else S.end(), after=after3, leave=lambda env: env.set('offset', pos[q + 1] - 1) if c == '-1' or not some else S.end())
    S.loops(P + '.anchored_elem_name_to_elem_id', every, first, slots, second, third)
    r, err = S.attempt(P + '.anchored_elem_name_to_elem_id', p, result, path)
    S.check('inv: only a name of nothing is refused', err is None or 'unknown' in (a, c), repr(err))


@theorem('what an element is tied to, and what is tied to it, is told by the name under the panel instead of the number; what is tied to nothing, or to the panel, stays so (sides)', **I, functions=[P + '.anchored_elem_id_to_elem_name'])
def ties_out_sides(S):
    ties_out(S, 'a side')


@theorem('what an element is tied to, and what is tied to it, is told by the name under the panel instead of the number; what is tied to nothing, or to the panel, stays so (borders)', **I, functions=[P + '.anchored_elem_id_to_elem_name'])
def ties_out_borders(S):
    ties_out(S, 'a border')


@theorem('what an element is tied to by name gets the number of that name under the panel; what is tied to the panel is noted in its table by border, with the way and the number; a name of nothing is refused (sides)', **I, functions=[P + '.anchored_elem_name_to_elem_id'])
def ties_back_sides(S):
    ties_back(S, 'a side')


@theorem('what an element is tied to by name gets the number of that name under the panel; what is tied to the panel is noted in its table by border, with the way and the number; a name of nothing is refused (borders)', **I, functions=[P + '.anchored_elem_name_to_elem_id'])
def ties_back_borders(S):
    ties_back(S, 'a border')


def ordinary_shape(S):
    """a panel of a few pages and elements: (pages, [(type, kind of name, page, panel inside or None, tied to)]), elements by page"""
    return S.pick('shape', [
        (1, []),
        (1, [('Field', '', 0, None, None), ('Dendrogram', 'include_', 0, None, 0)]),
        (2, [('Field', '', 0, None, 'panel'), ('Field', '', 1, None, None)]),
        (1, [('Panel', '', 0, (1, [('Field', '', 0, None, 'panel')]), None), ('Field', '', 0, None, 0)]),
        (1, [('Panel', 'include_', 0, (2, [('Field', '', 0, None, None), ('Field', '', 1, None, None)]), None)]),
        (1, [('Panel', 'includr_', 0, (1, [('Field', '', 0, None, None), ('Field', '', 0, None, 0)]), 'panel')])])


@theorem('a whole ordinary form comes back as it was, its elements numbered anew where areas are shared, and its tree shows every element where it stands', native=False,
         bounded='six shapes of up to three elements and two panels, one property; names and values any',
         functions=[F27 + '.decode', F27 + '.encode', P + '.decode', P + '.encode', P + '.decode_pages', P + '.decode_elements', P + '.encode_pages', P + '.encode_elements', P + '.encode_element', P + '.encode_anchor_index',
                    P + '.anchored_elem_id_to_elem_name', P + '.anchored_elem_name_to_elem_id', E + 'FormElement.decode', E + 'FormElement.encode', E + 'FormProps.decode_list', E + 'FormProps.encode_list'])
def whole(S):
    auto = S.flag('areas are shared')
    C = cls_of(F27)
    used, numbers, news, ties = [], [], {}, []

    def fresh(what):
        n = S.text(what, no=('/', '"', 'includ', '-'), min=1)
        S.distinct(n, *used) if used else None
        used.append(n)
        return n
    pn, pid = fresh('property'), S.text('property id', no='"', min=1)
    has = S.flag('a property in use')

    def panel_of(shape, ident):
        """the two parts of a panel that its pages and elements are in, and what its tree shows"""
        count, elems = shape
        pages = [fresh('page') for _ in range(count)]
        made, nodes, mine, table = [], [], [], [[], [], [], []]
        for t, k, at, sub, tie in elems:
            name = k + fresh('element')
            num = S.decimal(100 + len(numbers))
            numbers.append(num)
            news[num] = str(1 + len(numbers))
            mine.append(num)
            if has and not ties and t == 'Field':
                ties.append([num, ['1', [pid]]])
            sides = [[S.opaque('way'), [S.opaque('x'), '-1', S.opaque('y')], [S.opaque('x'), '-1', S.opaque('y')]] for _ in range(6)]
            if isinstance(tie, int):
                sides[2][1][1] = mine[tie]
            if tie == 'panel':
                sides[3][2][1:] = ['0', '2']
                table[2].append([sides[3][0], num, '3'])
            records = [['0'], ['1', [S.opaque('r'), mine[tie], S.opaque('s')]] if isinstance(tie, int) else ['0'], ['0'], ['0']]
            placement = place(S, [S.opaque('head') for _ in range(6)], sides, records, [str(at)] + [S.opaque('p') for _ in range(4)])
            node = {'name': name, 'type': t} if auto else {'name': name, 'type': t, 'page': pages[at]}
            raw = [types()[t].value, num]
            if sub:
                parts, node['child'] = panel_of(sub, num)
                raw += [parts[0]] + [S.opaque('v'), placement, [S.opaque('v'), '"' + name + '"'] + S.rest('n'), parts[1]]
            else:
                raw += S.rest('values') + [placement, [S.opaque('v'), '"' + name + '"'] + S.rest('n'), S.opaque('last')]
            made.append(raw)
            nodes.append((at, node))
        L = Raw(S).other(2)
        for b in range(6):
            L.put(str(len(table[b])), *table[b]) if b < 4 else L.put('0')
        L.other(3).put(['1', str(count)] + [[S.opaque('format')] + [S.opaque('p') for _ in range(5)] + ['"' + n + '"'] + S.rest('more') for n in pages]).other(3).put(str(4 * count)).other(4 * count).tail()
        tree = [{'name': n, 'type': 'Page', 'child': [x for a, x in nodes if a == j]} for j, n in enumerate(pages)] if auto else [x for _, x in nodes]
        return ([S.opaque('o'), L.x], [str(len(made))] + made), tree
    (head, elements), tree = panel_of(ordinary_shape(S), None)
    root = [types().Panel.value, head, elements]
    prop = [[pid] + S.rest('rest of the id')] + [S.opaque('v') for _ in range(3)] + ['"' + pn + '"'] + S.rest('values')
    raw = [S.opaque('v'), [S.opaque('v'), S.opaque('v'), root] + S.rest('m'), [S.opaque('v'), S.opaque('v'), ['1', prop], [str(len(ties))] + ties] + S.rest('k')] + S.rest('parts')
    was = S.copy(raw)

    def anew(x):
        if isinstance(x, list):
            return [anew(y) for y in x]
        for n in numbers:
            if x is n or isinstance(x, str) and x == n:
                return news[n]
        return x
    want = anew(was) if auto else was
    options = {'auto_include': auto}
    core = S.obj(cls_of(FC), options=options, props=[], elements_tree=[], elements_data={}, header={'name': 'Ф'})
    r, err = S.attempt(F27 + '.decode', C(core), S.path('a'), S.path('b'), 'c', raw)
    S.check('taking apart: no error', err is None, repr(err))
    S.eq('the tree shows every element where it stands', core.elements_tree, tree)
    S.eq('its property', [p['name'] for p in core.props], [pn])
    stored = S.copy({'props': core.props, 'tree': core.elements_tree, 'data': core.elements_data})
    S.contract('helper:json_read', lambda vm, path, name: stored)
    B = S.obj(cls_of(FC), options=options, props=[], elements_tree=[], elements_data={}, header={'name': 'Ф'})
    r, err = S.attempt(F27 + '.encode', C(B), S.path('b'), 'name', None, raw)
    S.check('building: no error', err is None, repr(err))
    S.eq('the form comes back as it was', raw, want)
