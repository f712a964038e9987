"""C13: managed forms.

The form is a list read by offsets that depend on counters inside it. Every function that takes a part out is proved against the
function that puts it back, on lists laid out as the counters say, with any counters; the loops over elements, properties, their
children, commands and parameters are proved for an arbitrary one of them. Nested elements are taken by the contract of the list
functions (what these are given is checked), so by induction over the tree the whole form comes back.
"""
import interp
import models
from thm import registry
T, theorem = registry()
FE = 'MetaDataObject.Form.FormElements4.FormElement:FormElement'
F4 = 'MetaDataObject.Form.FormElements4.FormElements4:FormElements4'
FC = 'MetaDataObject.Form.FormCore:FormCore'
CLS = 'MetaDataObject.Form.FormElements4.{0}:{0}'
ROOT = 'MetaDataObject.Form.FormElements4.FormElement:'
MARK = 'Дочерние элементы отдельно'
UUID = {'Field': '77ffcc29-7f2d-4223-b22f-19666e7250ba', 'Button': 'a9f3b1ac-f51b-431e-b102-55a69acdecad', 'Decoration': '3d3cb80c-508b-41fa-8a18-680cdf5f1712',
        'Group': 'cd5394d0-7dda-4b56-8927-93ccbe967a01', 'Table': '143c00f7-a42d-4cd7-9189-88e4467dc768', 'ItemAddition': 'c5259a1d-518a-4afd-b98d-0176027e4feb'}
ASSUMPTIONS = ['induction over the tree of elements: what is proved of an element whose children are handled by contract composes to the whole tree',
               'a button names its command as the command itself states its id',
               'names of properties and commands of a form, their ids, and the paths of its elements are distinct (the platform keeps them so)']
K = models.SKey
OTHER = '"'      # the key of all the others: no name is it
I = dict(inner=True, native=False)


def cls_of(name):
    import importlib
    mod, n = name.split(':')
    return getattr(importlib.import_module('v8unpack.' + mod), n)


class Raw:
    """a list laid out by counters"""
    def __init__(self, S):
        self.S, self.x = S, []

    def other(self, n=1):
        for _ in range(n):
            self.x.append(self.S.opaque('value'))
        return self

    def put(self, v):
        self.x.append(v)
        return self

    def counted(self, name, size=1):
        """a counter and as many records of so many values"""
        n = self.S.int(name, 0)
        self.x.append(self.S.decimal(n))
        r = self.S.rest(name)
        self.S.assume(r[0].length == n * size)
        self.x += r
        return self

    def tail(self):
        self.x += self.S.rest('tail')
        return self


def quoted(S, name):
    return '"' + name + '"'


class Form:
    """a form, and the object that takes it apart"""
    def __init__(self, S):
        self.S = S
        self.core = S.obj(cls_of(FC), elements_data={OTHER: S.opaque('other elements')}, elements_tree=[], props=[], params=[], commands=[], header={'name': 'Ф', 'uuid': 'u'},
                          parent_container_uuid=None)
        self.f = S.obj(cls_of(F4), form=self.core, props_index=None, commands_index=None)


def kind_name(S, no=('/', '"')):
    k = S.pick('kind of name', ['', 'include_', 'includr_'])
    n = S.text('name', no=no, min=1)
    if k == '' and 'includ' not in no:
        S.assume(not S.starts(n, 'include_'))
        S.assume(not S.starts(n, 'includr_'))
    return k, n, k + n


def data_path(S):
    """the record of the data path: none, one property, a property and its child; known to the form or not"""
    return S.pick('data path', ['empty', 'none', 'one', 'two', 'unknown', 'unknown child', 'deep'])


@theorem('an element is taken from the form whole, with its name, path and command by name; building puts it back as it was, whether or not it lies in an area', **I,
         functions=[FE + '.decode', FE + '.encode', FE + '.get_name_node_offset', FE + '.get_prop_link_offset', FE + '.get_command_link_offset',
                    CLS.format('Field') + '.get_name_node_offset', CLS.format('Field') + '.get_prop_link_offset', CLS.format('Button') + '.get_name_node_offset',
                    CLS.format('Button') + '.get_command_link_offset', CLS.format('Decoration') + '.get_name_node_offset', CLS.format('ItemAddition') + '.get_name_node_offset',
                    CLS.format('Table') + '.get_name_node_offset', CLS.format('Table') + '.get_prop_link_offset', CLS.format('Group') + '.get_name_node_offset', 'helper:calc_offset'])
def element(S):
    t = S.pick('type', ['Field', 'Button', 'Decoration', 'ItemAddition', 'Table', 'Group'])
    kind, rest, name = kind_name(S)
    F = Form(S)
    # properties and commands of the form, by id and by name
    pid, cid = (S.text(x, no='"', min=1) for x in ('property id', 'child id'))
    number, another = S.int('number of the command', 1), S.int('number of another', 1)
    S.assume(number != another)
    kid = S.decimal(number)
    pn, cn, kn = (S.text(x, no='."', min=1) for x in ('property', 'its child', 'command'))
    other = S.text('another id', no='"', min=1)
    S.distinct(pid, other)
    S.distinct(cid, other)
    link, want_path = None, None
    by_id = {K(pid): {'name': pn, 'child': {K(cid): {'name': cn, 'child': {}}}}}
    by_name = {K(pn): pid, K(pn + '.' + cn): (pid, cid)}
    if t in ('Field', 'Table'):
        how = data_path(S)
        link = {'empty': [], 'none': ['0'], 'one': ['1', [pid]], 'two': ['2', [pid], [cid]], 'unknown': ['1', [other]], 'unknown child': ['2', [pid], [other]],
                'deep': ['3', [pid], [cid], [other]]}[how]
        link = S.copy(link)
        want_path = {'one': pn, 'two': pn + '.' + cn}.get(how)
    command, want_command = None, None
    kraw = [kid, S.opaque('rest of the command id')]
    if t == 'Button':
        how = S.pick('command', ['empty', 'none', 'one', 'unknown'])
        command = {'empty': [], 'none': ['0'], 'one': S.copy(kraw), 'unknown': [S.decimal(another), S.opaque('x')]}[how]
        want_command = kn if how == 'one' else None
    L = Raw(S)
    if t in ('Table',):
        L.other(4).counted('n')
    else:
        L.other(3).counted('n')
        if t != 'Button':
            L.counted('m')
    if t != 'Table':
        L.other(1)
    L.put(quoted(S, name))
    if t == 'Field':
        L.other(4).put(link)
    elif t == 'Table':
        L.other(5).put(link)
    elif t == 'Button':
        L.other(2).put(command)
    L.tail()
    raw, was = L.x, S.copy(L.x)
    C = cls_of(CLS.format(t))
    path = S.pick('in', ['', S.text('path', no='"', min=1)])
    key = name if path == '' else path + '/' + name
    F.f.props_index = by_id
    F.f.commands_index = {K(kid): kn, OTHER: 'x'}
    r, err = S.attempt(cls_method(C, 'decode'), F.f, path, raw)
    S.check('taking apart: no error', err is None, repr(err))
    S.eq('what the tree says of it', r, {'name': name, 'type': t})
    data = {'raw': was, 'ver': 4}
    if want_path is not None:
        data['ПутьКДанным'] = want_path
    if want_command is not None:
        data['ИмяКоманды'] = want_command
    S.eq('its data, by its path', F.core.elements_data, {OTHER: F.core.elements_data[OTHER], K(key): data})
    F.f.props_index = by_name
    F.f.commands_index = {K(kn): kraw}
    b, err = S.attempt(cls_method(C, 'encode'), F.f, path, r)
    S.check('building: no error', err is None, repr(err))
    S.eq('it comes back as it was', b, was)


def cls_method(C, name):
    """FormElement's own method for this class (the children are another matter)"""
    return getattr(cls_of(FE), name).__func__.__get__(C, type(C))


def below(S, path, name):
    return name if path == '' else path + '/' + name


@theorem('a group or a table is taken apart with its children, which lie in the form under its name; building puts them back into their place', **I,
         functions=[CLS.format('Group') + '.decode', CLS.format('Group') + '.encode', CLS.format('Table') + '.decode', CLS.format('Table') + '.decode_columns', CLS.format('Table') + '.encode',
                    CLS.format('Table') + '.encode_columns', ROOT + 'check_count_element', 'helper:calc_offset', FE + '.decode', FE + '.encode'])
def container(S):
    t = S.pick('type', ['Group', 'Table'])
    kind, rest, name = kind_name(S, ('/', '"', 'includ'))       # an area's name inside a name: see element
    F = Form(S)
    first = S.pick('version', {'Group': ['22', S.text('version', no='"', isnt=('22',))], 'Table': ['55', S.text('version', no='"', isnt=('55',))]}[t])
    L = Raw(S).put(first)
    if t == 'Table':
        L.other(3).counted('n').put(quoted(S, name)).other(5).put([]).other(42).counted('k', 2).other(6)
    else:
        L.other(2).counted('n').counted('m').other(1).put(quoted(S, name)).other(14)
    at = S.len(L.x)
    k = len(L.x)
    some = S.flag('children')
    if some:
        n = S.int('children', 1)
        L.put(S.decimal(n))
        records = S.rest('records of the children')
        S.assume(records[0].length == 2 * n)
        L.x += records
    else:
        n = 0
        L.put('0')
    L.tail()
    raw, was = L.x, S.copy(L.x)
    path = S.pick('in', ['', S.text('path', no='"', min=1)])
    inside = below(S, path, 'include_' + rest if kind == 'includr_' else name)
    children = S.rest('children', min=1)
    asked = []

    def decode_list(vm, cls, form, data, index, where=''):
        asked.append('taken')
        S.check('inv: the list of this element', data is raw and form is F.f)
        S.eq('inv: from their counter', index, at)
        S.eq('inv: under the path of the element', where, inside)
        if not some:
            return None
        data[k:k + 2] = [MARK]
        return children

    def encode_list(vm, cls, form, items, data, index, where=''):
        asked.append('put back')
        S.check('inv: the children of the element', items is children and form is F.f)
        S.eq('inv: into their place', index, at)
        S.eq('inv: under the path of the element', where, inside)
        data[k:k + 1] = [S.decimal(n)] + records
    S.contract(FE + '.decode_list', decode_list)
    S.contract(FE + '.encode_list', encode_list)
    F.f.props_index, F.f.commands_index = {}, {}
    r, err = S.attempt(CLS.format(t) + '.decode', F.f, path, raw)
    if err is not None:
        S.check('inv: only a layout that is not known is refused', first in ('22', '55'))
        S.check('inv: before anything is changed', asked == [])
        return
    S.eq('inv: what the tree says of it', r, {'name': name, 'type': t, 'child': children if some else None})
    S.eq('inv: its children are taken', asked, ['taken'])
    b, err = S.attempt(CLS.format(t) + '.encode', F.f, path, r)
    S.check('building: no error', err is None, repr(err))
    S.eq('inv: its children are put back', asked, ['taken', 'put back'] if some else ['taken'])
    S.eq('inv: it comes back as it was', b, was)


@theorem('the elements of a list are taken apart one by one, each under its path by the class its type names, and leave a mark', **I, functions=[FE + '.decode_list', FE + '.decode_elem', FE + '.get_class_form_elem'])
def elements_out(S):
    t = S.pick('type', list(UUID) + ['unknown'])
    uuid = UUID.get(t) or S.text('unknown type', no='"')
    if t == 'unknown':
        for u in UUID.values():
            S.assume(not S.truth(uuid == u))
    F = Form(S)
    before, after = S.rest('before'), S.rest('after')
    some = S.flag('elements')
    path = S.text('path', no='"')
    elem = S.opaque('element')
    if not some:
        raw = before + ['0'] + after
        was = S.copy(raw)
        r, err = S.attempt(FE + '.decode_list', F.f, raw, S.len(before), path)
        S.check('inv: no error', err is None)
        S.eq('inv: no elements, no list', [r, raw], [None, was])
        return
    n = S.int('elements', 1)
    i = S.int('i', 0)
    S.assume(i < n)
    left, right = S.rest('records'), S.rest('further records')
    S.assume(left[0].length == 2 * i)
    S.assume(right[0].length == 2 * (n - i - 1))
    raw = before + [S.decimal(n)] + left + [uuid, elem] + right + after
    was = S.copy(raw)
    at = S.len(before)
    sofar, node = S.rest('elements so far'), S.opaque('node')
    S.assume(sofar[0].length == i)
    done = S.rest('elements')
    calls = []

    def handler(vm, cls, form, where, data):
        calls.append([cls.__name__, form, where, data])
        return node

    def entry(env, it=None):
        S.eq('inv: begins empty', env.get('result'), [])
        for c in (FE, CLS.format('Group'), CLS.format('Table')):
            S.contract(c + '.decode', handler)

    def after_one(env):
        S.eq('inv: it is taken apart by its class, under its path', calls, [[t, F.f, path, elem]])
        S.eq('inv: it is added', env.get('result'), sofar + [node])
        S.eq('inv: the list stays as it is meanwhile', raw, was)

    def arbitrary():
        return list(sofar)
    L = interp.Loop(S, at_entry=entry, keep={'result': (None, arbitrary, None)}, element=lambda: i, after=after_one, leave=lambda env: env.set('result', done))
    S.loop(FE + '.decode_list', L)
    r, err = S.attempt(FE + '.decode_list', F.f, raw, at, path)
    if err is not None:
        S.check('inv: only an unknown type is refused', t == 'unknown' and not calls)
        S.eq('inv: with the list as it was', raw, was)
        return
    S.eq('inv: the elements', r, done)
    S.eq('inv: they leave a mark', raw, before + [MARK] + after)


@theorem('the elements of a list are built one by one, each under its path by the class its type names, and take the place of the mark, with their number', **I,
         functions=[FE + '.encode_list', FE + '.get_class_form_elem'])
def elements_back(S):
    t = S.pick('type', list(UUID))
    F = Form(S)
    before, after = S.rest('before'), S.rest('after')
    path = S.text('path', no='"')
    items = S.rest('elements', min=1)
    raw = before + [MARK] + after
    at = S.len(before)
    sofar, records = S.rest('records so far'), S.rest('records')
    S.assume(records[0].length == 2 * items[0].length)
    item, built = {'type': t, 'name': S.text('name', no='"')}, S.opaque('built')
    calls = []

    def handler(vm, cls, form, where, data):
        calls.append([cls.__name__, form, where, data])
        return built

    def entry(env, it=None):
        S.eq('inv: every element in turn', it, items)
        S.eq('inv: begins empty', env.get('result'), [])
        for c in (FE, CLS.format('Group'), CLS.format('Table')):
            S.contract(c + '.encode', handler)

    def after_one(env):
        S.eq('inv: it is built by its class, under its path', calls, [[t, F.f, path, item]])
        S.eq('inv: its type and its data', env.get('result'), sofar + [UUID[t], built])
        S.eq('inv: the list stays as it is meanwhile', raw, before + [MARK] + after)
    S.loop(FE + '.encode_list', interp.Loop(S, at_entry=entry, keep={'result': (None, lambda: list(sofar), None)}, element=lambda: item, after=after_one,
                                           leave=lambda env: env.set('result', records)))
    r, err = S.attempt(FE + '.encode_list', F.f, items, raw, at, path)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: in the place of the mark', raw, before + [S.decimal(items[0].length)] + records + after)


PART = {'FormParams': ('params', 4, 1), 'FormProps': ('props', 3, 3), 'FormCommands': ('commands', 5, 2)}


def one_part(S, part):
    """one property, command or parameter as the platform writes it, and what the tool says of it"""
    name = S.text('name', no='"', min=1)
    L = Raw(S)
    said = {'name': name}
    if part == 'FormParams':
        L.other(1)
    elif part == 'FormProps':
        L.other(1).put([S.text('id', no='"', min=1)]).other(1)
        said['id'] = L.x[1][0]
    else:
        L.other(1).put([S.text('id', no='"', min=1), S.opaque('rest of the id')])
        said['id'] = L.x[1][0]
    L.put(quoted(S, name))
    return L, name, said


@theorem('a property, a command and a parameter are taken with their names and ids, and come back as they were; the properties take their children and the uuid of the object they belong to with them', **I,
         functions=[ROOT + n for n in ('FormProps.decode', 'FormProps.decode_child', 'FormProps.encode', '_FormRoot.decode', '_FormRoot.encode', 'FormCommands.decode')])
def part(S):
    p = S.pick('part', list(PART))
    F = Form(S)
    L, name, said = one_part(S, p)
    parent = F.core.parent_container_uuid = S.text('uuid of the object', only='0123456789abcdef-', min=36, max=36)
    some = 0
    if p == 'FormProps':
        pat = S.pick('pattern', ['empty', 'one', 'own', 'other', 'another kind'])
        o = S.text('another uuid', only='0123456789abcdef-', min=36, max=36)
        S.distinct(o, parent)
        head, tail = S.opaque('head of the pattern'), S.rest('rest of the pattern')
        pattern = {'empty': [], 'one': [head], 'own': [head, ['"#"', parent]] + tail, 'other': [head, ['"#"', o]] + tail, 'another kind': [head, ['"B"']] + tail}[pat]
        L.other(1).put(pattern).other(7)
        some = S.flag('children')
        n = S.int('children', 1)
        left, right = S.rest('children before'), S.rest('children after')
        i = S.int('i', 0)
        S.assume(i < n)
        S.assume(left[0].length == i)
        S.assume(right[0].length == n - i - 1)
        cn, cid = S.text('name of a child', no='"', min=1), S.text('id of a child', no='"', min=1)
        child = [S.opaque('v'), cid, S.opaque('v'), quoted(S, cn)] + S.rest('rest of a child')
        child0 = S.copy(child)
        if some:
            L.put(S.decimal(n))
            k = len(L.x)
            L.x += left + [child] + right
        else:
            L.put('0')
        L.tail()
    else:
        L.tail()
    raw, was = L.x, S.copy(L.x)
    sofar, children = S.rest('children so far'), S.rest('children', min=1)
    S.assume(children[0].length == n if p == 'FormProps' else True)
    one = {'name': cn, 'id': cid, 'raw': child0} if p == 'FormProps' else None
    held = []
    if some:
        def entry(env, it=None):
            held.append(env.get('result'))
            S.eq('inv: begins empty', held[0]['child'], [])

        def arbitrary():
            held[0]['child'] = list(sofar)
            return held[0]

        def after(env):
            S.eq('inv: a child is taken', env.get('result')['child'], sofar + [one])
            S.eq('inv: the record stays as it is meanwhile', raw[k:k + 3], left + [child0] + right)

        def leave(env):
            held[0]['child'] = children
            env.set('result', held[0])
        S.loop(ROOT + 'FormProps.decode', interp.Loop(S, keep={'result': (None, arbitrary, None)}, at_entry=entry, element=lambda: i, after=after, leave=leave))
    r, err = S.attempt(ROOT + p + '.decode', F.f, raw)
    S.check('taking apart: no error', err is None, repr(err))
    S.eq('what the tool says of it', {k: v for k, v in r.items() if k not in ('raw', 'child')}, said)
    if p == 'FormProps':
        S.eq('its children', r.get('child'), children if some else None)
    if some:
        records = left + [child] + right
        sof, recs = S.rest('records so far'), [S.rest('records')]

        def entry2(env, it=None):
            S.eq('inv: as many as there are', S.truth(env.get('child_count') == n), True)

        def element():
            return i

        def after2(env):
            S.eq('inv: the record of the child is put back', env.get('childs'), sof + [child0])
        kids = S.rest('more children')
        before = S.rest('children before')
        S.assume(before[0].length == i)
        S.assume(kids[0].length == n - i - 1)
        r['child'] = before + [{'name': cn, 'id': cid, 'raw': S.copy(child0)}] + kids
        S.loop(ROOT + 'FormProps.encode', interp.Loop(S, keep={'childs': (lambda v: S.eq('inv: begins empty', v, []), lambda: list(sof), None)}, at_entry=entry2, element=element, after=after2,
                                                     leave=lambda env: env.set('childs', left + [child0] + right)))
    b, err = S.attempt(ROOT + p + '.encode', F.f, r)
    S.check('building: no error', err is None, repr(err))
    S.eq('it comes back as it was', b, was)


@theorem('properties, commands and parameters are taken from their place one by one, and put back one by one; a part that cannot be taken apart is left as it was', **I,
         functions=[ROOT + n for n in ('_FormRoot.decode_list', '_FormRoot.encode_list')])
def parts(S):
    p = S.pick('part', list(PART))
    attr, index, _ = PART[p]
    F = Form(S)
    state = S.pick('at', ['absent', 'none', 'some', 'broken', 'bad counter'])
    L = Raw(S).other(index)
    first, after = S.opaque('head'), S.rest('further values')
    n, i = S.int('how many', 1), S.int('i', 0)
    S.assume(i < n)
    left, right = S.rest('before'), S.rest('after')
    S.assume(left[0].length == i)
    S.assume(right[0].length == n - i - 1)
    item, done = S.opaque('record'), S.opaque('what is said of it')
    if state == 'none':
        L.put([first, '0'] + after)
    elif state == 'bad counter':
        L.put([first, 'не число'] + after)
    elif state != 'absent':
        L.put([first, S.decimal(n)] + left + [item] + right + after)
    if state != 'absent':
        L.tail()
    raw, was = L.x, S.copy(L.x)
    items = L.x[index] if state != 'absent' else None
    calls = []

    def decode(vm, cls, form, x):
        calls.append([cls.__name__, x])
        if state == 'broken':
            items[1] = S.opaque('half taken apart')
            raise ValueError('broken')
        return done
    sofar, all_ = S.rest('so far'), S.rest('all')
    S.assume(sofar[0].length == i)
    S.assume(all_[0].length == n)

    def entry(env, it=None):
        S.eq('inv: begins empty', env.get('result'), [])
        S.contract(ROOT + ('_FormRoot' if p == 'FormParams' else p) + '.decode', decode)

    def after_one(env):
        S.eq('inv: every one is taken', calls, [[p, item]])
        S.eq('inv: what is said of it is kept', env.get('result'), sofar + [done])
        S.eq('inv: the list stays as it is meanwhile', raw, was)
    S.loop(ROOT + '_FormRoot.decode_list', interp.Loop(S, keep={'result': (None, lambda: list(sofar), None)}, at_entry=entry, element=lambda: i, after=after_one,
                                                       leave=lambda env: env.set('result', all_)))
    r, err = S.attempt(ROOT + p + '.decode_list', F.f, raw)
    S.check('inv: no error', err is None, repr(err))
    if state == 'absent' or state == 'none' or state == 'bad counter' or calls:
        S.eq('inv: nothing there, nothing taken', [r, raw], [None, was])
    else:
        S.eq('inv: all are taken', r, all_)
        S.eq('inv: they leave a mark', raw[index], [first, MARK] + after)
        S.eq('inv: the others stay', [x for j, x in enumerate(raw) if j != index], [x for j, x in enumerate(was) if j != index])
    # and back
    setattr(F.core, attr, r)
    back, bcalls = S.opaque('built'), []

    def encode(vm, cls, form, x):
        bcalls.append([cls.__name__, x])
        return back
    bsofar = S.rest('built so far')

    def bentry(env, it=None):
        S.eq('inv: every one in turn', it, all_)
        S.eq('inv: begins empty', env.get('result'), [])
        S.contract(ROOT + ('FormProps' if p == 'FormProps' else '_FormRoot') + '.encode', encode)

    def bafter(env):
        S.eq('inv: every one is built', bcalls, [[p, item]])
        S.eq('inv: and kept', env.get('result'), bsofar + [back])
    S.loop(ROOT + '_FormRoot.encode_list', interp.Loop(S, keep={'result': (None, lambda: list(bsofar), None)}, at_entry=bentry, element=lambda: item, after=bafter,
                                                       leave=lambda env: env.set('result', left + [item] + right)))
    b, err = S.attempt(ROOT + p + '.encode_list', F.f, None, None, None, raw)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: it comes back as it was', raw, was)
    S.eq('inv: and is told', b, r)


@theorem('the tables of properties and commands name each property, each of its children and each command, both ways round', **I,
         functions=[F4 + '.create_prop_index_by_id', F4 + '.create_prop_index_by_name', F4 + '.create_commands_index_by_id', F4 + '.create_commands_index_by_name'])
def tables(S):
    what = S.pick('table', ['prop by id', 'prop by name', 'commands by id', 'commands by name'])
    F = Form(S)
    keep = S.opaque('what is there already')
    name, ident = S.text('name', no='".', min=1), S.text('id', no='"', min=1)
    if what.startswith('prop'):
        attr, fn = 'props_index', F4 + '.create_prop_index_' + what[5:].replace(' ', '_')
        cn, cid = S.text('name of a child', no='".', min=1), S.text('id of a child', no='"', min=1)
        kids = S.pick('children', ['none', 'some'])
        one = {'name': name, 'id': ident, 'raw': S.opaque('record')}
        if kids != 'none':
            one['child'] = kids = S.rest('children', min=1)
        F.core.props = S.pick('props', [None, [], S.rest('props', min=1)])
    else:
        attr, fn = 'commands_index', F4 + '.create_commands_index_' + what[9:].replace(' ', '_')
        one = {'name': name, 'id': ident, 'raw': ['9', [ident, S.opaque('x')]] + S.rest('rest')}
        kids = 'none'
        F.core.commands = S.pick('commands', [None, [], S.rest('commands', min=1)])
    src = F.core.props if what.startswith('prop') else F.core.commands
    byid = what.endswith('id')

    def entry(env, it=None):
        S.eq('inv: every one in turn', it, src)
        S.eq('inv: begins empty', getattr(F.f, attr), {})
        getattr(F.f, attr)[OTHER] = keep

    def inner_entry(env, it=None):
        S.eq('inv: every child in turn', it, [] if kids == 'none' else kids)

    def child():
        if kids == 'none':
            S.end()
        return {'name': cn, 'id': cid, 'raw': S.opaque('record of the child')}

    def child_after(env):
        want = {OTHER: keep, K(ident): {'name': name, 'child': {K(cid): {'name': cn, 'child': {}}}}} if byid else {OTHER: keep, K(name): ident, K(name + '.' + cn): (ident, cid)}
        S.eq('inv: a child by its property and itself', getattr(F.f, attr), want)

    def after(env):
        if what.startswith('prop'):
            want = {OTHER: keep, K(ident): {'name': name, 'child': {}}} if byid else {OTHER: keep, K(name): ident}
        else:
            want = {OTHER: keep, K(ident): name} if byid else {OTHER: keep, K(name): one['raw'][1]}
        S.eq('inv: it is in the table', getattr(F.f, attr), want)
    outer = interp.Loop(S, at_entry=entry, element=lambda: one, after=after)
    inner = interp.Loop(S, at_entry=inner_entry, element=child, after=child_after)
    S.loops(fn, outer, inner)
    r, err = S.attempt(fn, F.f)
    S.check('inv: no error', err is None, repr(err))
    S.check('inv: there is a table', isinstance(getattr(F.f, attr), dict))


@theorem('the elements of a form are found behind its events and panels, whatever their number, and put back there', **I, functions=[F4 + '.decode_elements', F4 + '.encode_elements', F4 + '.get_form_elem_index', 'helper:calc_offset'])
def root_elements(S):
    F = Form(S)
    L = Raw(S).other(18).counted('events', 2).other(2).counted('panels')
    at = S.len(L.x)
    k = len(L.x)
    some = S.flag('elements')
    n = S.int('elements', 1)
    records, tree = S.rest('records'), S.rest('tree', min=1)
    S.assume(records[0].length == 2 * n)
    L.x += [S.decimal(n)] + records if some else ['0']
    L.tail()
    root, was = L.x, S.copy(L.x)
    raw = [S.opaque('head'), root] + S.rest('further parts')
    made, asked = [], []
    for m in ('create_prop_index_by_id', 'create_commands_index_by_id', 'create_prop_index_by_name', 'create_commands_index_by_name'):
        S.contract(F4 + '.' + m, lambda vm, f, m=m: made.append(m))
    d1, d2 = S.text('a path', no='"', min=1), S.text('another path', no='"', min=1)
    S.distinct(d1, d2)
    v1, v2 = S.opaque('data'), S.opaque('other data')

    def decode_list(vm, cls, form, data, index, where=''):
        asked.append('taken')
        S.check('inv: the list of the form', data is root and form is F.f)
        S.eq('inv: the properties and commands are known by their ids by now', sorted(made), ['create_commands_index_by_id', 'create_prop_index_by_id'])
        S.eq('inv: from its counter', index, at)
        S.eq('inv: under no path', where, '')
        if not some:
            return None
        data[k:k + 2] = [MARK]
        F.core.elements_data[K(d1)] = v1
        F.core.elements_data[K(d2)] = v2
        return tree

    def encode_list(vm, cls, form, items, data, index, where=''):
        asked.append('put back')
        S.check('inv: the list of the form, with its elements', data is root and form is F.f and items is tree)
        S.eq('inv: into its place', index, at)
        S.eq('inv: under no path', where, '')
        data[k:k + 1] = [S.decimal(n)] + records
    S.contract(FE + '.decode_list', decode_list)
    S.contract(FE + '.encode_list', encode_list)
    F.core.elements_data = {}
    S.vm.models.hooks['sorted'] = lambda xs: xs         # the order of the table says nothing
    r, err = S.attempt(F4 + '.decode_elements', F.f, raw)
    S.check('inv: no error', err is None, repr(err))
    if some:
        S.check('inv: the tree is kept', F.core.elements_tree is tree)
        S.eq('inv: and the data of every element', F.core.elements_data, {K(d1): v1, K(d2): v2})
    else:
        S.eq('inv: no elements', [F.core.elements_tree, F.core.elements_data, root], [[], {}, was])
    r, err = S.attempt(F4 + '.encode_elements', F.f, None, None, None, raw)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: they are put back', asked, ['taken', 'put back'] if some else [])
    S.eq('inv: it comes back as it was', root, was)


@theorem('a form is taken apart into properties, commands, elements and parameters, each kept under its own name; building puts each back from there, properties and commands before the elements that need them', **I,
         functions=[F4 + '.decode', F4 + '.encode'])
def whole_form(S):
    F = Form(S)
    raw = S.rest('the form')
    src, name = S.path('w', 'src'), S.text('name', no='/"', min=1)
    v = {k: S.pick(k, [S.rest(k, min=1), None]) for k in ('props', 'params', 'commands')}
    tree, data = S.rest('tree', min=1), {OTHER: S.opaque('data of the elements')}
    log = []

    def decode_list(vm, cls, form, x):
        S.check('inv: the list of this form', x is raw and form is F.f)
        log.append(cls.name)
        return v[cls.name]

    def decode_elements(vm, form, x):
        S.check('inv: the list of this form', x is raw)
        S.check('inv: properties and commands are known by now', F.core.props is v['props'] and F.core.commands is v['commands'])
        log.append('elements')
        F.core.elements_tree, F.core.elements_data = tree, data
    S.contract(ROOT + '_FormRoot.decode_list', decode_list)
    S.contract(F4 + '.decode_elements', decode_elements)
    r, err = S.attempt(F4 + '.decode', F.f, S.path('x'), S.path('y'), 'z', raw)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: each part is taken once', sorted(log), ['commands', 'elements', 'params', 'props'])
    S.check('inv: each is kept under its name', F.core.props is v['props'] and F.core.params is v['params'] and F.core.commands is v['commands'] and F.core.elements_tree is tree)
    # building, from what was written
    B = Form(S)
    log2 = []
    stored = {'params': v['params'], 'props': v['props'], 'commands': v['commands'], 'tree': tree, 'data': data}

    def json_read(vm, path, file):
        S.eq('inv: the file of the elements', [path, file], [src, name + '.elem.json'])
        return stored

    def encode_list(vm, cls, form, s, f, version, x):
        S.check('inv: the list of this form', x is raw and form is B.f)
        S.check('inv: what is kept under its name is there', getattr(B.core, cls.name) is v[cls.name])
        log2.append(cls.name)
        return v[cls.name]

    def table(m):
        def f(vm, form):
            log2.append(m)
        return f

    def encode_elements(vm, form, s, f, d, x):
        S.check('inv: the list of this form', x is raw and B.core.elements_tree is tree and B.core.elements_data is data)
        S.check('inv: the tables of properties and commands are there', 'props' in log2 and 'commands' in log2 and 'by name p' in log2 and 'by name c' in log2)
        log2.append('elements')
    S.contract('helper:json_read', json_read)
    S.contract(ROOT + '_FormRoot.encode_list', encode_list)
    S.contract(F4 + '.create_prop_index_by_name', table('by name p'))
    S.contract(F4 + '.create_commands_index_by_name', table('by name c'))
    S.contract(F4 + '.encode_elements', encode_elements)
    r, err = S.attempt(F4 + '.encode', B.f, src, name, S.path('d'), raw)
    S.check('inv: building: no error', err is None, repr(err))
    S.eq('inv: each part is put back once', sorted(log2), sorted(['props', 'commands', 'params', 'elements', 'by name p', 'by name c']))


class Doubled:
    """a text between quotes, its own quotes doubled"""
    def __init__(self, S, name):
        self.text = S.text(name)
        self.inside = models.t_replace(S.vm, self.text, '"', '""')
        self.raw = '"' + self.inside + '"'


@theorem('the module of a form kept in the form itself comes out as its text and is put back into its place, whatever the text', native=False,
         functions=[FC + '.decode_form0_from_file', FC + '.encode_data', FC + '.getset_form_code', FC + '.get_last_level_array', 'helper:str_encode', 'helper:str_decode'])
def module(S):
    F = Form(S)
    core = F.core
    core.header = {'uuid': S.text('uuid', no='"/', min=1), 'name': S.text('name', no='"'), 'Тип формы': '1', 'form': []}
    core.code = {}
    code = Doubled(S, 'module')
    shape = S.pick('form', ['in the root', 'at the end', 'nowhere', 'short', 'no file'])
    if shape == 'in the root':
        root = [S.pick('version', ['4', '3', '2']), S.opaque('elements'), code.raw] + S.rest('further parts')
        file = [root] + S.rest('further values')
    elif shape == 'at the end':
        last = [S.pick('kind', ['22', '1'])] + [S.opaque('v') for _ in range(3)] + S.rest('values') + [code.raw] + [S.opaque('v') for _ in range(5)] + ['0', '0']
        root = ['1', [S.opaque('v')]]
        file = S.pick('depth', [[root] + S.rest('between') + [last], [root, [S.opaque('v'), last]], [root, [S.opaque('v'), [S.opaque('v'), last]]]])
        S.assume(S.len(last) > 10)
    elif shape == 'nowhere':
        last = [S.opaque('v')] * 11 + ['1']
        root = ['1', S.opaque('v'), S.opaque('v')]
        file = [root, last]
    else:
        file = [['1', S.opaque('v')], ['49', '0']]
    was = S.copy(file)

    def brace_file_read(vm, path, name):
        S.eq('inv: the file of the form', name, core.header['uuid'] + '.0')
        if shape == 'no file':
            raise FileNotFoundError(2, 'No such file')
        return file
    S.contract('helper:brace_file_read', brace_file_read)
    r, err = S.attempt(FC + '.decode_form0_from_file', core, S.path('w', 'src'))
    S.check('taking apart: no error', err is None, repr(err))
    if shape == 'no file':
        S.eq('an empty form', core.header['form'], [[]])
        return
    S.eq('the text of the module', core.code.get('obj'), code.text if shape in ('in the root', 'at the end') else '')
    if shape in ('in the root', 'at the end'):
        S.check('the form no longer holds it', not S.truth(models.deq(file, was)) if not S.truth(code.raw == 'Код в отдельном файле') else True)
    r, err = S.attempt(FC + '.encode_data', core)
    S.check('building: no error', err is None, repr(err))
    S.eq('the form comes back as it was', core.header['form'], [was])


@theorem('a form the tool cannot take apart is kept whole, as it was before it was tried, and building leaves it so', **I,
         functions=[FC + '.decode_includes', FC + '.encode_nested_includes', FC + '.get_form_element_decoder', FC + '.write_decode_object'])
def kept_whole(S):
    F = Form(S)
    core = F.core
    kind = S.pick('type', ['0', '1'])
    core.header = {'uuid': S.text('uuid', no='"/', min=1), 'name': 'Ф', 'Тип формы': kind}
    core.elements_data = {}
    core.code, core.obj_version = {}, '13'
    core.new_dest_dir = S.path('w', 'new')
    inner = [S.opaque('elements')] + S.rest('elements')
    v = S.pick('layout', ['27', '26', '28', '49'])
    root = ([v, inner] if kind == '0' else [S.pick('version', ['4', '3']), inner]) + S.rest('parts')
    form0 = S.pick('form', ['some', 'none'])
    file = [root] + S.rest('values') if form0 == 'some' else []
    second = [S.opaque('second file')] if S.flag('second file') else None
    form = [file] + ([second] if second else [])
    was = S.copy(form)

    def form_read(vm, self, *a, **k):
        self.header.setdefault('form', []).append(file)
    S.contract(FC + '.decode_form0', form_read)
    S.contract(FC + '.decode_form0_from_file', form_read)
    S.contract('MetaObject:MetaObject.decode_code', lambda vm, self, *a, **k: None)

    def form1(vm, self, src):
        if second:
            self.header['form'].append(second)
    S.contract(FC + '.decode_form1', form1)
    fails = S.flag('cannot be taken apart')
    tried = []
    tree = S.rest('tree', min=1)

    def taken(vm, self, s, d, p, raw):
        tried.append(type(self).__name__)
        S.check('inv: the root of the form', raw is root)
        inner[0] = MARK
        del raw[2:]
        core.elements_tree, core.elements_data, core.props, core.commands = tree, {'x': S.opaque('x')}, [S.opaque('p')], [S.opaque('c')]
        if fails:
            raise ValueError('не разбирается')
    for n in ('FormElements4', 'FormElements27', 'FormElements26'):
        S.contract(f'MetaDataObject.Form.{n}.{n}:{n}.decode', taken)
    r, err = S.attempt(FC + '.decode_includes', core, S.path('w', 'src'), S.path('w', 'dst'), 'x', [])
    S.check('inv: no error', err is None, repr(err))
    known = form0 == 'some' and (kind == '1' or v in ('26', '27'))
    S.eq('inv: a form of a known layout is tried once', len(tried), 1 if known else 0)
    if known:
        S.eq('inv: by its own decoder', tried, ['FormElements4' if kind == '1' else 'FormElements' + v] if not (kind == '0' and v == '27' and tried == ['FormElements26']) else tried)
    whole = not known or fails
    if whole:
        S.eq('inv: it is kept as it was', core.header['form'], was)
        S.eq('inv: nothing is left of the attempt', [core.elements_tree, core.elements_data, core.props, core.params, core.commands], [[], {}, [], [], []])
    # what is written, and building
    stored = []
    S.contract('helper:json_write', lambda vm, data, path, name: stored.append((name, S.copy(data))))
    S.contract('MetaObject:MetaObject.write_decode_code', lambda vm, self, *a, **k: None)
    r, err = S.attempt(FC + '.write_decode_object', core, S.path('w', 'dst'), 'x', 'name')
    S.check('inv: writing: no error', err is None, repr(err))
    elem = [d for n, d in stored if n == 'name.elem.json']
    head = [d for n, d in stored if n == 'name.json']
    S.check('inv: the form and its elements are written', len(elem) == 1 and len(head) == 1)
    S.eq('inv: each under its name', elem[0], {'tree': core.elements_tree, 'data': core.elements_data, 'props': core.props, 'params': core.params, 'commands': core.commands})
    S.eq('inv: the form is what is left of it', head[0]['form'], core.header['form'])
    B = Form(S).core
    B.header = head[0]
    before = S.copy(B.header['form'])
    S.contract('helper:json_read', lambda vm, path, name: elem[0])
    built = []
    for n in ('FormElements4', 'FormElements27', 'FormElements26'):
        S.contract(f'MetaDataObject.Form.{n}.{n}:{n}.encode', lambda vm, self, s, f, d, raw: built.append((type(self).__name__, raw)))
    r, err = S.attempt(FC + '.encode_nested_includes', B, S.path('w', 'dst'), 'name', S.path('w', 'out'), None)
    S.check('inv: building: no error', err is None, repr(err))
    if whole:
        S.eq('inv: a form kept whole is not touched', [built, B.header['form']], [[], was])
    else:
        S.eq('inv: a form taken apart is built by the same decoder', [list(b) for b in built], [[tried[0], before[0][0]]])


@theorem('the files of a form are read and written under the same names: the header by its uuid, the form and its second file by the uuid with .0 and .1, the module of an ordinary form beside it', **I,
         functions=[FC + '.write_encode_object', FC + '.write_old_encode_object', FC + '.decode_form0', FC + '.decode_form0_from_dir', FC + '.decode_form0_from_file', FC + '.decode_form1'])
def files(S):
    F = Form(S)
    core = F.core
    kind = S.pick('type', ['ordinary', 'managed'])
    uuid = S.text('uuid', no='"/.', min=1)
    src, out = S.path('w', 'src'), S.path('w', 'out')
    core.header = {'uuid': uuid, 'name': 'Ф', 'Тип формы': '0' if kind == 'ordinary' else '1', 'form': []}
    core.code, core.file_list = {}, []
    form0, form1 = [[S.opaque('v'), S.opaque('v')], S.opaque('form')], [S.opaque('second')]
    second = S.flag('second file')
    module, enc = S.text('module'), S.pick('encoding', ['utf-8-sig', 'windows-1251'])
    join = lambda *a: '/'.join(a) if False else S.path(*a)
    d = src + '/' + uuid + '.0'
    if kind == 'ordinary':
        S.dir(d)

    def brace_file_read(vm, path, name):
        full = path + '/' + name
        if kind == 'ordinary' and S.truth(full == d + '/form') or kind == 'managed' and S.truth(full == d):
            return form0
        if second and S.truth(full == src + '/' + uuid + '.1'):
            return form1
        raise FileNotFoundError(2, 'No such file')

    def raw_code(vm, self, path, name, *a, **k):
        S.eq('inv: the module lies beside the form', [path, name], [d, 'module'])
        return module, enc
    S.contract('helper:brace_file_read', brace_file_read)
    S.contract('MetaObject:MetaObject.read_raw_code', raw_code)
    S.contract(FC + '.getset_form_code', lambda vm, cls, *a: '""')
    r, err = S.attempt(FC + ('.decode_form0' if kind == 'ordinary' else '.decode_form0_from_file'), core, src)
    S.check('inv: no error', err is None, repr(err))
    r, err = S.attempt(FC + '.decode_form1', core, src)
    S.check('inv: no error', err is None, repr(err))
    S.eq('inv: the form and its second file', core.header['form'], [form0, form1] if second else [form0])
    if kind == 'ordinary':
        S.eq('inv: its module', core.code['obj'], module)
    head = [S.opaque('header')]
    written, text = {}, []
    S.contract(FC + '.encode_header', lambda vm, self: head)

    def brace_file_write(vm, data, path, name):
        written[K(path + '/' + name)] = S.copy(data)
    S.contract('helper:brace_file_write', brace_file_write)
    S.contract('helper:makedirs', lambda vm, *a, **k: None)
    S.contract('MetaObject:MetaObject.write_raw_code', lambda vm, self, code, path, name='', encoding=None, **k: text.append([code, path, name, encoding]))
    r, err = S.attempt(FC + '.write_encode_object', core, out)
    S.check('inv: building: no error', err is None, repr(err))
    want = {K(out + '/' + uuid): head, K(out + '/' + uuid + ('.0/form' if kind == 'ordinary' else '.0')): form0}
    names = [uuid, uuid + '.0']
    if second:
        want[K(out + '/' + uuid + '.1')] = form1
        names.append(uuid + '.1')
    S.eq('inv: the same files are written', written, want)
    S.eq('inv: and told', core.file_list, names)
    S.eq('inv: its module beside it, in its encoding', text, [[module, out + '/' + uuid + '.0', 'module', enc]] if kind == 'ordinary' else [])


def shape_of(S):
    """a form of a few elements, its names and values any: the tree, as (type, name kind, children)"""
    return S.pick('shape', [
        [('Group', '', [('Field', '', None), ('Button', '', None)])],
        [('Group', 'include_', [('Table', '', [('Field', '', None)]), ('Group', '', [])]), ('Decoration', '', None)],
        [('Table', '', [('Group', '', [('Field', '', None), ('ItemAddition', '', None)])]), ('Button', 'include_', None)],
        [('Group', 'includr_', [('Group', '', [('Field', '', None)]), ('Field', '', None)])],
        [],
        [('Field', '', None), ('Field', '', None), ('Decoration', '', None)]])


@theorem('a whole form comes back as it was, and its tree shows every element where it stands', bounded='six shapes of up to five elements, up to two properties, two commands and a parameter; names and values any', native=False,
         functions=[F4 + '.decode', F4 + '.encode', FE + '.decode_list', FE + '.encode_list', FE + '.decode', FE + '.encode', CLS.format('Group') + '.decode', CLS.format('Table') + '.decode',
                    ROOT + '_FormRoot.decode_list', ROOT + '_FormRoot.encode_list'])
def whole(S):
    names = []

    def fresh(what):
        n = S.text(what, no=('/', '"', '.', 'includ'), min=1)
        S.distinct(n, *names) if names else None
        names.append(n)
        return n
    props = [(fresh('property'), fresh('id'), [(fresh('child'), fresh('child id'))])]
    if S.flag('second property'):
        props.append((fresh('property'), fresh('id'), []))
    kx = S.opaque('rest of the id of a command')
    commands = [(fresh('command'), S.decimal(S.int('number', 1)))] if S.flag('a command') else []
    where = {}

    def build(t, k, kids, path):
        n = k + fresh('element')
        full = below(S, path, n)
        L = Raw(S).put('54' if t == 'Table' else '21')
        if t == 'Table':
            L.other(3).put('0').put(quoted(S, n)).other(5).put(['1', [props[0][1]]]).other(54 - len(L.x)).put('0').other(6)
        elif t == 'Button':
            L.other(2).put('0').other(1).put(quoted(S, n)).other(2).put([commands[0][1], kx] if commands else ['0'])
        else:
            L.other(2).put('1').other(1).put('0').other(1).put(quoted(S, n))
            if t == 'Field':
                L.other(4).put(['2', [props[0][1]], [props[0][2][0][1]]])
            elif t == 'Group':
                L.other(14)
        node = {'name': n, 'type': t}
        if kids is not None:
            inside = below(S, path, 'include_' + n[len('includr_'):] if k == 'includr_' else n)
            L.put(str(len(kids)))
            node['child'] = []
            for c in kids:
                raw, sub = build(*c, inside)
                L.x += [UUID[c[0]], raw]
                node['child'].append(sub)
            node['child'] = node['child'] or None
        L.other(2)
        return L.x, node
    F = Form(S)
    F.core.elements_data = {}
    F.core.name = 'Ф'
    tree, items = [], []
    for e in shape_of(S):
        raw, node = build(*e, '')
        items += [UUID[e[0]], raw]
        tree.append(node)
    root = Raw(S).other(18).put('0').other(2).put('1').other(1).put(str(len(tree))).x + items + [S.opaque('v')]
    pr = [[S.opaque('v'), [i], S.opaque('v'), quoted(S, n), S.opaque('v'), []] + [S.opaque('v') for _ in range(7)] + [str(len(ch))] + [[S.opaque('v'), ci, S.opaque('v'), quoted(S, c)] for c, ci in ch] + S.rest('rest')
          for n, i, ch in props]
    cm = [[S.opaque('v'), [i, kx], quoted(S, n)] + S.rest('rest') for n, i in commands]
    pa = [[S.opaque('v'), quoted(S, fresh('parameter'))]]
    raw = ['4', root, '""', [S.opaque('v'), str(len(pr))] + pr, [S.opaque('v'), '1'] + pa, [S.opaque('v'), str(len(cm))] + cm] + S.rest('further parts')
    was = S.copy(raw)
    S.vm.models.hooks['sorted'] = lambda xs: xs
    r, err = S.attempt(F4 + '.decode', F.f, S.path('a'), S.path('b'), 'c', raw)
    S.check('taking apart: no error', err is None, repr(err))
    S.eq('the tree shows every element where it stands', F.core.elements_tree, tree)
    S.eq('the names of its properties', [p['name'] for p in F.core.props], [p[0] for p in props])
    B = Form(S)
    B.core.name = 'Ф'
    stored = S.copy({'params': F.core.params, 'props': F.core.props, 'commands': F.core.commands, 'tree': F.core.elements_tree, 'data': F.core.elements_data})
    S.contract('helper:json_read', lambda vm, path, name: stored)
    r, err = S.attempt(F4 + '.encode', B.f, S.path('b'), 'name', S.path('d'), raw)
    S.check('building: no error', err is None, repr(err))
    S.eq('the form comes back as it was', raw, was)
