"""C09: tables of included objects"""
from thm import registry
import itertools
import objects
T, theorem = registry()
ASSUMPTIONS = ['names of the objects of one type in one owner differ (they are folders of one folder); identifiers differ in more than the case of letters',
               'an object is built by the method encode of its class, whose result names owner, type, identifier, name and data (proved in C08 and C12)']
MO = 'MetaObject:MetaObject'


def ordered(S):
    """texts have an order"""
    from c01 import silent
    silent(S)


def type_uuid(name):
    from v8unpack.metadata_types import MetaDataTypes
    return MetaDataTypes[name].value


class Table:
    """a table of included objects: entries of known types with a file of their own or with their data inside, of unknown types, empty ones"""
    def __init__(self, S, auto, most=2):
        self.S, self.auto = S, auto
        S.ctx.total |= {'H!'}
        S.contract('helper:get_class_metadata_object', self.find)
        self.handed = []
        self.names = {}
        self.entries, self.kinds = [], []
        for k in range(S.pick('types', [1, 2])):
            self.entries.append(self.entry(k, most if k == 0 else 1))
        self.head = [S.opaque('h0'), S.opaque('h1')]
        self.tail = S.rest('tail')

    def entry(self, k, most):
        S = self.S
        kind = S.pick('kind', ['own file', 'inline', 'unknown', 'unknown inline', 'no class']) if k == 0 else {'own file': 'inline'}.get(self.kinds[0][0], 'own file')
        n = S.pick('objects', list(range(most + 1)) if k == 0 and kind in ('own file', 'inline') else [0, 1])
        name = {'own file': 'Catalog', 'inline': 'CatalogCommand', 'no class': 'CalculationRegisterRecalculations'}.get(kind)
        uuids = [S.text(f'uuid{k}{i}', no='/."', min=36, max=36) for i in range(n)]
        S.distinct(*uuids)
        S.distinct(*[S.lower(u) for u in uuids])
        datas = [[f'data{k}{i}', *S.rest(f'more{k}{i}')] for i in range(n)]
        inline = kind in ('inline', 'unknown inline', 'no class')
        t = [type_uuid(name) if name else S.text('unknown type', no='-', min=1), str(n), *(datas if inline else uuids)]
        self.kinds.append((kind, name, uuids, datas))
        return t

    def find(self, vm, name):
        import models
        T = self
        for kind, n, uuids, datas in self.kinds:
            if n == name and kind == 'no class':
                raise AttributeError(name)

        class Handler(models.Obj):
            def decode_internal_include(self, parent, data, src_dir, dest_dir, dest_path, options):
                for kind, n, uuids, datas in T.kinds:
                    for u, d in zip(uuids, datas):
                        if n == name and d[0] == data[0]:
                            T.handed.append((n, u, dest_path))
                            return u
                T.S.check('an object of the table is handed on', False)
        h = Handler()
        h.__name__ = name
        return h

    def take_apart(self):
        import models
        S = self.S
        cls = objects.class_of('Catalog')
        self.opts = {'auto_include': True} if self.auto else {}
        self.obj = S.obj(cls, options=self.opts, header={'name': S.text('owner')}, container_uuid=S.text('container'))
        include = [*self.head, str(len(self.entries)), *models.dcopy(self.entries), *self.tail]
        tasks = []
        S.dir(S.path('out', 'p'))
        S.call(self.obj.decode_include, S.path('src'), S.path('out'), 'p', tasks, include)
        want = [[n, [S.path('src'), u, S.path('out'), 'p/' + n, self.obj.container_uuid, self.opts]]
                for kind, n, uuids, datas in self.kinds if kind == 'own file' for u in uuids]
        S.eq('every object with a file of its own is to be taken apart, once, in the order of the table', tasks, want)
        S.eq('every object inside the table is taken apart, once', self.handed,
             [(n, u, 'p/' + n) for kind, n, uuids, datas in self.kinds if kind == 'inline' for u in uuids])
        for kind, n, uuids, datas in self.kinds:
            if kind in ('own file', 'inline'):
                S.eq('its type has a folder when there are objects', S.vm.models.fs.isdir(S.path('out', 'p', n)), bool(uuids))
        return include

    def built(self):
        """what the objects give, as collected in the order they were finished in"""
        S = self.S
        index, self.found = {}, {}
        for kind, n, uuids, datas in self.kinds:
            if kind in ('own file', 'inline') and uuids:
                names = [S.text('name', no='/', min=1) for u in uuids]
                S.distinct(*names)
                done = [(u, m, u if kind == 'own file' else d) for u, m, d in zip(uuids, names, datas)]
                order = S.pick('order', list(itertools.permutations(range(len(done)))))
                index[n] = [done[i] for i in order]
                self.found[n] = done
        return index


@theorem('the table of an unchanged extraction comes back as it was, with objects of types that are only kept, whatever order the objects are finished in', top=True,
         native=False, functions=[MO + '.decode_include', MO + '.fill_header_includes', MO + '.fill_header_include'],
         bounded='one or two types, up to three objects of the first and one of the second; identifiers, names and data of any content')
def same_table(S):
    t = Table(S, False, 3)
    include = t.take_apart()
    index = t.built()
    missing = S.flag('an object is missing') and [n for n in index]
    if missing:
        n = S.pick('of type', missing)
        index[n] = index[n][1:]
        if not index[n]:
            S.end()          # all objects of a type removed: undecided (DESIGN)
    cls = objects.class_of('Catalog')
    S.contract('MetaDataObject.core.Container:Container.get_decode_includes', lambda vm, cls, h: [include])
    b = S.obj(cls, options=t.opts, header={'header': S.opaque('header')})
    e = S.raises(b.fill_header_includes, index)
    if missing:
        S.check('the missing object is reported', e is not None)
        return
    S.check('no error', e is None, repr(e))
    S.eq('the same table', include, [*t.head, str(len(t.entries)), *t.entries, *t.tail])


@theorem('with a dynamic table every object found is listed once under its type, with the right count, sorted by name, whatever order the objects are finished in', top=True,
         native=False, functions=[MO + '.decode_include', MO + '.fill_header_includes', MO + '.fill_header_include'],
         bounded='one or two types, up to two objects of the first and one of the second, and one that was put there by hand; identifiers, names and data of any content')
def dynamic_table(S):
    import models
    ordered(S)
    t = Table(S, True, 2)
    include = t.take_apart()
    for (kind, n, uuids, datas), e in zip(t.kinds, include[3:]):
        if kind in ('own file', 'inline') and uuids:
            S.eq('the type is remembered', e, n)
    index = t.built()
    if index and S.flag('new objects'):          # put into the sources by hand
        n = S.pick('of type', list(index))
        d = ['new data']
        m = S.text('new name', no='/', min=1)
        for u, x, y in t.found[n]:
            S.distinct(x, m)
        new = (S.text('new uuid', min=36, max=36), m, d)
        index[n] = [new, *index[n]]
        t.found[n].append(new)
    cls = objects.class_of('Catalog')
    S.contract('MetaDataObject.core.Container:Container.get_decode_includes', lambda vm, cls, h: [include])
    b = S.obj(cls, options=t.opts, header={'header': S.opaque('header')})
    S.call(b.fill_header_includes, index)
    S.eq('as many entries', include[:3], [*t.head, str(len(t.entries))])
    S.eq('what follows is left', include[3 + len(t.entries):], t.tail)
    for (kind, n, uuids, datas), e, was in zip(t.kinds, include[3:], t.entries):
        if n not in t.found:
            S.eq('an entry the tool does not know is left', e, was)
            continue
        S.eq('the type', e[0], type_uuid(n))
        found = t.found[n]
        S.eq('the count', e[1], str(len(found)))
        S.eq('as many objects', len(e), len(found) + 2)
        rows = []
        for x in e[2:]:         # data of an object starts with a mark of its own here
            is_ = [f for f in found if x is f[2] or (x[0] == f[2][0] if isinstance(x, list) and isinstance(f[2], list) else not isinstance(x, list) and not isinstance(f[2], list) and S.truth(models.deq(x, f[2])))]
            S.eq('an object of the sources', len(is_), 1)
            S.eq('with its data', x, is_[0][2])
            rows.append(is_[0])
        for r in found:
            S.eq('each once', len([1 for q in rows if q is r]), 1)
        for p, q in zip(rows, rows[1:]):
            S.check('sorted by name', S.less(p[1], q[1]))


@theorem('results of finished objects are collected whole, whatever order they come in: the object under its owner and type, its files, its children', top=True,
         native=False, functions=['helper:run_in_pool_encode_include'])
def collected(S):
    import interp, models, sym
    from c18 import bar, pool_of, made_of
    from v8unpack.decoder import Decoder
    from v8unpack.ext_exception import ExtException
    bar(S)
    tasks = ['task']
    own = S.flag('a pool is given')
    p = pool_of(S, Decoder.encode_include, tasks, [sym.Rest('results', S.int('n', 0), None)])
    F, O, C, V = (sym.Rest(x, S.int('len' + x, 0)) for x in 'FOCV')
    state = S.pick('collected so far', [{}, {'owner': {}}, {'owner': {'Type': [V]}}, {'owner': {'Other': [V]}}, {'another': {'Type': [V]}}])
    fail, now = [], []

    def element():
        k = S.pick('result', ['nothing', 'object', 'object without data', 'waits for its children', 'something else', 'error'])
        if k == 'error':
            fail.append(S.call(ExtException, message=S.text('message', min=1)))
            raise fail[0]
        children = S.pick('children', [None, [], [S.opaque('c1'), S.opaque('c2')]])
        r = None
        if k.startswith('object'):
            r = dict(parent_id='owner', file_list=S.pick('files', [[], [S.opaque('f1'), S.opaque('f2')]]), obj_type='Type', obj_name=S.text('name'), obj_uuid=S.text('uuid', min=36),
                     obj_data=S.pick('data', [[S.opaque('d')], S.text('data', min=1)]) if k == 'object' else None)
        elif k == 'waits for its children':
            r = ['Type', [S.opaque('args')]]
        elif k == 'something else':
            r = 5
        now.append((k, r, children))
        return r, children

    def same(x, y):
        return x is y or isinstance(x, list) and isinstance(y, list) and S.truth(models.deq(x, y))

    def more(which):
        rest = {'file_list': F, 'object_task': O, 'child_tasks': C}[which]

        def after(old, new):
            k, r, children = now[0]
            want = {'file_list': list(r['file_list']) if isinstance(r, dict) else [], 'object_task': [r] if isinstance(r, list) else [], 'child_tasks': list(children or [])}[which]
            S.check('what was collected stays', sum(isinstance(x, sym.Rest) for x in new) == 1 and next(x for x in new if isinstance(x, sym.Rest)) == rest)
            others = [x for x in new if not isinstance(x, sym.Rest)]      # the order of the tasks and files does not matter
            S.eq(f'{which}: what the result adds, as much', len(others), len(want))
            S.check(f'{which}: what the result adds', all(any(same(x, y) for y in others) for x in want))
        return (lambda v: S.check('inv: nothing at first', v == []), lambda: [rest], after)

    def index_after(old, new):
        k, r, children = now[0]
        want = S.copy(old)
        if k == 'object':
            want.setdefault('owner', {}).setdefault('Type', []).append((r['obj_uuid'], r['obj_name'], r['obj_data']))
        S.check('the object is under its owner and type, after the others', shape(new) == shape(want), repr((new, want)))
        for a, b in zip(rows(new), rows(want)):
            S.eq('with its identifier, name and data', a, b)

    def shape(x):
        return {o: {t: len(v) for t, v in ts.items()} for o, ts in x.items()}

    def rows(x):
        return [r for o, ts in sorted(x.items()) for t, v in sorted(ts.items()) for r in v if not isinstance(r, sym.Rest)]
    S.loop('helper:run_in_pool_encode_include', interp.Loop(S, element=element, keep={
        'file_list': more('file_list'), 'object_task': more('object_task'), 'child_tasks': more('child_tasks'),
        'include_index': (lambda v: S.check('inv: nothing at first', v == {}), lambda: S.copy(state), index_after)}))
    r, e = S.attempt('helper:run_in_pool_encode_include', Decoder.encode_include, tasks, p if own else None, title='t')
    S.eq('the pool is used once', p.used, 1)
    S.eq('the pool is closed by the one who made it', p.closed, 0 if own else 1)
    if fail:
        S.check('the error of a worker is raised', e is not None and made_of(e, fail[0]))
    elif now and now[0][0] == 'something else':
        S.check('an unknown result is an error', e is not None)
    else:
        S.check('no other error', e is None, repr(e))
        S.check('all that was collected is given back', r[0] == [F] and r[2] == [O] and r[3] == [C] and shape(r[1]) == shape(state))


@theorem('every folder of an object in the sources becomes one task, under the type of the folder it lies in, and nothing else does', top=True, native=False,
         functions=[MO + '.encode_includes', MO + '.encode_get_include_obj'], bounded='two types, two objects of the first and one of the second, and files beside them; names of any content')
def found(S):
    import models
    ordered(S)
    src = S.path('sources')
    a, b, c = (S.text(n, no='/', min=1, isnt=('.', '..')) for n in ('a', 'b', 'c'))
    S.distinct(a, b)
    o, q = S.text('file', no='/', min=1, isnt=('.', '..')), S.text('another file', no='/', min=1, isnt=('.', '..'))
    for x in (a, b):
        S.distinct(o, x)
    S.file(src + '/Catalog/' + a + '/Catalog.json', b'')
    S.file(src + '/Catalog/' + b + '/Catalog.json', b'')
    S.file(src + '/Catalog/' + o, b'')
    S.file(src + '/Document/' + c + '/Document.json', b'')
    S.assume(not S.truth(S.starts(q, 'Catalog')) and not S.truth(S.starts(q, 'Document')))
    S.file(src + '/' + q, b'')
    obj = S.obj(objects.class_of('Catalog'), options={'k': 'v'}, container_uuid=S.text('container'))
    tasks = S.call(obj.encode_includes, src, S.text('name'), S.path('new'), 'owner')
    S.eq('as many tasks as objects', len(tasks), 3)
    for t, n in (('Catalog', a), ('Catalog', b), ('Document', c)):
        is_ = [x for x in tasks if x[0] == t and S.truth(models.deq(x[1][1], n))]
        S.eq('one task for each object', len(is_), 1)
        S.eq('with its arguments', is_[0][1], [src + '/' + t + '/' + n, n, S.path('new'), {'k': 'v'}, 'owner', obj.container_uuid, {}])


@theorem('a folder that is of no type is an error', native=False, functions=[MO + '.encode_includes'])
def found_unknown(S):
    src = S.path('sources')
    t = S.text('type', no='/ABCDEFGHIJKLMNOPQRSTUVWXYZ', min=1, isnt=('.', '..'))
    S.file(src + '/' + t + '/x/f', b'')
    obj = S.obj(objects.class_of('Catalog'), options={}, container_uuid='c')
    S.check('an error', S.raises(obj.encode_includes, src, 'n', S.path('new'), 'owner') is not None)


@theorem('taking apart goes on with exactly the objects found in the round before, until there are none', top=True, native=False, functions=['decoder:Decoder.decode'])
def rounds(S):
    import interp, sym, models
    from v8unpack.decoder import Decoder
    V, W = sym.Rest('V', S.int('lenV', 1)), sym.Rest('W', S.int('lenW', 0))
    calls = []

    class Root(models.Obj):
        def decode(self, src, dest):
            calls.append(('root', src, dest))
            return S.pick('at first', [[], [S.opaque('t')]])
    S.contract('decoder:Decoder.detect_version', lambda vm, cls, src, options=None: Root())

    def run(vm, method, tasks, pool=None, title=None, need_result=False):
        S.check('each object is taken apart by its class', method == Decoder.decode_include)
        S.check('the tasks of this round, all of them', len(tasks) == 1 and tasks[0] is V)
        S.check('their results are wanted', need_result)
        calls.append('round')
        return [W]
    S.contract('helper:run_in_pool', run)
    S.loop('decoder:Decoder.decode', interp.Loop(S, keep={'tasks': (
        lambda v: S.check('inv: the objects of the root', len(v) < 2), lambda: S.pick('left', [[V], []]),
        lambda old, new: S.check('the next round has what this one found', len(new) == 1 and new[0] is W and calls[-1] == 'round'))},
        leave=lambda env: S.eq('none is left', env.get('tasks'), [])))
    S.call(Decoder.decode, S.path('s1'), S.path('s3'), options={})
    S.eq('the root once', calls, [('root', S.path('s1'), S.path('s3'))])


def tree_of_objects(S):
    """a configuration: objects, some of them with objects of their own"""
    shape = S.pick('objects', [{}, {'a': {}}, {'a': {}, 'b': {}}, {'a': {'c': {}}}, {'a': {'c': {}}, 'b': {}}, {'a': {'c': {}}, 'b': {'d': {}}}, {'a': {'c': {}, 'd': {}}},
                               {'a': {'c': {'e': {}}}, 'b': {}}, {'a': {'c': {'e': {}}, 'd': {}}}])
    return shape


@theorem('building works off every object exactly once, an owner after all of its objects and with all of them; the root gets its own objects and all files', top=True,
         native=False, functions=['decoder:Decoder.encode', 'helper:run_in_pool_encode_include'], paths=20000,
         bounded='configurations of up to five objects in up to three levels, all orders of completion of up to three at a time')
def owners_last(S):
    import models
    from c18 import bar
    from v8unpack.decoder import Decoder
    bar(S)
    shape = tree_of_objects(S)
    src, new = S.path('s3'), S.path('new')
    log, files = [], {}

    def node(path):
        t = shape
        for p in path:
            t = t[p]
        return t

    def task(path, owner):
        return ['Type', ['dir ' + '/'.join(path), path[-1], new, {}, owner, 'container', {}]]

    def tasks(path, owner):
        return [task(path + (k,), owner) for k in node(path)]

    class Root(models.Obj):
        def encode_includes(self, s, file_name, dest, parent):
            return tasks((), parent)

        def get_container_uuid(self, h):
            return 'container'

        def get_class_name_without_version(self):
            return 'Root'

        def encode(self, s, dest, *, file_name=None, include_index=None, file_list=None):
            log.append(('root', include_index, file_list))
    root = Root()
    S.contract('decoder:Decoder.get_encoder', lambda vm, cls, s, options=None: 'Root')
    S.contract('decoder:Decoder.get_handler_by_version_file', lambda vm, cls_or=None, **k: root)
    S.contract('helper:json_read', lambda vm, path, name: {'header': S.opaque('header')})

    def encode(params):
        """contract of encode_include: an object that has objects and has not got them yet asks for them first"""
        t, (d, name, dest, options, owner, container, index) = params
        path = tuple(d[4:].split('/'))
        me = f'{owner}/{t}/{name}'
        if node(path) and not index:
            log.append(('asked', path))
            return ['Type', [d, name, dest, options, owner, container, {}]], tasks(path, me)
        log.append(('built', path, index))
        return dict(parent_id=owner, file_list=['f ' + d], obj_type=t, obj_name=name, obj_uuid='u ' + d, obj_data='data ' + d), None

    class SPool(models.Obj):
        def imap_unordered(self, f, it, chunksize=1):
            S.check('objects are built by their classes', f == Decoder.encode_include)
            it = list(it)
            for i in S.pick('order', list(itertools.permutations(range(len(it))))):
                yield encode(it[i])
        imap = map = imap_unordered
    pool = SPool()
    S.call(Decoder.encode, src, new, pool=pool, options={}, file_name='f')

    def paths(t, at=()):
        for k in t:
            yield at + (k,)
            yield from paths(t[k], at + (k,))
    everything = list(paths(shape))
    built = [x[1] for x in log if x[0] == 'built']
    S.eq('every object is built exactly once', sorted(built), sorted(everything))
    S.eq('the root is built once, last', [i for i, x in enumerate(log) if x[0] == 'root'], [len(log) - 1])
    for x in log:
        if x[0] == 'asked':
            continue
        path = x[1] if x[0] == 'built' else ()
        kids = sorted(node(path))
        got = x[2] if x[0] == 'built' else x[1]
        want = sorted(('u dir ' + '/'.join(path + (k,)), k, 'data dir ' + '/'.join(path + (k,))) for k in kids)
        S.eq('an owner gets exactly its objects', sorted((got or {}).get('Type', [])), want)
        S.check('and nothing of others', set(got or {}) <= {'Type'})
    S.eq('the root gets the files of all objects, each once', sorted(log[-1][2]), sorted('f dir ' + '/'.join(p) for p in everything))
