"""C18: failures"""
from thm import registry
import objects
T, theorem = registry()
ASSUMPTIONS = []
OWN, INLINE, _, _ = objects.names()
for n in OWN:
    theorem(f'{n}: whatever operation on files fails while it is taken apart or put together, the failure is reported', top=True, native=False)(
        objects.own_object(n, objects.CASES[4:5], fixed=True, say=False, faults=True))
for n in INLINE:
    theorem(f'{n}: whatever operation on files fails while it is taken apart or put together, the failure is reported', top=True, native=False)(
        objects.inline_object(n, objects.CASES[:1], say=False, faults=True))
import roots
for k in roots.KINDS:
    theorem(f'{k}: whatever operation on files fails while the root object is taken apart or put together, the failure is reported', top=True, native=False,
            functions=['decoder:decode', 'decoder:encode'])(roots.root_object(k, roots.All(), faults=True))
import stages


@theorem('a stage of an extraction that fails, with any error, ends it with an error that says so, and no later stage runs', top=True, native=False,
         functions=['v8unpack:extract'])
def extract_fails(S):
    stages.extraction(S, True)


@theorem('a stage of a build that fails, with any error, ends it with an error that says so, and no later stage runs', top=True, native=False,
         functions=['v8unpack:build'])
def build_fails(S):
    stages.building(S, True)


def what_fails(S, ext=True):
    from v8unpack.ext_exception import ExtException
    k = S.pick('error', ['OSError', 'KeyError', 'FileNotFoundError', 'IndexError', 'AssertionError', 'UnicodeDecodeError'] + (['ExtException'] if ext else []))
    if k == 'ExtException':
        return S.call(ExtException, message=S.text('message', min=1), detail=S.text('detail'))
    return {'OSError': OSError, 'KeyError': KeyError, 'FileNotFoundError': FileNotFoundError, 'IndexError': IndexError, 'AssertionError': AssertionError,
            'UnicodeDecodeError': lambda w: UnicodeDecodeError('utf-8', b'x', 0, 1, w)}[k]('what failed')


def made_of(e, first):
    """the error is made of what failed, through any number of wrappers that say nothing else"""
    seen = 0
    while e is not None and e is not first and seen < 20:
        g = getattr(e, 'ghost', None)
        if not g or g.get('message'):
            return False
        e, seen = g.get('parent'), seen + 1
    return e is first


class Results:
    """what a pool gives back: any number of results, then the end or the error of a worker"""


def bar(S):
    import models

    class Bar(models.Obj):
        def update(self, n=1):
            pass

        def sym_enter(self):
            return self
    b = Bar()
    type(b).__enter__ = lambda self: self
    type(b).__exit__ = lambda self, *a: False
    S.hook('v8unpack.helper.tqdm', lambda vm, *a, **k: b)


def pool_of(S, method, tasks, results):
    import models

    class SPool(models.Obj):
        closed = used = 0

        def imap_unordered(self, f, it, chunksize=1):
            S.check('the work is the one given', f == method)
            S.check('the tasks are the ones given', it is tasks or list(it) == tasks)
            self.used += 1
            return results
        imap = map = imap_unordered

        def close(self):
            self.closed += 1

        def join(self):
            pass
    p = SPool()
    S.contract('helper:get_pool', lambda vm, *, pool=None, processes=None: p if pool is None else pool)
    return p


@theorem('work given to the pool: every task is done, every result is handed back, and the error of any worker is raised; any number of tasks',
         top=True, native=False, functions=['helper:run_in_pool'])
def pool_results(S):
    import interp, sym
    from v8unpack.ext_exception import ExtException
    from v8unpack.decoder import Decoder
    bar(S)
    tasks = ['task']
    own = S.flag('a pool is given')
    need = S.flag('results are wanted')
    V = sym.Rest('V', S.int('lenV', 0))
    fail = []
    p = pool_of(S, Decoder.decode_include, tasks, [sym.Rest('results', S.int('n', 0), None)])
    got = []

    def element():
        k = S.pick('result', ['nothing', 'no tasks', 'tasks', 'error', 'another error'])
        if k == 'error':
            fail.append(S.call(ExtException, message=S.text('message', min=1), detail=S.text('detail')))
            raise fail[0]
        if k == 'another error':
            fail.append(OSError('what failed'))
            raise fail[0]
        got.append({'nothing': None, 'no tasks': [], 'tasks': ['a', 'b']}[k])
        return got[0]

    def after(old, new):
        S.check('what was collected stays', new[:1] == [V])
        S.eq('the result is collected', new[1:], list(got[0] or []) if need else [])
    S.loop('helper:run_in_pool', interp.Loop(S, element=element, keep={
        'result': (lambda v: S.check('inv: nothing at first', v == []), lambda: [V], after)}))
    r, e = S.attempt('helper:run_in_pool', Decoder.decode_include, tasks, p if own else None, title='t', need_result=need)
    S.eq('the pool is used once', p.used, 1)
    S.eq('the pool is closed by the one who made it', p.closed, 0 if own else 1)
    if fail:
        S.check('the error of a worker is raised', e is not None and made_of(e, fail[0]))
    else:
        S.check('no other error', e is None, repr(e))
        S.check('all that was collected is given back', r == [V])


@theorem('taking apart or building an included object: whatever fails, the error is raised and says what failed; the arguments go to its class', top=True, native=False,
         functions=['decoder:Decoder.decode_include', 'decoder:Decoder.encode_include'])
def include_fails(S):
    import models
    from v8unpack.decoder import Decoder
    from v8unpack.ext_exception import ExtException
    err = what_fails(S)
    way = S.pick('way', ['decode', 'encode'])
    at = S.pick('what fails', ['nothing', 'class', 'method'])
    calls = []

    class Handler(models.Obj):
        def decode(self, *a, **k):
            calls.append(('decode', a, k))
            if at == 'method':
                raise err
            return result

        def encode(self, *a, **k):
            calls.append(('encode', a, k))
            if at == 'method':
                raise err
            return result

    def find(vm, name):
        S.eq('the class is that of the type', name, 'Type')
        if at == 'class':
            raise err
        return Handler()
    S.contract('helper:get_class_metadata_object', find)
    result = [object(), object()]
    args = [object() for i in range(7)]
    if way == 'decode':
        args = args[:6]
        f = Decoder.decode_include
    else:
        f = Decoder.encode_include
    r, e = S.attempt(f, ['Type', tuple(args)])
    if at != 'nothing':
        S.check('the error says what failed', isinstance(e, ExtException) and made_of(e, err), repr(e))
        return
    S.check('no error', e is None, repr(e))
    S.check('the result is that of the class', list(r) == result)
    name, a, k = calls[0]
    S.eq('the method', name, way)
    S.check('the arguments', a[:4] == tuple(args[:4]) if way == 'decode' else a[:3] == tuple(args[:3]))
    import inspect
    for n in OWN + INLINE:
        real = getattr(objects.class_of(n), way, None)
        if real is None or way == 'decode' and n in INLINE:     # taken apart with its owner
            continue
        try:
            b = inspect.signature(real).bind(*a, **k).arguments
        except TypeError as x:
            S.check(f'the arguments fit {n}', False, repr(x))
        if way == 'decode':
            S.check(f'the options, the type and the owner, {n}', (b.get('options'), b.get('parent_type'), b.get('parent_container_uuid')) == (args[5], 'Type', args[4]), repr(b))
        else:
            S.check(f'all arguments, {n}', all(any(x is y for y in b.values()) for x in args))


@theorem('the text of an error says what failed, however often it is wrapped on its way up', top=True, native=False,
         functions=['ext_exception:ExtException.__init__', 'ext_exception:ExtException.__str__', 'ext_exception:ExtException.title'])
def error_text(S):
    import models, sym
    from v8unpack.ext_exception import ExtException
    S.vm.models.constructor = lambda cls: None           # the real class
    S.vm.real_errors = True
    S.contract('ext_exception:ExtException.get_sys_exc_info', lambda vm, self: S.pick('where', [None, {'message': 'OSError', 'detail': S.text('detail'), 'traceback': S.text('place')}]))
    text = S.text('what failed', min=1)
    first = S.pick('first', ['OSError', 'Exception', 'ExtException', 'with a detail'])
    action = lambda n: {'action': S.text(n, min=1)} if S.flag(n + ' given') else {}
    if first in ('OSError', 'Exception'):
        e = S.call(ExtException, parent={'OSError': OSError, 'Exception': Exception}[first](text), **action('action'))
    elif first == 'ExtException':
        e = S.call(ExtException, message=text, **action('action'))
    else:
        e = S.call(ExtException, message=S.text('message', min=1), detail=text, **action('action'))
    said = lambda e: sym.cat('', S.call(str, e))
    S.check('it says what failed', S.truth(sym.contains(said(e), text)))
    before = (e.message, e.detail, e.code)
    # one more wrapper keeps message, detail and code: so does any number of them
    w = S.call(ExtException, parent=e, **action('second action'))
    S.check('a wrapper keeps what it wraps', [w.message, w.detail, w.code] == list(before) or S.truth(models.deq([w.message, w.detail, w.code], list(before))))
    S.check('so it says what failed', S.truth(sym.contains(said(w), text)))
    S.eq('the wrapped error is as it was', [e.message, e.detail, e.code], list(before))


def direct(S):
    """the pool works off its tasks at once (its own contract: pool_results)"""
    def run(vm, method, tasks, pool=None, title=None, need_result=False):
        out = []
        for t in vm.listed(tasks):
            r = S.call(method, t)
            if need_result and r:
                out += r
        return out
    S.contract('helper:run_in_pool', run)


@theorem('containers: whatever operation on files fails while they are written or read, the failure is reported', top=True, native=False, paths=20000,
         functions=['container_writer:build', 'container_reader:extract'], bounded='one file of up to 100 bytes')
def container_faults(S):
    from c01 import silent, appended
    silent(S)
    appended(S)
    name = S.text('name', no='\0\ufeff\ufffe/', min=1, max=40, isnt=('.', '..'))
    S.file(S.path('src', '0', name), S.bytes('x', max=100, min=1))
    if S.flag('write'):
        objects.one_fault(S, 'build', 'container_writer:build', S.path('src'), S.path('out', 'f.cf'), True)
    S.call('container_writer:build', S.path('src'), S.path('out', 'f.cf'), True)
    objects.one_fault(S, 'extraction', 'container_reader:extract', S.path('out', 'f.cf'), S.path('dest'), False, False)


@theorem('streams: whatever operation on files fails while they are packed or unpacked, the failure is reported', top=True, native=False, paths=20000,
         functions=['container_writer:compress_and_build', 'container_reader:decompress_and_extract'], bounded='one file and a sub-folder of one file')
def stream_faults(S):
    from c01 import silent, appended
    from c02 import packer
    silent(S)
    appended(S)
    packer(S)
    direct(S)
    n1, n2 = 'root', 'folder'
    n3 = S.text('name', no='\0\ufeff\ufffe/', min=1, max=40, isnt=('.', '..', 'configinfo'))
    S.file(S.path('in', '0', n1), S.bytes('x'))
    S.file(S.path('in', '0', n2, n3), S.bytes('y', max=100))
    if S.flag('configinfo'):
        S.file(S.path('in', '0', 'configinfo'), b'{____versions____}')
    objects.one_fault(S, 'packing', 'container_writer:compress_and_build', S.path('in'), S.path('out'))


@theorem('sources: whatever operation on files fails while they are laid out or collected, the failure is reported', top=True, native=False, paths=20000,
         functions=['organizer_file:OrganizerFile.unpack', 'organizer_file:OrganizerFile.pack', 'organizer_code:OrganizerCode.unpack', 'organizer_code:OrganizerCode.pack'],
         bounded='one file, one module without areas, each in a folder')
def organizer_faults(S):
    d = S.pick('version', [None, 5])
    cls = 'organizer_file_ce:OrganizerFileCE' if d else 'organizer_file:OrganizerFile'
    direct(S)
    out = S.path('w', 'p', 'src') + ('/v' if d else '')
    index = S.pick('index', [None, {'A': {'f.bin': 'lib/f.bin'}}])
    S.file(S.path('s3', 'A', 'f.bin'), S.bytes('f'))
    S.file(S.path('s3', 'A', 'm.bsl'), S.utf8(S.text('module', only='abcdefg', min=1)))
    S.dir(out)
    if S.flag('unpack'):
        if d and S.flag('an older version'):
            S.file(out + '/A/f.4.bin', S.bytes('old f'))
            S.file(out + '/A/m.bsl', S.utf8(S.text('old module', only='abcdefg', min=1)))
        objects.one_fault(S, 'unpacking', cls + '.unpack', S.path('s3'), out, index=index, descent=d)
    S.call(cls + '.unpack', S.path('s3'), out, index=index, descent=d)
    objects.one_fault(S, 'packing', cls + '.pack', out, S.path('new'), index=index, descent=d)


@theorem('reading and writing a file: it succeeds with the whole content, or ends with an error, whichever operation fails, once or from then on', top=True, native=False,
         paths=20000, functions=['helper:txt_write', 'helper:txt_read', 'helper:json_write', 'helper:json_read', 'helper:bin_write', 'helper:bin_read', 'helper:brace_file_write',
                                 'helper:brace_file_read', 'helper:makedirs', 'helper:txt_read_detect_encoding', 'helper:detect_by_bom'])
def files_whole(S):
    import models, sym
    S.hook('time.sleep', lambda vm, *a: None)
    kind = S.pick('kind', ['txt', 'json', 'bin', 'makedirs'])
    where, name = S.path('d', 'e'), 'f.x'
    there = S.pick('there is', ['nothing', 'the folder', 'an older file'])
    if there != 'nothing':
        S.dir(where)
    if there == 'an older file':
        S.file(where + '/' + name, S.bytes('old', min=1))
    m = S.vm.models
    m.fault = {'err': S.pick('error', [OSError, PermissionError]), 'lasting': PermissionError}
    data = {'txt': lambda: S.text('text', no=('\r', '\ufeff'), min=1), 'json': lambda: {'a': S.text('value')}, 'bin': lambda: S.bytes('data', min=1),
            'makedirs': lambda: None}[kind]()
    if kind == 'makedirs':
        r, e = S.attempt('helper:makedirs', where, exist_ok=True)
        hit, m.fault = m.fault.get('hit'), None
        S.check('an error, or the folder is there', e is not None or m.fs.isdir(where), repr(hit))
        S.check('without a failure there is no error', hit or e is None, repr(e))
        return
    r, e = S.attempt(f'helper:{kind}_write', data, where, name)
    hit, m.fault = m.fault.get('hit'), None
    S.check('without a failure there is no error', hit or e is None, repr(e))
    if e is None:
        got = S.call(f'helper:{kind}_read', where, name)
        S.eq('an error, or what was written is there', got, data)
    if hit:
        return
    m.fault = {'err': S.pick('error', [OSError, PermissionError]), 'lasting': PermissionError}
    r, e = S.attempt(f'helper:{kind}_read', where, name)
    hit, m.fault = m.fault.get('hit'), None
    S.check('without a failure there is no error', hit or e is None, repr(e))
    if e is None:
        S.eq('an error, or what was read is what is there', r, data)


def json_text(S, name, value):
    """a text that is the given value to json.load"""
    t = S.text(name, no=('\r', '\ufeff'), min=2)
    t.parts[0].atom.info['json'] = value
    return S.utf8(t)


@theorem('an index that cannot be read whole, with all the files it names, ends the command before anything is done; otherwise nothing of it is lost', top=True, native=False,
         functions=['helper:check_index', 'helper:load_json', 'helper:update_dict', 'helper:_update_dict'], bounded='an index that names up to two others')
def index_read(S):
    import models
    from v8unpack.ext_exception import ExtException
    n = S.pick('other files', [None, 0, 1, 2])
    names = [S.path(f'index{i}.json') for i in range(n or 0)]
    main = S.path('index.json')
    entries = [S.text(f'entry{i}', min=1) for i in range(3)]
    bad = S.pick('wrong', ['nothing', 'missing', 'not a dictionary', 'no json', 'fault'])
    at = S.pick('which', [main, *names]) if bad != 'nothing' else None
    for i, p in enumerate([main, *names]):
        value = {f'key{i}': entries[i], 'folder': {f'inner{i}': entries[i]}}
        if i == 0 and n is not None:
            value['index.json'] = list(names)
        if p == at and bad == 'missing':
            continue
        if p == at and bad == 'no json':
            S.file(p, b'{')
        elif p == at and bad == 'not a dictionary':
            S.file(p, json_text(S, f'json{i}', ['x']))
        else:
            S.file(p, json_text(S, f'json{i}', value))
    m = S.vm.models
    if bad == 'fault':
        m.fault = {'err': OSError}
    r, e = S.attempt('helper:check_index', main)
    if bad == 'fault':
        hit, m.fault = m.fault.get('hit'), None
        if not hit:
            S.end()
    if bad != 'nothing':
        S.check('the error is reported', isinstance(e, ExtException), repr((bad, r, e)))
        return
    S.check('no error', e is None, repr(e))
    for i, p in enumerate([main, *names]):
        S.eq('every entry is there', [r.get(f'key{i}'), r.get('folder', {}).get(f'inner{i}')], [entries[i], entries[i]])
    S.eq('and nothing else', [len(r), len(r['folder'])], [1 + len(names) + 1, 1 + len(names)])


COMMANDS = {'build_all': 'v8unpack:build', 'extract_all': 'v8unpack:extract', 'update_index_all': 'index:update_index'}


@theorem('a command for several products works off every one that is not switched off, with its own settings; whatever fails for one of them ends it with an error that says so',
         top=True, native=False, functions=['v8unpack:build_all', 'v8unpack:extract_all', 'v8unpack:update_index_all', 'helper:load_json'], bounded='up to two products', paths=20000)
def products(S):
    from v8unpack.ext_exception import ExtException
    which = S.pick('command', list(COMMANDS))
    n = S.choose('products', 3)
    off = [S.pick('switched off', [None, False, True]) for i in range(n)]
    full = S.flag('all settings')
    prod = {}
    vals = []
    for i in range(n):
        v = {k: S.text(f'{k}{i}', min=1) for k in ('src', 'bin')}
        if full:
            v.update({k: S.text(f'{k}{i}', min=1) for k in ('temp', 'index')})
            v['options'] = {'prefix': S.text(f'prefix{i}', min=1)}
        vals.append(v)
        prod[f'p{i}'] = dict(v, **({} if off[i] is None else {'disable': off[i]}))
        if 'options' in v:
            prod[f'p{i}']['options'] = dict(v['options'])
    bad = S.pick('wrong', ['nothing', 'no file', 'no json', 'no such product', 'a product fails'])
    code = S.pick('only', [None] + [f'p{i}' for i in range(n)]) if bad != 'no such product' else 'another'
    name = S.path('products.json')
    if bad != 'no file':
        S.file(name, b'{' if bad == 'no json' else json_text(S, 'json', prod))
    todo = [i for i in range(n) if (not off[i] if code is None else code == f'p{i}')]
    if bad == 'a product fails':
        if not todo:
            S.end()
        at = S.pick('which', list(range(len(todo))))
        err = S.pick('error', [OSError('what failed'), KeyError('what failed'), S.call(ExtException, message=S.text('message', min=1))])
    dest = S.text('dest')
    seen = []

    def work(vm, *a, **k):
        i = todo[len(seen)] if len(seen) < len(todo) else None
        S.check('only the products that are to be worked off', i is not None)
        v = vals[i]
        seen.append(i)
        if which == 'update_index_all':
            S.eq('its sources, its index, the folder', list(a), [v['src'], v.get('index'), dest])
        else:
            S.eq('its input and output', list(a), [v['src'], v['bin']] if which == 'build_all' else [v['bin'], v['src']])
            S.eq('its temporary folder, index, number of workers', [k.get('temp_dir'), k.get('index'), k.get('processes')], [v.get('temp'), v.get('index'), 3])
            o = k.get('options') or {}
            S.eq('its options', o.get('prefix'), v['options']['prefix'] if full else None)
            S.eq('and its name', o.get('product'), f'p{i}' if which == 'build_all' else None)
        if bad == 'a product fails' and len(seen) - 1 == at:
            raise err
    S.contract(COMMANDS[which], work)
    r, e = S.attempt('v8unpack:' + which, name, code, dest if which == 'update_index_all' else 3)
    if bad == 'nothing':
        S.check('no error', e is None, repr(e))
        S.eq('every product', seen, todo)
        return
    S.check('it ends with an error', isinstance(e, ExtException), repr((bad, e)))
    if bad == 'a product fails':
        S.check('the error says what failed', made_of(e, err), repr(e))
        S.eq('in order', seen, todo[:at + 1])


@theorem('the command line: it ends with 0 when its work is done, and with another code and the text of the error when anything fails; the arguments are handed on', top=True,
         native=False, functions=['v8unpack:main', '__main__:<module>'])
def command_line(S):
    import argparse, models, sys
    from v8unpack.ext_exception import ExtException
    import v8unpack.v8unpack as V
    S.vm.models.constructor = lambda cls: None           # the real class
    S.vm.real_errors = True
    S.contract('ext_exception:ExtException.get_sys_exc_info', lambda vm, self: None)
    which = S.pick('command', ['-E', '-B', '-EA', '-BA', '-I', '-IA'])
    extra = S.pick('options', [[], ['--index', 'i.json'], ['--temp', 't', '--prefix', 'пр'], ['--descent', '7', '--auto_include', '--core', 'c']])
    argv = ['v8unpack', which, *(['a/x', 'b/y'] if which in ('-E', '-B') else ['a/x']), *extra]
    real = argparse.ArgumentParser()

    class Parser(models.Obj):
        def __init__(self, p):
            self.p = p

        def add_mutually_exclusive_group(self, **k):
            return Parser(self.p.add_mutually_exclusive_group(**k))

        def add_argument(self, *a, **k):
            return self.p.add_argument(*a, **k)

        def parse_args(self, args=None):
            return self.p.parse_args(argv[1:] if args is None else args)

        def print_help(self):
            pass
    S.hook('argparse.ArgumentParser', lambda vm, **k: Parser(real))
    said = []
    S.hook('builtins.print', lambda vm, *a, **k: said.append(a))
    text = S.text('what failed', min=1)
    fails = S.pick('fails', ['nothing', 'OSError', 'Exception', 'ExtException', 'wrapped'])
    calls = []

    def work(name):
        def f(vm, *a, **k):
            calls.append((name, a, k))
            if fails in ('OSError', 'Exception'):
                raise {'OSError': OSError, 'Exception': Exception}[fails](text)
            if fails != 'nothing':
                e = S.call(ExtException, message=text)
                raise S.call(ExtException, parent=e) if fails == 'wrapped' else e
        return f
    for n in ('extract', 'build', 'extract_all', 'build_all', 'update_index_all'):
        S.contract('v8unpack:' + n, work(n))
    S.contract('index:update_index', work('update_index'))
    real_argv = sys.argv
    sys.argv = argv
    try:
        r, e = S.attempt('v8unpack:main')
    finally:
        sys.argv = real_argv
    S.check('no error of its own', e is None, repr(e))
    S.eq('one command', [c[0] for c in calls], [{'-E': 'extract', '-B': 'build', '-EA': 'extract_all', '-BA': 'build_all', '-I': 'update_index', '-IA': 'update_index_all'}[which]])
    name, a, k = calls[0]
    if which in ('-E', '-B'):
        S.check('the names, in their order', [x.endswith(y) for x, y in zip(a, ('a/x', 'b/y'))] == [True, True] and len(a) == 2, repr(a))
        S.eq('the index and the temporary folder', [k.get('index'), k.get('temp_dir')], ['i.json' if '--index' in extra else None, 't' if '--temp' in extra else None])
        o = k.get('options') or {}
        S.eq('the options', [o.get('prefix'), o.get('descent'), bool(o.get('auto_include'))],
             ['пр' if '--prefix' in extra else None, 7 if '--descent' in extra else None, '--auto_include' in extra])
    else:
        S.eq('the name', a[0], 'a/x')
        if which in ('-I', '-IA'):
            S.eq('the index and the folder', list(a[1:]), ['i.json' if '--index' in extra else None, 'c' if '--core' in extra else None])
    if fails == 'nothing':
        S.check('it ends with 0', r is None or r == 0, repr(r))
    else:
        S.check('it ends with another code', isinstance(r, int) and r != 0, repr(r))
        S.check('and says what failed', any(S.truth(S.contains(x, text)) for y in said for x in y if not isinstance(x, int)), repr(said))


MO = 'MetaObject:MetaObject'


@theorem('a table of included objects that lists an object which is not there, or that cannot be filled, ends the building of its owner with an error', top=True, native=False,
         functions=[MO + '.fill_header_includes', MO + '.fill_header_include'], bounded='one or two types, up to two objects')
def table_fails(S):
    import objects
    from v8unpack.metadata_types import MetaDataTypes
    names = ['Catalog', 'CatalogCommand'][:S.pick('types', [1, 2])]
    entries, index = [], {}
    for n in names:
        k = S.pick('objects of ' + n, [1, 2])
        us = [S.text(f'uuid{n}{i}', no='/."', min=36, max=36) for i in range(k)]
        S.distinct(*us)
        S.distinct(*[S.lower(u) for u in us])
        entries.append([MetaDataTypes[n].value, str(k), *us])
        index[n] = [(u, S.text(f'name{n}{i}'), u) for i, u in enumerate(us)]
    include = [S.opaque('h0'), S.opaque('h1'), str(len(names)), *entries]
    bad = S.pick('wrong', ['nothing', 'no count', 'count too big', 'an entry without a count', 'count of objects too big', 'not an identifier', 'an object is not there', 'no tables'])
    at = S.choose('which', len(names))
    e = entries[at]
    if bad == 'no count':
        del include[2:]
    elif bad == 'count too big':
        include[2] = str(len(names) + 1)
    elif bad == 'an entry without a count':
        del e[1:]
    elif bad == 'count of objects too big':
        e[1] = str(len(e) - 1)
    elif bad == 'not an identifier':
        e[2] = [S.opaque('data')]
    elif bad == 'an object is not there':
        if len(index[names[at]]) < 2:
            S.end()      # all objects of a type removed: undecided (DESIGN)
        del index[names[at]][S.choose('the one', 2)]
    cls = objects.class_of('Catalog')

    def tables(vm, cls, header):
        if bad == 'no tables':
            raise IndexError('list index out of range')
        return [include]
    S.contract('MetaDataObject.core.Container:Container.get_decode_includes', tables)
    err = S.raises(S.obj(cls, options={}, header={'header': S.opaque('header')}).fill_header_includes, index)
    S.check('an error, exactly when it cannot be filled', (err is None) == (bad == 'nothing'), repr((bad, err)))
