"""C07: the whole way"""
from thm import registry
import stages
T, theorem = registry()
ASSUMPTIONS = ['each stage undoes its counterpart: containers C01, streams C02, objects C08, C11, C12, C16, tables C09, sources C04, C05, C06, C15, C17']


@theorem('extracting hands exactly the result of each stage to the next one, clears only its own folders and leaves the input', top=True, native=False,
         functions=['v8unpack:extract'])
def extract_stages(S):
    stages.extraction(S)


@theorem('building hands exactly the result of each stage to the next one, clears only its own folders and leaves the sources', top=True, native=False,
         functions=['v8unpack:build'])
def build_stages(S):
    stages.building(S)


@theorem('the container that is taken apart is the last one; the other one is kept as it is and comes back at its place', top=True, native=False,
         functions=['decoder:decode', 'decoder:encode'])
def containers(S):
    import models
    two = S.flag('two containers')
    x, y = S.bytes('in the first'), S.bytes('in the second')
    n, n2 = S.text('name', no='/', min=1, isnt=('.', '..')), S.text('name of a folder', no='/', min=1, isnt=('.', '..'))
    S.distinct(n, n2)
    S.file(S.path('s1', '0', n), x)
    fs = S.vm.models.fs
    if two:
        S.file(S.path('s1', '0', n2, n), x)
        S.file(S.path('s1', '1', n), y)
    archives = {}

    def make(vm, base, kind, root_dir=None, base_dir=None, **k):
        """assumed contract of shutil.make_archive / unpack_archive: a file which holds the tree of the folder"""
        p = models.npath(base) + '.' + kind
        S.check('of the whole folder', root_dir is not None and base_dir is None)
        r = models.npath(root_dir) + '/'
        fs.add(p, b'archive')
        archives[repr(p)] = [(models.cut(e[0], len(r), None), e[1].content) for e in fs.files if models.starts(e[0], r)]
        return p

    def unpack(vm, file, extract_dir=None, format=None, **k):
        for q, c in archives[repr(models.npath(file))]:
            S.file(extract_dir + '/' + q, c)
    S.hook('shutil.make_archive', make)
    S.hook('shutil.unpack_archive', unpack)
    opts = {'k': S.text('v')}

    def decode(vm, cls, src, dest, *, pool=None, options=None):
        S.eq('the last container is taken apart', S.read(src + '/' + n), y if two else x)
        S.check('with the options', options is opts)
        models.m_rmtree(vm, dest, ignore_errors=True)
        S.file(dest + '/object', y if two else x)

    def encode(vm, cls, src, dest, *, pool=None, file_name=None, options=None):
        S.check('with the options', options is opts)
        S.eq('from the sources', S.read(src + '/object'), y if two else x)
        models.m_rmtree(vm, dest, ignore_errors=True)
        S.file(dest + '/' + n, S.read(src + '/object'))
    S.contract('decoder:Decoder.decode', decode)
    S.contract('decoder:Decoder.encode', encode)
    S.call('decoder:decode', S.path('s1'), S.path('s3'), pool=None, options=opts)
    if S.flag('stale'):
        S.file(S.path('new', '0', 'stale'), b'')
    S.call('decoder:encode', S.path('s3'), S.path('new'), pool=None, options=opts, file_name='f')
    new = [e[0] for e in fs.files if models.starts(e[0], S.path('new') + '/')]
    S.eq('as many files', len(new), 3 if two else 1)
    S.eq('the first container', S.read(S.path('new', '0', n)), x)
    if two:
        S.eq('with its folders', S.read(S.path('new', '0', n2, n)), x)
        S.eq('the second', S.read(S.path('new', '1', n)), y)


@theorem('a number of containers the tool does not know is an error', native=False, functions=['decoder:decode'])
def containers_unknown(S):
    S.dir(S.path('s1'))
    for i in range(S.pick('containers', [0, 3])):
        S.file(S.path('s1', str(i), 'f'), b'')
    S.contract('decoder:Decoder.decode', lambda vm, cls, *a, **k: None)
    S.check('an error', S.raises('decoder:decode', S.path('s1'), S.path('s3'), options={}) is not None)


@theorem('the kind and the version of the object are read from its files alike when extracting and building', top=True, native=False,
         functions=['decoder:Decoder.get_handler_by_version_file', 'decoder:Decoder.detect_version', 'decoder:Decoder.get_encoder'])
def kind_and_version(S):
    import objects, sym
    from v8unpack import decoder, helper
    from v8unpack.metadata_types import MetaDataTypes
    from v8unpack.MetaObject.ConfigurationExtension import ConfigurationExtension
    from v8unpack.MetaObject.ExternalDataProcessor import ExternalDataProcessor
    kind = S.pick('kind', ['Configuration', 'ConfigurationExtension', 'ExternalDataProcessor', 'ExternalReport', 'Catalog'])
    extension = kind == 'ConfigurationExtension'
    fmt = S.pick('format', ['216 and above', 'the oldest', 'another'])
    n = {'216 and above': lambda: S.decimal(S.int('number', 216)), 'the oldest': lambda: '106',
         'another': lambda: S.decimal(S.int('number', 107, 215))}[fmt]()
    plat = S.pick('platform', ['long', '1', '2', '7', None, 'more'])
    t = {'long': lambda: S.text('three', min=3, max=3) + S.text('rest'), None: lambda: None, 'more': lambda: '80316'}.get(plat, lambda: plat)()
    if extension and plat == 'long':
        t = S.pick('mode', ['803', '802']) + S.text('rest')
    ver = [n, '0'] + ([[t, '0']] if plat is not None else []) + (['0'] if plat == 'more' else [])
    fu, tree = S.text('file', no='/', min=36, max=36), [['0', '1', '2', [MetaDataTypes[kind].value if not extension else '0']]]
    files = {'configinfo': [['0', ver], ['2', fu]]} if extension else {'root': [['2', fu, '']], 'version': [[ver]], None: tree}
    S.dir(S.path('s1'))

    def read(vm, path, name):
        S.eq('its own files', path, S.path('s1'))
        if isinstance(name, str):
            return S.copy(files[name])
        S.eq('its header', name, fu)
        return S.copy(files[None])
    for k in files:
        S.file(sym.cat(S.path('s1'), '/', k or fu), b'x')
    S.contract('helper:brace_file_read', read)
    if extension:
        want = fmt == '216 and above' and plat == 'long' and S.truth(t[:3] == '803') and (ConfigurationExtension, t)
    elif fmt == 'the oldest':
        want = (ExternalDataProcessor, '801')
    else:
        want = fmt == '216 and above' and plat not in ('7', 'more') and kind != 'Catalog' and \
            (decoder.available_types[kind], t[:3] if plat == 'long' else '802')
    stored = {'version': ver, 'configinfo': files['configinfo'], 'header': tree} if extension else \
        {'version': files['version'], 'root': True, 'header': tree}
    o1, o2 = {}, {'prefix': 'p'}
    if want is False:
        S.check('extracting: an error', S.raises('decoder:Decoder.detect_version', S.path('s1'), options=o1) is not None)
        S.check('building: an error', S.raises('decoder:Decoder.get_handler_by_version_file', options=o2, **stored) is not None)
        return
    a = S.call('decoder:Decoder.detect_version', S.path('s1'), options=o1)
    b = S.call('decoder:Decoder.get_handler_by_version_file', options=o2, **stored)
    for r, o, name in ((a, o1, 'extracting'), (b, o2, 'building')):
        S.check(name + ': its class', type(r) is want[0])
        S.eq(name + ': its version', r.obj_version, want[1])
        S.eq(name + ': the objects in it see the version', o.get('obj_version'), want[1])
        S.check(name + ': the options are those given', r.options is o)
    S.eq('no option is lost', o2.get('prefix'), 'p')


@theorem('building takes the kind of the object from the file the extraction named after it', top=True, native=False, functions=['decoder:Decoder.get_encoder'])
def kind_kept(S):
    from v8unpack import decoder
    out = S.path('d3')
    there = S.pick('kept as', [*decoder.available_types, None])
    S.file(out + '/' + (there or S.text('another', no='/', min=36)) + '.json', b'{}')
    if there:
        S.eq('building finds what it is', S.call('decoder:Decoder.get_encoder', out, {}), there)
    else:
        S.check('an error', S.raises('decoder:Decoder.get_encoder', out, {}) is not None)
