"""The root object of a configuration, an extension and an external data processor or report: Decoder.decode and decoder.encode are
executed symbolically on arbitrary trees.  Contracts used: brace files (C03), modules (C11), pages (C16), tables (C09)."""
import objects
from objects import SRC, index, set_node, tree_of

KINDS = ('Configuration', 'ConfigurationExtension', 'ExternalDataProcessor', 'ExternalReport')
D3, S4 = 'd3', 's4'
MODE = {'Configuration': 26, 'ConfigurationExtension': 43}


def version_of(S, kind, case, mode):
    """what the platform writes: the version of the file format and of the platform"""
    if case.name != 'plain' or mode is not True:
        v = ['216', '0', ['80316', '0']]
        return v if kind == 'ConfigurationExtension' else [v]
    if kind == 'ConfigurationExtension':
        return S.pick('platform', [['216', '0', ['80316', '0']], ['217', '0', ['80327', '0']]])
    if kind == 'Configuration':
        return [S.pick('platform', [['216', '0', ['80316', '0']], ['217', '0', ['80203', '0']], ['216', '0']])]
    return [S.pick('platform', [['216', '0', ['80316', '0']], ['216', '0', ['2', '0']], ['106', '0']])]


def root_object(kind, case, faults=False):
    """case: the options and what becomes of the tree"""
    def theorem_fn(S):
        import models, sym
        from v8unpack import decoder
        from v8unpack.metadata_types import MetaDataTypes
        fs = S.vm.models.fs
        uuid, fu = S.text('uuid', no='/.', min=36, max=36), S.text('file uuid', no='/.', min=36, max=36)
        S.distinct(uuid, fu)
        S.ctx.total |= {'H!', 'uuid'}
        root = sym.Node('H!')
        if kind != 'ConfigurationExtension':
            set_node(S, index(S, root, 0, 3, 0), MetaDataTypes[kind].value)
        cls = decoder.available_types[kind]
        h = S.call(cls.get_decode_header, root)
        set_node(S, index(S, h, 1, 2), uuid)
        nm = S.text('name', no='"/', min=1)
        set_node(S, index(S, h, 2), sym.cat('"', nm, '"'))
        mode = case.files(S, kind)
        ver = version_of(S, kind, case, mode)
        comment = case.comment(S)
        set_node(S, index(S, h, 4), sym.cat('"', comment, '"'))
        stored = S.text('stored version', no='\r')
        if kind == 'ConfigurationExtension':
            set_node(S, index(S, root, 0, 3, 1, 1, 15), sym.cat('"', stored, '"'))
        trees = {}
        S.dir(S.path(SRC))

        def put(name, tree):
            c = S.bytes('f:' + name if isinstance(name, str) else 'f', min=1)
            sym.parts_of(c)[0].atom.info['brace'] = tree
            fs.files.append([sym.cat(S.path(SRC), '/', name), models.SData(c)])
            trees[name if isinstance(name, str) else repr(name)] = (name, tree)
        put(fu, root)
        copy = ['4', fu, *S.rest('copyinfo')]
        if kind == 'ConfigurationExtension':
            put('configinfo', [['0', ver], ['2', fu, *S.rest('copyinfo')], ['0', *S.rest('hashes')]])
        else:
            put('root', [['2', fu, '']])
            put('version', [ver])
            put('versions', [['1', *S.rest('versions')]])
            if kind != 'Configuration':
                put('copyinfo', [['4', *S.rest('copyinfo')]])
        src = objects.Source(S, uuid, fixed=mode)
        marked = objects.payload_shape(S, src, plain=mode is not True or case.name != 'plain')

        def shape(path, atom):
            n = sym.cut(path, sym.rlen(sym.cat(src.base, '/', src.uuid, '.')), None)
            if kind == 'Configuration' and n == '2':
                k = S.pick('splash', ['full', 'no text', 'no list', 'nothing', 'short']) if mode is True and case.name == 'plain' else 'full'
                x = {'full': lambda: [[marked(n), *S.rest('r')], *S.rest('s')], 'no text': lambda: [[''], *S.rest('s')],
                     'no list': lambda: [[], *S.rest('s')], 'nothing': lambda: []}
                return [[sym.Node('i0'), sym.Node('i1'), x[k](), *S.rest('t')]] if k != 'short' else [[sym.Node('i0')]]
            # a file with a tree has at least one list in it
            return [[sym.Node('T0:' + atom.name)], *S.rest('T:' + atom.name)]
        # information files that are folders are modules of the session, application and connection
        objects.brace_files(S, shape)
        objects.modules(S, src)
        objects.tables(S)
        objects.names2(S)
        objects.pages(S)
        out = S.path(D3)
        stage = objects.faulty(S) if faults else lambda S, name, f, *a, **k: S.call(f, *a, **k)
        stage(S, 'decode', decoder.Decoder.decode, S.path(SRC), out, pool=None, options={})
        before = dict(src.given)
        type_file = 'ExternalDataProcessor' if kind == 'ExternalReport' else kind
        from v8unpack import helper
        kept = S.call(helper.json_read, out, type_file + '.json')
        for k, v in (('uuid', uuid), ('name', nm), ('comment', comment)):
            S.eq(f'the sources say its {k}', kept.get(k), v)
        options, file_name, want = case.options(S, kind, root, comment, stored, out)
        if hasattr(case, 'gate'):
            case.gate(S, kept, out, type_file + '.json', options, file_name)
            return
        stage(S, 'encode', decoder.encode, out, S.path(S4), pool=None, options=options, file_name=file_name)
        new = S.path(S4, '0')
        # what is there
        t = S.read(sym.cat(new, '/', fu))
        S.check('the header file is written', t is not None and tree_of(t) is not None)
        S.eq('the header', tree_of(t), want)
        skip = ('versions', 'configinfo', repr(fu))
        for k, (name, tree) in trees.items():
            if k in skip:
                continue
            t = S.read(sym.cat(new, '/', name))
            S.check(f'{k} is written', t is not None)
            S.eq(f'{k}: the same tree', tree_of(t), tree)
        if kind == 'ConfigurationExtension':
            t = tree_of(S.read(new + '/configinfo'))
            S.eq('configinfo up to the list of hashes', t[:2], trees['configinfo'][1][:2])
        for k, c in before.items():
            w = S.read(sym.cat(new, '/', uuid, '.', k))
            S.check(f'file .{k} is written', w is not None)
            objects.same_file(S, f'file .{k}', c, w)
        pre = new + '/'
        written = [sym.cut(p, sym.rlen(pre), None) for p in [e[0] for e in fs.files] if sym.starts(p, pre)]
        S.eq('no other file is written', len(written), len(trees) + len(before))
        if kind != 'ConfigurationExtension':
            v = tree_of(S.read(new + '/versions'))[0]
            S.eq('the list of versions: format', v[0], '1')
            S.eq('the list of versions: its own record', v[2], '""')
            S.eq('the list of versions: count', v[1], str(len(written) + 1))
            S.eq('the list of versions: records', len(v), 2 * (len(written) + 1) + 2)
            listed = v[4::2]
            for x in written:
                S.check('every file is listed', any(S.truth(models.deq(sym.cat('"', x, '"'), y)) for y in listed), repr(x))
    theorem_fn.__name__ = f'root_{kind}_{case.name}' + ('_faults' if faults else '')
    return theorem_fn


def replaced(S, tree, path, value):
    """the tree with one part replaced"""
    import models
    t = models.dcopy(tree)
    S.vm.models.setitem(S.vm, index(S, t, *path[:-1]), path[-1], value)
    return t


class Plain:
    name = 'plain'

    def files(self, S, kind):
        n = {'Configuration': '02345679abcdef8', 'ConfigurationExtension': '56789a'}.get(kind, '01')
        names = [*n, '10'] if kind == 'Configuration' else list(n)
        return S.pick('files', [True, False, *[(True, x) for x in names], *[(False, x) for x in names]])

    def comment(self, S):
        return S.text('comment')

    def options(self, S, kind, root, comment, stored, out):
        return {}, None, root


class All(Plain):
    """every file of the object is there"""
    name = 'all'

    def files(self, S, kind):
        return True


class Options(Plain):
    """the options of the product: each one given or not"""
    name = 'options'

    def files(self, S, kind):
        return False

    def comment(self, S):
        k = S.pick('comment', ['no mark', 'mark', 'at the start'])
        if k == 'no mark':
            return S.text('comment', no='v')
        after = S.text('after', min=1)
        return 'ver:' + after if k == 'at the start' else S.text('before', no='v', min=1) + 'ver:' + after

    def options(self, S, kind, root, comment, stored, out):
        import models, sym
        ext, conf = kind == 'ConfigurationExtension', kind == 'Configuration'
        opts, want = {}, root
        hpath = {'Configuration': (0, 3, 1, 1, 1, 1), 'ConfigurationExtension': (0, 3, 1, 1, 1, 1)}.get(kind, (0, 3, 1, 1, 3, 1))
        if S.flag('mode'):
            opts['version'] = S.text('mode', min=1)
            if kind in MODE:
                want = replaced(S, want, (0, 3, 1, 1, MODE[kind]), opts['version'])
        if S.flag('prefix'):
            opts['prefix'] = S.text('prefix')
            if ext:
                want = replaced(S, want, (0, 3, 1, 1, 42), sym.cat('"', opts['prefix'], '"'))
        if S.flag('product'):
            opts['product'] = S.text('product', min=1)
        given = S.pick('product version', ['no', 'empty', 'yes'])
        pv = stored if ext else ''
        p = out + '/version.bin'
        fs = S.vm.models.fs
        if given != 'no':
            pv = S.text('product version', no='\r\n', min=1) if given == 'yes' else ''
            fs.remove(p) if fs.get(p) is not None else None
            fs.add(p, models.t_encode(S.vm, pv, 'utf-8') if given == 'yes' else b'')
        if ext:
            v = sym.cat(opts['product'], '_', pv) if 'product' in opts else pv
            want = replaced(S, want, (0, 3, 1, 1, 15), sym.cat('"', v, '"'))
        file_name = S.text('file name', min=1) if S.flag('file name') else None
        if not conf and file_name is not None and given != 'empty' and (given == 'yes' or ext and S.truth(S.len(stored) > 0)):
            i = models.t_find(S.vm, comment, 'ver:')
            if S.truth(i >= 0):
                want = replaced(S, want, (*hpath, 4), sym.cat('"', sym.cut(comment, 0, i + 3), ':', file_name, ':', pv, '"'))
        return opts, file_name, want


class Gate(Plain):
    """sources of another version of the tool, whatever the options"""
    name = 'gate'

    def files(self, S, kind):
        return False

    def options(self, S, kind, root, comment, stored, out):
        o = S.pick('options', [None, 'version', 'prefix', 'product', 'product_version'])
        return {o: S.text('option', min=1)} if o else {}, S.text('file name', min=1) if o == 'product_version' else None, None

    def gate(self, S, kept, out, name, options, file_name):
        from v8unpack import decoder, helper
        from v8unpack.version import __version__
        S.eq('the sources say the version of the tool', kept.get('v8unpack'), __version__)
        a, b, c = (int(x) for x in __version__.split('.'))
        k = S.pick('made by', ['the same', 'another patch', 'major', 'minor', 'older minor', 'minor of more digits', 'not said', 'two parts'])
        v = {'the same': __version__, 'another patch': f'{a}.{b}.{c + 7}', 'major': f'{a + 1}.{b}.{c}', 'minor': f'{a}.{b + 1}.{c}', 'older minor': f'{a}.{b - 1}.{c}' if b else f'{a - 1}.{b}.{c}',
             'minor of more digits': f'{a}.{b}1.{c}', 'not said': None, 'two parts': f'{a}.{b}'}[k]
        kept = dict(kept)
        kept.pop('v8unpack')
        S.call(helper.json_write, kept if v is None else dict(kept, v8unpack=v), out, name)
        r, err = S.attempt(decoder.encode, out, S.path(S4), pool=None, options=options, file_name=file_name)
        if k in ('the same', 'another patch'):
            S.check('sources of the same major and minor version are built', err is None, repr(err))
        else:
            S.check('other sources are refused', err is not None, f'{__version__} built sources of {v}')
            S.check('and the error says what the versions are', k in ('not said', 'two parts') or any(f'{a}.{b}' in x for x in said(err)), str(said(err)))


def said(err):
    """the texts an error and its causes carry"""
    out, seen = [], []
    while err is not None and not any(err is x for x in seen):
        seen.append(err)
        out += [x for x in (*err.args, *vars(err).values()) if isinstance(x, str)]
        err = getattr(err, 'parent', None) or err.__cause__ or err.__context__
    return out
