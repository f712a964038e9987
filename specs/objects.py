"""One metadata object taken apart and put together again: the methods decode and encode of every class of MetaDataTypes are
executed symbolically on an arbitrary header tree and arbitrary files of the object.  Contracts used on the way: reading and
writing of brace files (C03), of module texts (C11), the tables of included objects (C09)."""
import importlib

from thm import fn_of

SRC, OUT, NEW = 'src', 'sources', 'new'
PAYLOADS = {}


def class_of(name):
    m = importlib.import_module('v8unpack.MetaDataObject.' + name)
    return getattr(m, name)


def names():
    """the classes of objects, by kind"""
    from v8unpack.metadata_types import MetaDataTypes
    from v8unpack.MetaDataObject.core.IncludeSimple import IncludeSimple
    from v8unpack.MetaDataObject.core.IncludeEmpty import IncludeEmpty
    own, inline, forms, none = [], [], [], []
    for t in MetaDataTypes:
        try:
            c = class_of(t.name)
        except (ImportError, AttributeError):
            none.append(t.name)
            continue
        if 'Form' in t.name and any('Form' in b.__module__ for b in c.__mro__[1:-1]) or t.name == 'Form':
            forms.append(t.name)
        elif issubclass(c, IncludeEmpty):
            none.append(t.name)
        elif issubclass(c, IncludeSimple):
            inline.append(t.name)
        else:
            own.append(t.name)
    return own, inline, forms, none


class Source:
    """the unpacked files of one object: any of them may be there, be a folder, or be missing, decided when the code looks"""
    def __init__(self, S, uuid, folder=(), fixed=None):
        import models, sym
        self.S, self.uuid, self.folder, self.fixed = S, uuid, folder, fixed
        self.m, self.sym = models, sym
        self.base = S.path(SRC)
        self.kind = {}
        self.given = {}          # suffix -> content, of every file that is there
        S.dir(self.base)
        S.vm.models.fs.lazy.append(self.look)

    def look(self, path):
        sym = self.sym
        pre = sym.cat(self.base, '/', self.uuid, '.')
        if not sym.starts(path, pre):
            return
        rest = sym.cut(path, sym.rlen(pre), None)
        if not isinstance(rest, str):
            raise sym.Unsupported(f'file {rest!r} of the object')
        self.make(rest)

    def make(self, suffix):
        n, _, inner = suffix.partition('/')
        if n not in self.kind:
            fixed = self.fixed
            if isinstance(fixed, tuple):           # all but one, or none but one
                fixed = fixed[0] != (n == fixed[1])
            self.kind[n] = (fixed if fixed is not None else self.S.pick(f'{n} is there', [False, True]))
            if not self.kind[n]:
                return
            if n in self.folder:
                S = self.S
                S.vm.models.fs.dirs.append(self.sym.cat(self.base, '/', self.uuid, '.', n))
                self.put(n + '/' + 'a', self.file(n))
                S.vm.models.fs.dirs.append(self.sym.cat(self.base, '/', self.uuid, '.', n, '/d'))
                self.put(n + '/d/' + 'b', self.file(n))
            else:
                self.put(n, self.file(n))

    def put(self, suffix, content):
        fs = self.S.vm.models.fs
        fs.files.append([self.sym.cat(self.base, '/', self.uuid, '.', suffix), self.m.SData(content)])
        self.given[suffix] = content

    def file(self, n):
        return self.S.bytes(f'file {n}')


def brace_files(S, shape=None):
    """contracts of brace_file_read and brace_file_write (C03): a file has a tree; what is written has the tree given.
    shape(name, content): the tree of a file of the object, where it is not arbitrary"""
    import models, sym

    def atom_of(content):
        ps = sym.parts_of(content)
        if len(ps) == 1 and isinstance(ps[0], sym.Seg) and ps[0].whole():
            return ps[0].atom
        raise sym.Unsupported(f'brace file {content!r}')

    def read(vm, path, file_name):
        p = models.npath(models.p_join(vm, path, file_name))
        vm.models.maybe_fail('read', p)
        c = vm.models.fs.get(p)
        if c is None:
            raise FileNotFoundError(2, 'No such file or directory')
        a = atom_of(c)
        if 'brace' not in a.info:
            a.info['brace'] = shape(p, a) if shape else [sym.Node('T:' + a.name)]
        if isinstance(a.info['brace'], Exception):
            raise a.info['brace']
        return models.dcopy(a.info['brace'])

    def write(vm, data, path, file_name):
        p = models.npath(models.p_join(vm, path, file_name))
        vm.models.maybe_fail('write', p)
        models.m_makedirs(vm, path, exist_ok=True)
        n = sym.SInt(sym.z3.Int(S.ctx.fresh('len:brace')))
        S.ctx.assume(n >= 1)
        vm.models.fs.log.append(('open w', p))
        vm.models.fs.add(p, sym.rope('b', [sym.Seg(sym.Atom('b', S.ctx.fresh('brace'), n, info={'brace': models.dcopy(data)}))]))
    S.contract('helper:brace_file_read', read)
    S.contract('helper:brace_file_write', write)


def tree_of(c):
    import sym
    ps = sym.parts_of(c)
    if len(ps) == 1 and isinstance(ps[0], sym.Seg):
        return ps[0].atom.info.get('brace')
    return None


def same_file(S, label, old, new):
    """the same bytes, or the same tree of a brace file that was read and written (C03)"""
    t = tree_of(old)
    if t is not None and new is not old:
        u = tree_of(new)
        S.check(label + ': is a brace file again', u is not None)
        if u is not None:
            S.eq(label + ': the same tree', u, t)
    else:
        S.eq(label + ': the same bytes', new, old)


def modules(S, src):
    """contracts of the methods for modules (proved in C11): a module is taken from its file of the object, kept with the sources
    under the name given, and put back into its file of the object"""
    import models, sym

    def base(self):
        u = self.header['uuid']
        return u.as_text() if isinstance(u, sym.Node) else u

    def decode_code(vm, self, src_dir, *, uncomment_directive=False):
        for code_name, n in self.ext_code.items():
            if code_name in self.code:
                continue
            p = models.npath(models.p_join(vm, src_dir, sym.cat(base(self), '.', str(n))))
            c = vm.models.fs.get(p)
            if c is None:
                continue
            vm.models.maybe_fail('read', p)
            self.code[code_name] = c
            self.header['code_info_' + code_name] = 'file'
            self.header['code_encoding_' + code_name] = 'utf-8'

    def write_decode_code(vm, self, dest_dir, file_name):
        for code_name, c in self.code.items():
            vm.models.maybe_fail('write', code_name)
            vm.models.fs.add(models.npath(models.p_join(vm, dest_dir, sym.cat(file_name, '.', code_name, '.bsl'))), c)

    def encode_code(vm, self, src_dir, file_name):
        for code_name in self.ext_code:
            if self.header.get('code_info_' + code_name):
                vm.models.maybe_fail('read', code_name)
                c = vm.models.fs.get(models.npath(models.p_join(vm, src_dir, sym.cat(file_name, '.', code_name, '.bsl'))))
                self.code[code_name] = b'' if c is None else c

    def write_encode_code(vm, self, dest_dir, *, comment_directive=False):
        for code_name, c in self.code.items():
            n = sym.cat(base(self), '.', str(self.ext_code[code_name]))
            S.eq('the module was described when it was taken', self.header.get('code_info_' + code_name), 'file')
            self.file_list.append(n)
            vm.models.maybe_fail('write', n)
            vm.models.fs.add(models.npath(models.p_join(vm, dest_dir, n)), c)
    for f in (decode_code, write_decode_code, encode_code, write_encode_code):
        S.contract('MetaObject:MetaObject.' + f.__name__, f)


def payload_shape(S, src, plain=False):
    """trees of the files of an object: the part that is taken out is '#base64:' (or another mark) and base64 of some bytes"""
    import sym

    def marked(n):
        mark = S.pick('mark', ['#base64:', '##base64:', '#data:']) if not plain else '#base64:'
        x = S.bytes(f'payload {n}')
        if not plain and S.flag('no bytes'):
            return mark
        S.assume(S.len(x) > 0)
        import models
        b = models.m_b64encode(S.vm, x)
        return sym.cat(mark, models.t_decode(S.vm, b, 'utf-8'))
    return marked


def set_node(S, node, value):
    S.ctx.memo[('node', node.name)] = ('text' if not isinstance(value, list) else 'list', value)


TOP0, NESTED = True, False
# where the object lies, the field that tells its own objects from borrowed ones, is a prefix given, version, members of its table
CASES = [(TOP0, '0', True, '80316', {}), (TOP0, '0', False, '80316', {'Type': []}), (TOP0, 'other', True, '802', {'Type': []}),
         (TOP0, 'short', True, '802', {}), (NESTED, '0', True, '80316', {}), (NESTED, 'other', False, '802', {'Type': []})]


def header_of(S, handler, root, uuid, name5, prefixed, top, plain_name=False):
    """the header of the object inside its tree: identifier, name, localized names, comment; everything else is arbitrary"""
    import models, sym
    h = S.call(handler.get_decode_header, models.dcopy(root))
    if not isinstance(h, sym.Node):
        raise sym.Unsupported('header')
    set_node(S, index(S, h, 1, 2), uuid)
    nm = S.text('name', no='"/.' if plain_name else '"/', min=1, isnt=('.', '..'))
    prefix = S.text('prefix', no='"/', min=1) if prefixed else ''
    if name5 == 'short':
        S.assume(models.b_len(S.vm, h) == 5)
    else:
        set_node(S, index(S, h, 5), '0' if name5 == '0' else S.text('h5', isnt=('0',)))
    full = sym.cat(prefix, nm) if top and prefixed and name5 != 'other' else nm
    set_node(S, index(S, h, 2), sym.cat('"', full, '"'))
    comment = S.text('comment')
    set_node(S, index(S, h, 4), sym.cat('"', comment, '"'))
    return nm, prefix, comment


def kept_with_sources(S, folder, cls_name, uuid, nm, comment):
    """what the sources say about the object"""
    from v8unpack import helper
    for suffix, what in (('.id.json', (('uuid', uuid),)), ('.json', (('name', nm), ('comment', comment)))):
        d = S.call(helper.json_read, folder, cls_name + suffix)
        for k, v in what:
            S.eq(f'the sources say its {k}', d.get(k), v)


def own_object(name, cases=CASES, fixed=None, html=False, say=True, faults=False):
    """an object with a file of its own.  fixed: its files are there (True), missing (False), or any of them may be there (None).
    html: the pages are taken out by the real code, else by the contract of the methods for pages (C16)"""
    def theorem_fn(S):
        import models, sym
        cls = class_of(name)
        S.ctx.total |= {'H!', 'uuid'}
        uuid = S.text('uuid', no='/.', min=36, max=36)
        root = sym.Node('H!')
        versions = getattr(cls, 'versions', None)
        handler = cls
        if versions:
            v = S.pick('version', sorted(versions))
            set_node(S, index(S, root, 0, 1, 0), v)
            handler = versions[v]
        tmpl = None
        if name in ('Template', 'CommonTemplate'):
            from v8unpack.MetaDataObject.Template import TmplType
            tmpl = S.pick('template', [t.name for t in TmplType]) if fixed is not False else 'table'
            set_node(S, S.call(handler.get_template_type, root), TmplType[tmpl].value)
        top, name5, prefixed, version, include_index = S.pick('case', cases)
        src = Source(S, uuid, folder=('0',) if name == 'WSReference' else (), fixed=fixed)
        hfile = S.bytes('header file', min=1)
        fs = S.vm.models.fs
        fs.files.append([S.path(SRC) + '/' + uuid, models.SData(hfile)])
        sym.parts_of(hfile)[0].atom.info['brace'] = root
        nm, prefix, comment = header_of(S, handler, root, uuid, name5, prefixed, top, name == 'WSReference')
        options = {'obj_version': version}
        if prefix != '':
            options['prefix'] = prefix
        marked = payload_shape(S, src)

        def shape(path, atom):
            return tree_for(S, src, name, handler, path, atom, marked, tmpl)
        brace_files(S, shape)
        modules(S, src)
        tables(S)
        names2(S)
        extension(S)
        if not html:
            pages(S)
        where = 'Type' if top else 'Owner/one/Type'
        S.dir(S.path(OUT, where))
        S.dir(S.path(NEW))
        parent = 'Configuration' if top else 'Configuration/Owner/one'
        stage = faulty(S) if faults else lambda S, name, f, *a, **k: S.call(f, *a, **k)
        stage(S, 'decode', cls.decode, S.path(SRC), uuid, S.path(OUT), where, options, parent_type=name, parent_container_uuid=None)
        before = {k: v for k, v in src.given.items()}
        folder = S.path(OUT, where) + '/' + nm
        if say:
            kept_with_sources(S, folder, name, uuid, nm, comment)
        r = stage(S, 'encode', cls.encode, folder, nm, S.path(NEW), parent, None, include_index, dict(options))
        # the result
        res, children = r
        S.check('built at once', isinstance(res, dict) and not children)
        S.eq('its identifier', res['obj_uuid'], uuid)
        S.eq('its data in the table of its owner', res['obj_data'], uuid)
        S.eq('its type', res['obj_type'], name)
        S.eq('its name in the sources', res['obj_name'], nm)
        S.eq('its owner', res['parent_id'], parent)
        new = S.path(NEW)
        t = S.read(new + '/' + uuid)
        S.check('the header file is written', t is not None and tree_of(t) is not None)
        S.eq('the header', tree_of(t), root)
        files_back(S, uuid, before, res['file_list'], 1)
    theorem_fn.__name__ = f'object_{name}' + ('_payload' if html else '') + ('_faults' if faults else '')
    return theorem_fn


def files_back(S, uuid, before, file_list, more):
    """every file of the object is written again, with the same content; nothing else is written; the list names what is written"""
    import models, sym
    new = S.path(NEW)
    fs = S.vm.models.fs
    for k, c in before.items():
        w = S.read(sym.cat(new, '/', uuid, '.', k))
        S.check(f'file .{k} is written', w is not None)
        same_file(S, f'file .{k}', c, w)
    pre = new + '/'
    count = 0
    tops = []
    for p in [e[0] for e in fs.files]:
        if sym.starts(p, pre):
            count += 1
            rest = sym.cut(p, sym.rlen(pre), None)
            n = sym.split_first(rest, '/')
            tops.append(rest if n is None else n[0])
    S.eq('no other file is written', count, len(before) + more)
    listed = list(file_list)
    seen = []
    for x in tops:
        if not any(S.truth(models.deq(x, y)) for y in seen):
            seen.append(x)
    S.eq('as many names listed as files written', len(listed), len(seen))
    for x in seen:
        S.check('every file is listed', any(S.truth(models.deq(x, y)) for y in listed), repr(x))


def pages(S):
    """contracts of the methods for pages (proved in C16): the page is kept with the sources, its tree in the header, and is put back"""
    import models, sym

    def name_of(vm, self, n):
        u = self.header['uuid']
        return sym.cat(u.as_text() if isinstance(u, sym.Node) else u, '.', str(n))

    def decode(vm, self, src_dir, dest_dir, dest_file_name, *, header_field='html', file_number=0, extension='html'):
        c = vm.models.fs.get(models.npath(models.p_join(vm, src_dir, name_of(vm, self, file_number))))
        if c is not None:
            vm.models.maybe_fail('write', dest_file_name)
            vm.models.fs.add(models.npath(models.p_join(vm, dest_dir, sym.cat(dest_file_name, '.', extension))), c)
            self.header[header_field] = 'page'

    def encode(vm, self, src_dir, file_name, dest_dir, *, header_field='html', file_number=0, extension='html'):
        if not self.header.get(header_field):
            return
        vm.models.maybe_fail('read', file_name)
        c = vm.models.fs.get(models.npath(models.p_join(vm, src_dir, sym.cat(file_name, '.', extension))))
        S.check('the page is where it was kept', c is not None)
        vm.models.fs.add(models.npath(models.p_join(vm, dest_dir, name_of(vm, self, file_number))), c)
        self.file_list.append(name_of(vm, self, file_number))
    S.contract('MetaObject:MetaObject._decode_html_data', decode)
    S.contract('MetaObject:MetaObject._encode_html_data', encode)


def one_fault(S, name, f, *a, **k):
    """any one operation on files of f fails: f ends with an error"""
    m = S.vm.models
    m.fault = {'err': OSError}
    e = S.raises(f, *a, **k)
    hit = m.fault.get('hit')
    m.fault = None
    if hit:
        S.check(f'a failure of {hit[0]} ends the {name} with an error', e is not None, repr(hit))
    else:
        S.check('without a failure there is no error', e is None, repr(e))
    S.end()


def faulty(S):
    """one operation on files of a stage fails: the stage must end with an error.  Any operation, any stage"""
    at = S.pick('stage', ['decode', 'encode'])

    def stage(S, name, f, *a, **k):
        if name != at:
            return S.call(f, *a, **k)
        one_fault(S, name, f, *a, **k)
    return stage


def inline_object(name, cases=CASES, say=True, faults=False):
    """an object kept inside the table of its owner"""
    def theorem_fn(S):
        import models, sym
        cls = class_of(name)
        S.ctx.total |= {'H!', 'uuid'}
        uuid = S.text('uuid', no='/.', min=36, max=36)
        root = sym.Node('H!')
        top, name5, prefixed, version, include_index = S.pick('case', cases)
        src = Source(S, uuid)
        # the prefix is taken from objects with a file of their own that lie at the top
        nm, prefix, comment = header_of(S, cls, root, uuid, name5, prefixed, False)
        options = {'obj_version': version}
        if prefix != '':
            options['prefix'] = prefix
        brace_files(S)
        modules(S, src)
        tables(S)
        names2(S)
        where = 'Owner/one/Type'
        S.dir(S.path(OUT, where))
        S.dir(S.path(NEW))
        parent = 'Configuration/Owner/one'
        kept = models.dcopy(root)
        stage = faulty(S) if faults else lambda S, name, f, *a, **k: S.call(f, *a, **k)
        r = stage(S, 'decode', cls.decode_internal_include, None, kept, S.path(SRC), S.path(OUT), where, options)
        S.eq('it is known by its identifier', r, uuid)
        before = dict(src.given)
        folder = S.path(OUT, where) + '/' + nm
        if say:
            kept_with_sources(S, folder, name, uuid, nm, comment)
        res, children = stage(S, 'encode', cls.encode, folder, nm, S.path(NEW), parent, None, include_index, dict(options))
        S.check('built at once', isinstance(res, dict) and not children)
        S.eq('its identifier', res['obj_uuid'], uuid)
        S.eq('its data in the table of its owner', res['obj_data'], root)
        S.eq('its type', res['obj_type'], name)
        S.eq('its name in the sources', res['obj_name'], nm)
        S.eq('its owner', res['parent_id'], parent)
        files_back(S, uuid, before, res['file_list'], 0)
    theorem_fn.__name__ = f'inline_{name}' + ('_faults' if faults else '')
    return theorem_fn


def index(S, t, *path):
    for i in path:
        t = S.vm.models.getitem(S.vm, t, i)
    return t


def extension(S):
    """the extension of the file of a payload depends on the comment only and is none of the tool's own"""
    import models
    seen = []

    def contract(vm, comment):
        for c, e in seen:
            if S.truth(models.deq(c, comment)):
                return e
        e = S.pick('extension', ['bin', None]) or S.text('ext', no='./', min=1, max=5, isnt=('json', 'bsl', 'c1b64', 'bin', 'txt', 'html'))
        seen.append((comment, e))
        return e
    S.contract('helper:get_extension_from_comment', contract)


def tables(S):
    """the tables of included objects are dealt with by C09"""
    for k in ('MetaObject:MetaObject', 'MetaObject.Configuration:Configuration'):
        S.contract(k + '.decode_includes', lambda vm, self, *a: [])
        S.contract(k + '.fill_header_includes', lambda vm, self, *a: None)
    S.contract('MetaObject:MetaObject.encode_includes', lambda vm, self, *a: [])


def names2(S):
    import interp
    S.loop('helper:decode_header', interp.Loop(S, element=lambda: S.end()))


def tree_for(S, src, name, handler, path, atom, marked, tmpl):
    """what a brace file of the object holds: the parts the tool looks at have the shape that the platform writes, the others are
    arbitrary"""
    import sym
    pre = sym.cat(src.base, '/', src.uuid, '.')
    n = sym.cut(path, sym.rlen(pre), None)
    node = lambda i: sym.Node(f'T{n}:{atom.name}.{i}')
    first = src.fixed is True

    def shapes(position):
        head = [node(i) for i in range(position)]
        k = 'full' if first else S.pick(f'{n}', ['full', 'no text', 'no list', 'short', 'shorter'])
        if k == 'full':
            return [head + [[marked(n), *S.rest('r' + n)], *S.rest('s' + n)]]
        if k == 'no text':
            return [head + [['', *S.rest('r' + n)], *S.rest('s' + n)]]
        if k == 'no list':
            return [head + [[], *S.rest('s' + n)]]
        return [head] if k == 'short' else [head[:1]]
    if n == str(getattr(handler, 'help_file_number', None)) or tmpl == 'html':
        return shapes(3)
    if name == 'CommonPicture':
        k = 'full' if first else S.pick(f'{n}', ['full', 'no text', 'no list', 'nothing'])
        x = {'full': lambda: [[marked(n), *S.rest('r' + n)], *S.rest('s' + n)], 'no text': lambda: [[''], *S.rest('s' + n)],
             'no list': lambda: [[], *S.rest('s' + n)], 'nothing': lambda: []}[k]()
        return [[node(0), node(1), x, *S.rest('t' + n)]]
    if tmpl in ('base64', 'extension'):
        from v8unpack.json_container_decoder import BigBase64
        k = S.pick(f'{n}', ['whole file is data', 'data', 'no data'])
        if k == 'whole file is data':
            return BigBase64()
        if k == 'no data':
            return [['1', ['##base64:']]]
        import models
        x = S.bytes('payload ' + n, min=1)
        return [['1', [sym.cat('#base64:', models.t_decode(S.vm, models.m_b64encode(S.vm, x), 'utf-8'))]]]
    return [sym.Node('T:' + atom.name)]
