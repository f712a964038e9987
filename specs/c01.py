"""C01: containers"""
from thm import registry, fn_of
T, theorem = registry()
ASSUMPTIONS = ['sizes and offsets fit the fields of the format (below 2**31 in a 32-bit container, 2**63 in a 64-bit one)',
               'file names hold no NUL and do not start with a byte order mark']


def kinds():
    return [fn_of('container:Container'), fn_of('container:Container64')]


def limit(cls):
    return 2 ** 31 - 1 if cls.__name__ == 'Container' else 2 ** 63


def container(S, cls, content, offset):
    c = S.call(cls)
    c.file = S.bytesio(content)
    c.file.seek(0, 2)
    c.offset = offset
    return c


@theorem('a number is written in exactly as many hexadecimal digits as the field has, and reads back', top=True)
def numbers(S):
    k = S.choose('kind', 2)
    cls = kinds()[k]
    v = S.int('v', 0, 16 ** (8, 16)[k] - 1, hints=(0, 15, 16, 255, 2 ** 31 - 1, 16 ** 8 - 1, 2 ** 63, 16 ** (8, 16)[k] - 1))
    t = S.call(cls.int2hex, v)
    S.eq('the width of the field', S.len(t), (8, 16)[k])
    S.eq('the same number', S.call(int, t, 16), v)


def appended(S, fn='container_doc:Document.write_block_data'):
    """contract of write_block_data: the whole of data is written at the place of dest; data ends up at its end"""
    def c(vm, data, dest):
        x = data.data.content
        dest.write(x)
        data.pos = S.len(x)
    S.contract(fn, c)


@theorem('write_block_data copies all of its source, whatever its size, and nothing else', native=False, functions=['container_doc:Document.write_block_data'])
def copies(S):
    import interp, sym
    Document = fn_of('container_doc:Document')
    x = S.bytes('x')
    old = S.bytes('old')
    src, dest = S.bytesio(x), S.bytesio(old)
    dest.pos = S.len(old)
    src.pos = S.int('anywhere', 0)
    k = S.int('k', 0)

    def entry(env, it=None):
        S.eq('inv: nothing written before the loop', dest.data.content, old)
        S.eq('inv: reading starts at the beginning', src.pos, 0)

    def before(env):
        S.assume(k <= S.len(x))
        src.pos = k
        dest.data.content = sym.cat(old, sym.cut(x, 0, k))
        dest.pos = S.len(old) + k

    def after(env):
        S.check('every turn gets on', src.pos > k)
        S.eq('inv: written is what was read', dest.data.content, sym.cat(old, sym.cut(x, 0, src.pos)))
        S.eq('inv: at the end', dest.pos, S.len(old) + src.pos)
        S.end()
    S.loop('container_doc:Document.write_block_data', interp.Loop(S, at_entry=entry, before=before, after=after))
    S.call(Document.write_block_data, src, dest)
    S.eq('all of it is there', dest.data.content, sym.cat(old, x))
    S.eq('the source is at its end', src.pos, S.len(x))


def contracted(S):
    if S.symbolic:
        appended(S)


@theorem('a block appended to a container is read back as it was written, and nothing before it changes', top=True)
def block(S):
    contracted(S)
    k = S.choose('kind', 2)
    cls = kinds()[k]
    Document = fn_of('container_doc:Document')
    lead = S.bytes('lead')                 # an earlier container of the same file
    body = S.bytes('body')                 # what the container holds so far
    x = S.bytes('x')
    c = container(S, cls, lead + body, S.len(lead))
    size = S.int('doc_size', 0, 100000)
    least = S.int('min', 0, 100000)
    nxt = S.int('next', 1, limit(cls) - 1) if S.flag('has_next') else None
    S.assume(S.len(x) < 2 ** 30)
    S.assume(S.len(body) < 2 ** 30)
    d = S.call(Document, c)
    f = S.bytesio(x)
    off = S.call(d.write_block, f, doc_size=size, min_block_size=least, next_block_offset=nxt)
    S.eq('the offset counts from the beginning of the container', off, S.len(body))
    b = S.call(S.call(Document, c).read_block, c.file, off)
    n = S.ite(least >= S.len(x), least, S.len(x))
    S.eq('document size', b.doc_size, size)
    S.eq('block size', b.current_block_size, n)
    S.eq('next block', b.next_block_offset, nxt if nxt is not None else cls.end_marker)
    whole = S.content(c.file)
    S.eq('size of the container', S.len(whole), S.len(lead) + S.len(body) + cls.block_header_size + n)
    S.eq('what was there stays', whole[0:S.len(lead) + S.len(body)], lead + body)
    S.eq('its data', whole[S.len(lead) + S.len(body) + cls.block_header_size:S.len(lead) + S.len(body) + cls.block_header_size + S.len(x)], x)


@theorem('a block written at a place of its own leaves everything else as it was', top=True)
def block_at(S):
    contracted(S)
    k = S.choose('kind', 2)
    cls = kinds()[k]
    Document = fn_of('container_doc:Document')
    lead = S.bytes('lead')
    a = S.bytes('a')
    h = cls.block_header_size
    x = S.bytes('x')
    room = S.bytes('room')
    z = S.bytes('z')
    least = S.len(room) - h
    S.assume(least >= S.len(x))
    S.assume(S.len(room) < 2 ** 30)
    c = container(S, cls, lead + a + room + z, S.len(lead))
    S.call(S.call(Document, c).write_block, S.bytesio(x), doc_size=S.len(x), min_block_size=least, offset=S.len(a))
    w = S.content(c.file)
    S.eq('the same size', S.len(w), S.len(lead) + S.len(a) + S.len(room) + S.len(z))
    S.eq('before it', w[0:S.len(lead) + S.len(a)], lead + a)
    S.eq('behind it', w[S.len(lead) + S.len(a) + S.len(room):], z)
    S.eq('and it reads back', S.call(S.call(Document, c).read, c.file, S.len(a)), x)


@theorem('a document is read back as it was written, wherever it lies, with or without a least block size', top=True)
def document(S):
    contracted(S)
    cls = kinds()[S.choose('kind', 2)]
    Document = fn_of('container_doc:Document')
    lead, body, x, tail = S.bytes('lead'), S.bytes('body'), S.bytes('x'), S.bytes('tail')
    S.assume(S.len(x) < 2 ** 30)
    S.assume(S.len(body) < 2 ** 30)
    c = container(S, cls, lead + body, S.len(lead))
    least = S.int('min', 0, 4096)
    S.assume(S.len(x) + least > 0)          # a block of no size at all is not written
    off = S.call(S.call(Document, c).write, S.bytesio(x), min_block_size=least)
    c.file.seek(0, 2)
    c.file.write(tail)
    d = S.call(Document, c)
    S.eq('the same data', S.call(d.read, c.file, off), x)
    S.eq('its size', d.data_size, S.len(x))
    d = S.call(Document, c)
    parts = S.listed(S.call(d.read_chunk, c.file, off, S.int('min2', 0, 4096)))
    S.eq('piece by piece', b''.join(parts) if not S.symbolic else S.call(b''.join, parts), x)


@theorem('a chain of blocks of any number and any sizes is read in order, exactly as long as the document', native=False,
         functions=['container_doc:Document._read_gen'])
def chain(S):
    import interp, sym
    cls = kinds()[S.choose('kind', 2)]
    Document, Block = fn_of('container_doc:Document'), fn_of('container_doc:Block')
    c = S.call(cls)
    n = S.int('n', 0)                                  # length of the document
    doc = sym.rope('b', [sym.Seg(sym.Atom('b', 'doc', n))])
    calls = []

    def read_block(vm, self, file, offset, max_data_length=None):
        """a block of a valid chain: the next k bytes of the document, k the size of the block or what is left"""
        done = state['done']
        left = n - done
        size = S.int('size', 1)
        S.eq('the block asked for is the one the last block points at', offset, state['next'])
        want = left if max_data_length is None else max_data_length
        S.eq('what is left of the document is asked for', want, left)
        take = S.ite(size < left, size, left)
        last = S.vm.truth(take == left)
        nx = cls.end_marker if last else S.int('next', 0, limit(cls) - 1)
        state['next'] = nx
        calls.append(take)
        return Block(n, size, nx, sym.cut(doc, done, done + take))
    state = {'done': 0, 'next': S.int('first', 0)}
    S.contract('container_doc:Document.read_block', read_block)
    got = []

    def entry(env, it=None):
        S.eq('inv: left', env.get('left_bytes'), n - S.len(got[1]))

    def before(env):
        k = S.int('k', 0)
        S.assume(k <= n)
        state['done'] = k
        state['k'] = k
        env.set('left_bytes', n - k)
        nx = cls.end_marker if S.vm.truth(k == n) else S.int('nx', 0, limit(cls) - 1)
        state['next'] = nx
        env.set('next_block_offset', nx)
        del got[:]

    def after(env):
        S.eq('one block, one piece', len(got), 1)
        S.eq('inv: pieces in order', got[0], sym.cut(doc, state['k'], state['k'] + S.len(got[0])))
        S.eq('inv: left', env.get('left_bytes'), n - state['k'] - S.len(got[0]))
        S.eq('inv: next', env.get('next_block_offset'), state['next'])
        S.check('every turn gets on', S.len(got[0]) > 0)
        S.end()
    S.loop('container_doc:Document._read_gen', interp.Loop(S, at_entry=entry, before=before, after=after))
    d = S.call(Document, c)
    g = S.call(d._read_gen, S.bytesio(b''), state['next'], S.pick('least', [0, 512]))
    first = True
    for x in g:
        got.append(x)
        if len(got) == 2 and first:
            first = False
            S.eq('the size comes first', got[0], n)
            S.eq('then the beginning of the document', got[1], sym.cut(doc, 0, S.len(got[1])))
            state['done'] = S.len(got[1])
    # the loop has ended
    S.eq('the whole document was given', state['k'], n)


@theorem('the header and the entry of a file: name, dates and data come back', top=True)
def entry(S):
    contracted(S)
    k = S.choose('kind', 2)
    cls = kinds()[k]
    lead, x = S.bytes('lead'), S.bytes('x')
    name = S.text('name', no='\0\ufeff\ufffe', min=1)
    S.assume(S.len(x) < 2 ** 28)
    S.assume(S.len(name) < 2 ** 20)
    if S.symbolic:
        S.contract('container_doc:epoch2int', lambda vm, t: S.int('time', 0, 10 ** 18))
        S.contract('container:Container.parse_datetime', lambda vm, *a: None)
    c = container(S, cls, lead, S.len(lead))
    S.call(c.write_header, 1)
    if S.symbolic:
        fd = S.bytesio(x)
    else:
        S.file(S.path('fd'), x)
        fd = open(S.path('fd'), 'rb')
    S.call(c.add_file, fd, name)
    if not S.symbolic:
        fd.close()
    S.call(c.write_table_off_content)
    r = S.call(cls)
    S.call(r.read, c.file, S.len(lead))
    fs = list(S.call(r.files.items))
    S.eq('one file', len(fs), 1)
    S.eq('its name', fs[0][0], name)
    S.eq('its size', fs[0][1].size, S.len(x))
    data = S.listed(fs[0][1].data)
    S.eq('its content', b''.join(data) if not S.symbolic else S.call(b''.join, data), x)


@theorem('a table of contents of n records is read back, for n at every border of its blocks', top=True, bounded='n in 1, 2, 42, 43, 44, 85, 86 (32-bit); 1, 2 (64-bit); offsets of any value', paths=400)
def table(S):
    contracted(S)
    k = S.choose('kind', 2)
    cls = kinds()[k]
    n = S.pick('n', [1, 2, 42, 43, 44, 85, 86] if k == 0 else [1, 2])
    lead, body = S.bytes('lead', min=1), S.bytes('body', min=1)
    S.assume(S.len(body) < 2 ** 28)
    c = container(S, cls, lead, S.len(lead))
    S.call(c.write_header, n)
    c.file.seek(0, 2)
    c.file.write(body)
    before = S.len(S.content(c.file))
    c.toc = [(S.int(f'a{i}', 0, 2 ** 31 - 2), S.int(f'd{i}', 0, 2 ** 31 - 2)) for i in range(n)]
    S.call(c.write_table_off_content)
    Document = fn_of('container_doc:Document')
    r = S.call(cls)
    r.offset = S.len(lead)
    t = S.call(S.call(Document, r).read, c.file, cls.header_size, cls.index_block_size)
    import struct
    want = S.call(b''.join, [S.call(struct.pack, '3' + cls.index_fmt, a, d, cls.end_marker) for a, d in c.toc])
    S.eq('the same table', t, want)
    first = cls.header_size + cls.index_block_size + cls.block_header_size
    w = S.content(c.file)
    S.eq('the files stay', w[S.len(lead) + first:S.len(lead) + first + S.len(body)], body)
    S.eq('what was before stays', w[0:S.len(lead)], lead)


def silent(S):
    """models of the progress bar and of the order of symbolic names"""
    if not S.symbolic:
        return
    import sym
    S.contract('container_doc:epoch2int', lambda vm, t: S.int('time', 0, 10 ** 18))
    S.contract('container:Container.parse_datetime', lambda vm, *a: None)

    def order(op, a, b):
        if sym.akey(a) == sym.akey(b):
            return 'E' in op
        less = S.ctx.predicate(('less',) + tuple(sorted((repr(sym.akey(a)), repr(sym.akey(b))))))
        if repr(sym.akey(a)) > repr(sym.akey(b)):
            less = not less
        return less if op.startswith('L') else not less
    S.vm.models.hooks['order'] = order


def round_trip(S, n, m):
    contracted(S)
    silent(S)
    files = []
    for c, k in (('0', n), ('1', m)):
        names = []
        for i in range(k):
            name = S.text(f'name{c}{i}', no='\0\ufeff\ufffe/', min=1, max=40, isnt=('.', '..'))
            names.append(name)
            S.distinct(*names)
            x = S.bytes(f'x{c}{i}', min=600 if files else 0)
            S.assume(S.len(x) < 2 ** 28)
            files.append((c, name, x))
            S.file(S.path('src', c, name), x)
    out = S.path('out.cf')
    S.call('container_writer:build', S.path('src'), out, True)
    S.call('container_reader:extract', out, S.path('dest'), False, False)
    for c, name, x in files:
        S.eq('the file is back', S.read(S.path('dest', c, name)), x)
    S.eq('and no other', len([p for p in S.paths() if S.truth(S.starts(p, S.path('dest') + '/'))]), len(files))


@theorem('a folder of files, built and extracted, is the same folder', top=True, paths=6000,
         bounded='two files, the first of any size, the second of at least 600 bytes; names and contents of any kind')
def folder(S):
    round_trip(S, 2, 0)


@theorem('a 32-bit container followed by a 64-bit one, built and extracted, are the same folders', top=True, paths=6000,
         bounded='one file in each, the first of any size, the second of at least 600 bytes; names and contents of any kind')
def two_containers(S):
    round_trip(S, 1, 1)


@theorem('a table of contents of any number of records is written as one chain of blocks in the order of the records, from the header on', native=False,
         functions=['container:Container.write_table_off_content'])
def table_chain(S):
    import interp, sym, struct
    cls = kinds()[S.choose('kind', 2)]
    lead, body = S.bytes('lead'), S.bytes('body', min=1)
    c = container(S, cls, lead + body, S.len(lead))
    c.file.pos = S.int('anywhere', 0)
    n = S.int('n', 1)
    c.toc = [sym.Rest('toc', n, None)]
    H, B = cls.block_header_size, cls.index_block_size
    R = struct.calcsize('3' + cls.index_fmt)
    table = sym.rope('b', [sym.Seg(sym.Atom('b', 'table', n * R))])
    st = {'expect': None, 'calls': 0, 'i': 0, 'loop': 0, 'done': False}
    S.assume(n * R < 2 ** 28)
    S.assume(S.len(body) < 2 ** 28)

    def here():
        return S.len(c.file.data.content) - c.offset

    def write_block(vm, self, data, *, doc_size=0, min_block_size=0, offset=None, next_block_offset=None):
        x = data.data.content
        i = st['i']
        if st['calls'] == 0:
            S.eq('the first block lies behind the header', offset, cls.header_size)
            S.eq('and says the length of the table', doc_size, n * R)
        else:
            S.check('the next block is appended', offset is None)
            S.eq('where the block before points', here(), st['expect'])
            S.eq('at the end of the file', c.file.pos, S.len(c.file.data.content))
        S.eq('the blocks have one size', min_block_size, B)
        S.eq('the next part of the table', x, sym.cut(table, i * B, (i + 1) * B) if S.vm.truth(i * B < n * R) else b'')
        st['calls'] += 1
        st['expect'] = next_block_offset
        if offset is None:
            c.file.data.content = sym.cat(c.file.data.content, S.bytes('block', length=H + B))
            c.file.pos = S.len(c.file.data.content)
        else:
            c.file.pos = offset + c.offset + H + B
        st['i'] = i + 1
        data.pos = S.len(x)
        return 0
    S.contract('container_doc:Document.write_block', write_block)

    def loops(vm, s, env):
        st['loop'] += 1
        if st['loop'] == 1:
            a, d = S.int('a', 0, limit(cls) - 1), S.int('d', 0, limit(cls) - 1)
            k = S.int('k', 0)

            def before(env):
                f = env.get('f')
                f.data.content = sym.cut(table, 0, k * R)
                f.pos = k * R
                S.assume(k < n)

            def after(env):
                f = env.get('f')
                S.eq('one record is written', f.data.content, sym.cat(sym.cut(table, 0, k * R), S.call(struct.pack, '3' + cls.index_fmt, a, d, cls.end_marker)))
                S.end()

            def leave(env):
                f = env.get('f')
                f.data.content = table
                f.pos = n * R
            return interp.Loop(S, element=lambda: (a, d), before=before, after=after, leave=leave,
                               at_entry=lambda env, it: S.check('inv: all records in their order', isinstance(it, list) and len(it) == 1 and it[0] is c.toc[0]))

        def inv(env, label):
            S.eq('inv: the block before points at the end of the file' + label, st['expect'], here())
            S.eq('inv: which is the next place' + label, env.get('next_block_offset'), here())
            S.eq('inv: file at its end' + label, c.file.pos, S.len(c.file.data.content))

        def entry(env, it):
            inv(env, '')
            S.eq('inv: one block is written before the loop', st['i'], 1)
            S.eq('inv: and read', env.get('f').pos, B)
            if isinstance(it, range) or type(it).__name__ == 'SRange':
                a, b = (it.start, it.stop) if isinstance(it, range) else (it.a, it.b)
                S.eq('inv: one turn for every further block', b - a, (n * R + B - 1) // B - 1)

        def arbitrary(env, i):
            st['i'] = i
            env.get('f').pos = i * B if S.vm.truth(i * B < n * R) else n * R
            g = S.bytes('blocks', length=(i - 1) * (H + B))
            c.file.data.content = sym.cat(lead + body, g)
            c.file.pos = S.len(c.file.data.content)
            env.set('next_block_offset', here())
            st['expect'] = here()

        def before(env):
            i = S.int('i', 1)
            S.assume(i < (n * R + B - 1) // B)
            st['element'] = i
            arbitrary(env, i)

        def after(env):
            inv(env, ' again')
            S.check('inv: the next part of the table is next', env.get('f').pos == (st['i'] * B if S.vm.truth(st['i'] * B < n * R) else n * R))
            S.end()

        def leave(env):
            arbitrary(env, (n * R + B - 1) // B)
            st['left'] = True
        return interp.Loop(S, element=lambda: st['element'], at_entry=entry, before=before, after=after, leave=leave)
    S.loop('container:Container.write_table_off_content', loops)
    S.call(c.write_table_off_content)
    S.check('the last block ends the chain', st['expect'] is None)
    S.check('the whole table is written', st['i'] * B >= n * R)


@theorem('a file entry of another writer: what follows a NUL in the name is no part of it', top=True)
def foreign_name(S):
    import struct
    contracted(S)
    silent(S)
    cls = kinds()[S.choose('kind', 2)]
    Document = fn_of('container_doc:Document')
    name = S.text('name', no='\0\ufeff\ufffe', min=1, max=200)
    junk = S.text('junk', no='\ufeff\ufffe', max=20)
    x = S.bytes('x', max=2 ** 28)
    c = container(S, cls, b'', 0)
    S.call(c.write_header, 1)
    head = S.call(struct.pack, 'QQi', S.int('t1', 0, 2 ** 60), S.int('t2', 0, 2 ** 60), 0) + S.encode(name, 'utf-16-le') + b'\0\0' + S.encode(junk, 'utf-16-le')
    a = S.call(S.call(Document, c).write, S.bytesio(head))
    d = S.call(S.call(Document, c).write, S.bytesio(x), min_block_size=512)
    c.toc = [(a, d)]
    S.call(c.write_table_off_content)
    r = S.call(cls)
    S.call(r.read, c.file, 0)
    fs = list(S.call(r.files.items))
    S.eq('its name', fs[0][0], name)
    S.eq('its content', S.call(b''.join, S.listed(fs[0][1].data)), x)
