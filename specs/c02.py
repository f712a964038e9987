"""C02: packing and unpacking"""
from thm import registry, fn_of
T, theorem = registry()
ASSUMPTIONS = ['zlib (raw deflate): what compressobj gives out is one complete stream of what it was fed; decompressobj gives back what was deflated, '
               'and 8192 bytes of a stream that do not end it give at least four bytes (true of every stream zlib writes without flushing)']


def packer(S, fn='container_doc:Document.compress'):
    """contract of Document.compress: dest gets one whole deflate stream of src at its place"""
    import sym

    def c(vm, cls, src, dest):
        x = src.data.content
        dest.write(S.deflated('packed', x))
        src.pos = S.len(x)
    if S.symbolic:
        S.contract(fn, c)


def copier(S):
    def c(vm, data, dest):
        dest.write(data.data.content)
        data.pos = S.len(data.data.content)
    S.contract('container_doc:Document.write_block_data', c)


@theorem('compress writes one complete deflate stream of exactly the source, whatever its size', top=True)
def compress(S):
    Document = fn_of('container_doc:Document')
    x, old = S.bytes('x'), S.bytes('old')
    src, dest = S.bytesio(x), S.bytesio(old)
    dest.seek(0, 2)
    src.seek(S.ite(S.flag('anywhere'), S.len(x), 0))
    if S.symbolic:
        import interp, sym
        copier(S)

        def entry(env, it=None):
            S.check('inv: nothing compressed before the loop', S.len(env.get('compressor').fed) == 0)
            S.eq('inv: nothing written', env.get('f').data.content, b'')
            S.eq('inv: from the beginning', src.pos, 0)

        def before(env):
            k = S.int('k', 0)
            S.assume(k <= S.len(x))
            c, f = env.get('compressor'), env.get('f')
            src.pos = k
            c.fed = sym.cut(x, 0, k)
            f.data.content = sym.rope('b', [sym.Seg(c.atom, 0, c.at(k))])
            f.pos = c.at(k)
            before.k = k

        def after(env):
            c, f = env.get('compressor'), env.get('f')
            S.check('every turn gets on', src.pos > before.k)
            S.eq('inv: what was read was compressed', c.fed, sym.cut(x, 0, src.pos))
            S.eq('inv: and written', f.data.content, sym.rope('b', [sym.Seg(c.atom, 0, c.at(src.pos))]))
            S.eq('inv: at the end', f.pos, c.at(src.pos))
            S.end()
        S.loop('container_doc:Document.compress', interp.Loop(S, at_entry=entry, before=before, after=after))
    S.call(Document.compress, src, dest)
    w = S.content(dest)
    S.eq('what was there stays', w[0:S.len(old)], old)
    S.eq('one stream of the source', S.inflate(w[S.len(old):]), x)


@theorem('a packed file is unpacked to the same bytes, whatever the length of its stream', top=True)
def unpack(S):
    x = S.bytes('x')
    S.assume(not S.starts(x, b'\xff\xff\xff\x7f'))
    z = S.deflated('z', x)
    S.file(S.path('in', 'name'), z)
    S.dir(S.path('out'))
    if S.symbolic:
        import interp, sym
        S.vm.models.hooks['inflate-least'] = 4

        def entry(env, it=None):
            S.check('inv: nothing was fed before the loop', S.len(env.get('decompressor').fed) == 0)
            S.eq('inv: nothing written', env.get('dest').data.content, b'')
            S.check('inv: not looked at yet', env.get('file_is_container') is None)

        def before(env):
            d, src, dest = env.get('decompressor'), env.get('src'), env.get('dest')
            k = S.int('k', 0)
            S.assume(k <= S.len(z))
            before.k = k
            if S.vm.truth(k == 0):
                env.set('file_is_container', None)
                return
            g = S.int('given', 4)
            S.assume(g <= S.len(x))
            if S.vm.truth(k == S.len(z)):
                S.assume(g == S.len(x))
            d.fed = sym.cut(z, 0, k)
            d.given = g
            src.pos = k
            dest.data.content = sym.cut(x, 0, g)
            dest.pos = g
            env.set('file_is_container', False)

        def after(env):
            d, src, dest = env.get('decompressor'), env.get('src'), env.get('dest')
            S.check('every turn gets on', src.pos > before.k)
            S.eq('inv: what was read was fed', d.fed, sym.cut(z, 0, src.pos))
            S.eq('inv: what came out was written', dest.data.content, sym.cut(x, 0, d.given))
            S.check('inv: seen that it is no container', env.get('file_is_container') is False)
            S.end()
        S.loop('container_reader:decompress_file_and_extract', interp.Loop(S, at_entry=entry, before=before, after=after))
    S.call('container_reader:decompress_file_and_extract', (S.path('in'), 'name', S.path('out')))
    S.eq('the same bytes', S.read(S.path('out', 'name')), x)
    S.eq('the packed file stays', S.read(S.path('in', 'name')), z)
    S.eq('and nothing else is left', len(S.paths()), 2)


@theorem('a packed file that begins as a container is taken apart in its place, and the container itself does not stay', native=False,
         functions=['container_reader:decompress_file_and_extract'])
def unpack_container(S):
    body = S.bytes('body')
    x = b'\xff\xff\xff\x7f' + body
    z = S.deflated('z', x)
    S.assume(S.len(z) < 8192)
    S.file(S.path('in', 'name'), z)
    S.dir(S.path('out'))
    inner = S.bytes('inner')
    seen = []

    def read(vm, self, file, offset=0):
        S.eq('the container is read from its first byte', file.data.content, x)
        seen.append(('read', self, offset))

    def extract(vm, self, dest, deflate=False, recursive=False, **k):
        S.check('the container that was read is extracted', seen and seen[-1][0] == 'read' and seen[-1][1] is self and not deflate)
        S.eq('its folder is the file\'s place', dest, S.path('out', 'name'))
        S.eq('no file lies there', S.read(dest), None)
        S.file(dest + '/entry', inner)
        seen.append(('extract',))
    S.contract('container:Container.read', read)
    S.contract('container:Container.extract', extract)
    S.call('container_reader:decompress_file_and_extract', (S.path('in'), 'name', S.path('out')))
    S.eq('extracted once', len(seen), 2)
    S.eq('its files are there', S.read(S.path('out', 'name', 'entry')), inner)
    S.eq('nothing else is left', len(S.paths()), 2)


@theorem('packing a folder: every file becomes one stream, every sub-folder one stream of a container of exactly its files', top=True,
         bounded='one file and one sub-folder of one file, of any names and contents', paths=3000)
def pack_folder(S):
    import os
    packer(S)
    n1, n2, n3 = (S.text(f'n{i}', no='\0\ufeff\ufffe/', min=1, max=40, isnt=('.', '..', 'configinfo')) for i in range(3))
    S.distinct(n1, n2)
    x, y = S.bytes('x'), S.bytes('y')
    S.assume(S.len(y) < 2 ** 28)
    S.file(S.path('in', '0', n1), x)
    S.file(S.path('in', '0', n2, n3), y)
    if S.symbolic:
        from c01 import silent, appended
        silent(S)
        appended(S)
    S.call('container_writer:compress_and_build', S.path('in'), S.path('out'))
    S.eq('the file', S.inflate(S.read(S.path('out', '0', n1))), x)
    c = S.inflate(S.read(S.path('out', '0', n2)))
    f = S.bytesio(c)
    r = S.call(fn_of('container:Container'))
    S.call(r.read, f, 0)
    fs = list(S.call(r.files.items))
    S.eq('one file in the nested container', len(fs), 1)
    S.eq('its name', fs[0][0], n3)
    S.eq('its content', S.call(b''.join, S.listed(fs[0][1].data)), y)
    S.eq('nothing else', len(S.paths()), 4)


@theorem('the list of hashes names every other file once, with the SHA-1 of its packed bytes, and leaves the text around it', top=True,
         bounded='configinfo and two other files, of any names and contents')
def hashes(S):
    n1, n2 = (S.text(f'n{i}', no='\0/"', min=1, max=40, isnt=('.', '..', 'configinfo')) for i in range(2))
    S.distinct(n1, n2)
    a, b = S.text('before', no='{\r', max=200), S.text('after', no='{\r', max=200)
    z1, z2 = S.bytes('z1'), S.bytes('z2')
    S.file(S.path('in', 'configinfo'), S.utf8(a + '{____versions____}' + b))
    S.file(S.path('out', 'configinfo'), b'old')
    S.file(S.path('out', n1), z1)
    S.file(S.path('out', n2), z2)
    lists = []
    if S.symbolic:
        from c01 import silent
        silent(S)
        packer(S)

        def encode(vm, self, data):
            """contract of encode_root_object (C03): the text of the tree"""
            lists.append(S.copy(data))
            return lists_text
        lists_text = S.text('list', no='\r{', min=40)      # a hash alone has 28 characters
        S.contract('json_container_decoder:JsonContainerDecoder.encode_root_object', encode)
    S.call('container_writer:calc_sha1', S.path('in'), S.path('out'))
    if S.symbolic:
        S.eq('one list', len(lists), 1)
        S.eq('of one row', len(lists[0]), 1)
        row = lists[0][0]
        text = lists_text
    else:
        t = S.read(S.path('in', 'configinfo')).decode('utf-8')
        text = t[len(a):len(t) - len(b)]
        import re
        row = re.findall(r'"[^"]*"|[^{},\s"]+', text)
    S.eq('the number of files', row[0], '2')
    S.eq('two parts each', len(row), 5)
    e1 = ['"' + n1 + '"', S.sha1(z1)]
    e2 = ['"' + n2 + '"', S.sha1(z2)]
    if S.truth(row[1] == e1[0]):
        S.eq('both files, the first first', row[1:], e1 + e2)
    else:
        S.eq('both files, the second first', row[1:], e2 + e1)
    S.eq('the text around the list', S.read(S.path('in', 'configinfo')), S.utf8(a + text + b))
    S.eq('configinfo is packed', S.inflate(S.read(S.path('out', 'configinfo'))), S.utf8(a + text + b))
    S.eq('the files stay', S.read(S.path('out', n1)), z1)
    S.eq('the other too', S.read(S.path('out', n2)), z2)


@theorem('collecting the hashes goes over any number of files: two parts for each but configinfo, in the order of names', native=False,
         functions=['container_writer:calc_sha1'])
def hash_loop(S):
    import interp, sym
    name = S.text('name', no='\0/"', min=1) if S.flag('other') else 'configinfo'
    z = S.bytes('z')
    S.dir(S.path('out'))
    S.file(S.path('out', name), z)
    V = sym.Rest('V', S.int('lenV', 0))

    def after(old, new):
        if S.truth(name == 'configinfo'):
            S.check('configinfo does not list itself', len(new) == 1 and new[0] is V)
        else:
            S.eq('name and hash', new[1:], ['"' + name + '"', S.sha1(z)])
            S.check('what was collected stays', new[0] is V)

    def flagged(old, new):
        S.eq('configinfo is noticed', new, 'configinfo' if S.truth(name == 'configinfo') else old)
    S.hook('os.listdir', lambda vm, path: [sym.Rest('entries', S.int('len'), None)])
    S.vm.models.hooks['sorted'] = lambda xs: xs
    S.loop('container_writer:calc_sha1', interp.Loop(S, element=lambda: name, keep={
        'versions': (lambda v: S.check('inv: empty at first', v == []), lambda: [V], after),
        'versions_file': (lambda v: S.check('inv: not seen at first', v == ''), lambda: S.pick('seen', ['', 'configinfo']), flagged)},
        leave=lambda env: S.end()))
    S.call('container_writer:calc_sha1', S.path('in'), S.path('out'))
