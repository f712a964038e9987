"""C11: modules"""
from thm import registry
import objects
T, theorem = registry()
ASSUMPTIONS = ['text of modules has no CR (text mode of the language turns CRLF into LF) and does not start with a byte order mark of its own']


def content(S, kind):
    """(bytes of a module, its text)"""
    import models
    import z3
    if kind in ('utf-8', 'utf-8-sig'):
        t = S.text('module text', no=('\r', '\ufeff'))
        return S.encode(t, kind), t
    b = S.bytes('module', no=(b'\r',), min=1)
    a = models.parts_of(b)[0].atom
    S.ctx.memo[('pred', ('decodes', 'utf-8', a.key))] = z3.BoolVal(False)
    S.ctx.memo[('pred', ('decodes', 'cp1251', a.key))] = z3.BoolVal(kind == 'cp1251')
    return b, models.t_decode(S.vm, b, 'cp1251') if kind == 'cp1251' else None


@theorem('a module goes into the sources with its text and comes back with its bytes, in its file or folder, and is listed once', top=True, native=False,
         functions=('MetaObject:MetaObject.decode_code', 'MetaObject:MetaObject.write_decode_code', 'MetaObject:MetaObject.encode_code', 'MetaObject:MetaObject.write_encode_code',
                    'MetaObject:MetaObject.read_raw_code', 'MetaObject:MetaObject.write_raw_code'))
def module(S):
    import models, sym
    cls = objects.class_of('CommonModule')
    uuid = S.text('uuid', no='/.', min=36, max=36)
    n, code_name = S.pick('number', [(0, 'obj'), ('7', 'con')])
    fs = S.vm.models.fs
    src, dst, new = S.path('src'), S.path('sources'), S.path('new')
    for d in (src, dst, new):
        S.dir(d)
    a, b = (S.obj(cls, options={}, header={'uuid': uuid}, ext_code={code_name: n}, code={}, file_list=[]) for _ in 'ab')
    fs.files.append([src + '/other', models.SData(S.bytes('other'))])
    where = S.pick('where', ['file', 'text', 'image', 'nowhere'])
    kind = S.pick('content', ['utf-8', 'utf-8-sig', 'cp1251', 'bin']) if where != 'image' else 'image'
    base = sym.cat(uuid, '.', str(n))
    text = given = None
    objects.brace_files(S)
    info = sym.Node('info')
    S.ctx.total |= {'info'}
    if where == 'image':
        given = S.bytes('image')
    elif where != 'nowhere':
        given, text = content(S, kind)
    if where == 'file':
        fs.files.append([sym.cat(src, '/', base), models.SData(given)])
    elif where != 'nowhere':
        fs.dirs.append(sym.cat(src, '/', base))
        c = S.bytes('info file', min=1)
        sym.parts_of(c)[0].atom.info['brace'] = [info]
        fs.files.append([sym.cat(src, '/', base, '/info'), models.SData(c)])
        fs.files.append([sym.cat(src, '/', base, '/', where), models.SData(given)])
    f = S.text('file', no='/', min=1)
    S.call(a.decode_code, src)
    S.call(a.write_decode_code, dst, f)
    kept = [p for p in [e[0] for e in fs.files] if sym.starts(p, dst + '/')]
    empty = given is None or S.truth(models.b_len(S.vm, given if text is None else text) == 0)
    S.eq('one file is kept', len(kept), 0 if where == 'nowhere' or empty and kind != 'utf-8-sig' else 1)
    if text is not None and kept:
        c = S.read(sym.cat(dst, '/', f, '.', code_name, '.bsl'))
        S.check('the text is kept as a module', c is not None)
        S.eq('its text', S.call(__import__('v8unpack.helper').helper.txt_read, dst, sym.cat(f, '.', code_name, '.bsl')), text)
    b.header = models.dcopy(a.header)
    S.call(b.encode_code, dst, f)
    S.call(b.write_encode_code, new)
    S.eq('the identifier is left', b.header['uuid'], uuid)
    if where == 'nowhere':
        S.eq('nothing is written', [p for p in [e[0] for e in fs.files] if sym.starts(p, new + '/')], [])
        S.eq('nothing is listed', b.file_list, [])
        return
    S.eq('listed once', b.file_list, [base])
    w = S.read(sym.cat(new, '/', base) if where == 'file' else sym.cat(new, '/', base, '/', where))
    S.check('the module is written', w is not None)
    S.eq('the same bytes', w, given)
    if where != 'file':
        w = S.read(sym.cat(new, '/', base, '/info'))
        S.check('the info is written', w is not None)
        S.eq('the info', objects.tree_of(w), [info])
    S.eq('nothing else is written', len([p for p in [e[0] for e in fs.files] if sym.starts(p, new + '/')]), 1 if where == 'file' else 2)
