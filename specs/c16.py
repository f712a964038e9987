"""C16: payloads"""
from thm import registry
import objects
T, theorem = registry()
ASSUMPTIONS = []
for n in ('CommonPicture', 'Template', 'CommonTemplate', 'WSReference', 'XDTOPackage', 'Subsystem', 'ExchangePlan', 'CommonCommand', 'Catalog'):
    theorem(f'{n}: every payload comes back byte for byte', top=True, native=False)(objects.own_object(n, objects.CASES[1:2], html=True, say=False))


@theorem('a page with a payload: taken out and put back, the file has the same tree, is listed, and nothing else is written', top=True, native=False,
         functions=('MetaObject:MetaObject._decode_html_data', 'MetaObject:MetaObject._encode_html_data'))
def page_pair(S):
    import models, sym
    cls = objects.class_of(S.pick('class', ['CommonCommand', 'Catalog']))
    uuid = S.text('uuid', no='/.', min=36, max=36)
    n = S.pick('number', [0, 5])
    a, b = S.obj(cls, options={}, header={'uuid': uuid}), S.obj(cls, options={}, header=None, file_list=[])
    src = objects.Source(S, uuid)
    marked = objects.payload_shape(S, src)
    shape = lambda path, atom: objects.tree_for(S, src, 'page', type('H', (), {'help_file_number': n}), path, atom, marked, None)
    objects.brace_files(S, shape)
    S.dir(S.path('sources'))
    S.dir(S.path('new'))
    f = S.text('file', no='/', min=1)
    S.call(a._decode_html_data, S.path('src'), S.path('sources'), f, header_field='help', file_number=n)
    given = dict(src.given)
    b.header = models.dcopy(a.header)
    S.call(b._encode_html_data, S.path('sources'), f, S.path('new'), header_field='help', file_number=n)
    S.eq('the identifier is left', b.header['uuid'], uuid)
    objects.files_back(S, uuid, given, b.file_list, 0)
    pre = S.path('sources') + '/'
    kept = [sym.cut(p, sym.rlen(pre), None) for p in [e[0] for e in S.vm.models.fs.files] if sym.starts(p, pre)]
    S.check('only files of the page are kept with the sources', all(S.truth(models.deq(sym.cut(p, 0, sym.rlen(f) + 1), sym.cat(f, '.'))) for p in kept), repr(kept))
