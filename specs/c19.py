"""C19: options of the product"""
from thm import registry
import roots
T, theorem = registry()
ASSUMPTIONS = []
for k in roots.KINDS:
    theorem(f'{k}: an option that is given changes its own field to exactly its value; everything else is as it was', top=True, native=False)(roots.root_object(k, roots.Options()))


@theorem('building with a prefix puts it before the names of own top-level objects and changes nothing else of the header', top=True, native=False,
         functions=('helper:encode_header',))
def prefixed_name(S):
    import models, sym, objects
    from v8unpack import helper
    cls = objects.class_of(S.pick('class', ['Catalog', 'Role', 'CommonForm', 'Template']))
    S.ctx.total |= {'H'}
    h = sym.Node('H')
    nm, uuid = S.text('name', no='"'), S.text('uuid')
    objects.set_node(S, objects.index(S, h, 2), '"' + nm + '"')
    objects.set_node(S, objects.index(S, h, 1, 2), 'в отдельном файле')
    own = S.pick('fifth field', ['0', 'other', 'none'])
    if own == 'none':
        S.assume(models.b_len(S.vm, h) == 5)
    else:
        objects.set_node(S, objects.index(S, h, 5), '0' if own == '0' else S.text('h5', isnt=('0',)))
    top = S.flag('top')
    parent = 'Configuration' if top else 'Configuration/' + S.text('owner')
    options = S.pick('options', [None, {}, {'prefix': None}])
    prefix = ''
    if options and 'prefix' in options:
        prefix = S.text('prefix')
        options = {'prefix': prefix}
    o = S.obj(cls, options=options, header={'uuid': uuid, 'name': nm}, parent_id=parent)
    want = models.dcopy(h)
    models.Models.setitem(S.vm.models, S.vm, objects.index(S, want, 1), 2, uuid)
    if top and own != 'other':
        models.Models.setitem(S.vm.models, S.vm, want, 2, sym.cat('"', prefix, nm, '"'))
    S.call(helper.encode_header, o, h)
    S.eq('the header', h, want)
