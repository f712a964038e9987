"""C14 ordinary forms: taken apart completely, and built back to the same tree"""
import copy
import json

import forms
import hl
import synth

MIN_CASES = 20


def spec_of(fs, kind='epf'):
    return {'kind': kind, 'ver': '80315', 'objects': [
        {'t': 'Form' if kind == 'epf' else 'ReportForm', 'u': i + 1, 'name': f'Форма{i}', 'fv': '13', 'fx': '1', 'uf': False, 'of': f,
         'ftext': 'Процедура А()\n', 'f1': ''} for i, f in enumerate(fs)]}


def cases(rng, tier):
    fld = lambda n, page=0, **k: dict({'t': 'Field', 'n': n, 'page': page, 'x': 1}, **k)
    base = lambda els, pages=('С1', 'С2'), **k: dict({'v': '27', 'panel': {'pages': list(pages), 'els': els, 'x': 1}, 'props': [], 'src': []}, **k)
    for auto in (False, True):
        yield {'f': [base([])], 'auto': auto}
        yield {'f': [base([fld('А', 1), fld('Б', 0), fld('В', 1)])], 'auto': auto}
        yield {'f': [base([fld('А', 1), {'t': 'Panel', 'n': 'П', 'page': 1, 'x': 2, 'pages': ['С1', 'С3'], 'els': [fld('Г', 1), fld('Д', 0)], 'extra': 2}, fld('Б', 0)],
                          props=['Р1', 'Р2'], src=[['А', 1], ['Г', 0]], extra=1)], 'auto': auto}
        yield {'f': [base([fld('Б', 1, anch=[[['А', 1], [0, 2]]] * 6, deps=[['А'], [], ['А', 'Б'], []]), fld('А', 1)], v='26')], 'auto': auto}
    while True:
        fs = []
        for _ in range(rng.choice([1, 1, 2])):
            g = forms.OGen(rng, areas=('include_', 'includr_') if rng.random() < .3 else ())
            f = g.form(rng.choice([1, 2, 3]))
            if rng.random() < .08:
                f['foreign'] = True
            fs.append(f)
        yield {'f': fs, 'kind': rng.choice(['epf', 'epf', 'erf']), 'auto': rng.random() < .4}


def shrinks(case):
    for i, f in enumerate(case['f']):
        if len(case['f']) > 1:
            yield dict(case, f=case['f'][:i] + case['f'][i + 1:])
        for s in forms.shrink_ordinary(f):
            yield dict(case, f=case['f'][:i] + [s] + case['f'][i + 1:])


def tree_of(p, auto):
    """elements in their order, each on its page"""
    out = []
    if auto:
        for i, n in enumerate(p['pages']):
            out.append({'name': n, 'type': 'Page', 'child': [one(e, p, auto) for e in p['els'] if e['page'] == i]})
        return out
    return [dict(one(e, p, auto)) for e in p['els']]


def one(e, p, auto):
    d = {'name': e['n'], 'type': e['t']}
    if not auto:
        d['page'] = p['pages'][e['page']]
    if e['t'] == 'Panel':
        d['child'] = tree_of(e, auto)
    return d


def forms_in(files):
    """uuid -> tree of the ordinary forms among the files"""
    return {n.split('/')[0]: synth.tree(b) for n, b in synth.flat(files).items() if n.endswith('/form')}


def canon(form):
    """what an ordinary form says, identifiers of its elements replaced by their names"""
    f = copy.deepcopy(form[0])
    names = {}

    def collect(lst, path):
        for e in lst[1:]:
            names[e[1]] = path + '/' + e[-2][1]
            if e[0] == forms.O['Panel']:
                collect(e[-1], names[e[1]])
    root = f[1][2]
    collect(root[2], '')
    if len(names) != len(list(all_els(root[2]))):
        return 'two elements have the same identifier'

    def ref(v):
        return names.get(v, v)

    def tables(p):
        k = 2
        for _ in range(4):
            n = int(p[k])
            p[k] = sorted([x[0], ref(x[1]), x[2]] for x in p[k + 1:k + 1 + n])
            del p[k + 1:k + 1 + n]
            k += 1

    def walk(lst):
        for e in lst[1:]:
            e[1] = names[e[1]]
            pl = e[-3]
            for i in range(6, 12):
                for j in (1, 2):
                    pl[i][j][1] = ref(pl[i][j][1])
            k = 12
            for _ in range(4):
                n = int(pl[k])
                for j in range(n):
                    k += 1
                    pl[k][1] = ref(pl[k][1])
                k += 1
            if e[0] == forms.O['Panel']:
                tables(e[2][1])
                walk(e[-1])
        # elements of different pages may be listed in another order
        lst[1:] = sorted(lst[1:], key=lambda e: int(e[-3][-5]))
    tables(root[1][1])
    walk(root[2])
    src = f[2][3]
    src[1:] = sorted([[ref(x[0]), *x[1:]] for x in src[1:]], key=str)
    return f


def all_els(lst):
    for e in lst[1:]:
        yield e
        if e[0] == forms.O['Panel']:
            yield from all_els(e[-1])


def in_domain(f):
    for p in [f['panel']] + [e for e in forms.owalk(f['panel']) if e['t'] == 'Panel']:
        if not p['pages']:
            return False
    names = [e['n'] for e in forms.owalk(f['panel'])]
    flat = [n.replace('includr_', 'include_') for n in names]
    return len(set(flat)) == len(flat)


def check(case, tmp):
    kind = case.get('kind', 'epf')
    if not all(in_domain(f) for f in case['f']):
        return hl.OUT
    files = synth.stage1(spec_of(case['f'], kind))
    for i, f in enumerate(case['f']):
        if f.get('foreign'):      # an element of a kind the tool does not know
            n = synth.uid(i + 1) + '.0'
            files[n]['form'] = files[n]['form'].replace(forms.O['Label'].encode(), b'0fc7e20d-f241-460c-bdf4-5ad88e5474a6')
    auto = case.get('auto')
    opts = {'auto_include': True} if auto else {}
    synth.decode(tmp, files, opts)
    src = hl.read_tree('d3')
    for i, f in enumerate(case['f']):
        n = [x for x in src if x.endswith('.elem.json') and f'/Форма{i}/' in '/' + x]
        if len(n) != 1:
            return f'form {i} has no list of elements: {sorted(src)[:20]}'
        d = json.loads(src[n[0]])
        if f.get('foreign') and any(e['t'] == 'Label' for e in forms.owalk(f['panel'])):
            continue
        want = tree_of(f['panel'], auto)
        if (d['tree'] or []) != want:
            return f'the elements of the form are shown as {json.dumps(d["tree"], ensure_ascii=False)[:250]}, they are {json.dumps(want, ensure_ascii=False)[:250]}'
        if [x['name'] for x in d['props'] or []] != f['props']:
            return f'the properties of the form are shown as {[x["name"] for x in d["props"] or []]}, they are {f["props"]}'
    got = synth.encode(tmp, opts)
    if not auto:
        return synth.same(files, got)
    w, g = forms_in(files), forms_in(got)
    if set(w) != set(g):
        return f'forms lost: {set(w) ^ set(g)}'
    for u in w:
        a, b = canon(w[u]), canon(g[u])
        if a != b:
            if isinstance(b, str):
                return f'{u}: {b}'
            from p_c03 import first_diff
            return f'{u}: {first_diff(a, b)[:500]}'
    return synth.same(files, got, ignore=[n for n in synth.flat(files) if n.endswith('/form')])
