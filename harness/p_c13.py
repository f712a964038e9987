"""C13 managed forms: taken apart completely, and built back to the same tree"""
import json

import forms
import hl
import synth

MIN_CASES = 20
PATHS = {'Form': 'Form', 'ReportForm': 'Form'}


def spec_of(fs, kind='epf'):
    return {'kind': kind, 'ver': '80315', 'objects': [
        {'t': 'Form' if kind == 'epf' else 'ReportForm', 'u': i + 1, 'name': f'Форма{i}', 'fv': '13', 'fx': '1', 'uf': True, 'mf': f, 'f1': ''}
        for i, f in enumerate(fs)]}


def cases(rng, tier):
    base = {'v': '4', 'props': [], 'commands': [], 'params': [], 'top': [], 'code': 'А'}
    e = lambda t, n, **k: dict({'t': t, 'n': n, 'k': [0, 0], 'x': 1}, **k)
    yield {'f': [dict(base)]}
    for t in forms.M:
        for k in ([0, 0], [1, 0], [0, 1], [2, 3]):
            yield {'f': [dict(base, top=[e('Group', 'Г', k=k, ch=[e(t, 'А', k=k), e(t, 'Б', k=k)]), e(t, 'В', k=k)])]}
    # forms that cannot be taken apart
    yield {'f': [dict(base, top=[e('Group', 'Г', bad=True), e('Field', 'П')])]}
    yield {'f': [dict(base, top=[e('Field', 'П'), e('Table', 'Т', rv='55', bad=3)], props=[{'id': 1, 'n': 'Р', 'ch': [{'id': 1, 'n': 'К'}]}], params=['П'],
                      commands=[{'id': 1, 'n': 'К'}])]}
    for s in (3, 4, 5):
        yield {'f': [dict(base, short=s, top=[e('Field', 'П')], props=[{'id': 1, 'n': 'Р'}], params=['А'])]}
    while True:
        fs = []
        for _ in range(rng.choice([1, 1, 2])):
            g = forms.MGen(rng, areas=('include_', 'includr_') if rng.random() < .3 else ())
            f = g.form(rng.choice([1, 2, 3, 4]))
            els = list(forms.walk(f['top']))
            if els and rng.random() < .12:
                x = rng.choice(els)
                if x['t'] == 'Group':
                    x['bad'] = True
                elif x['t'] == 'Table':
                    x.update(rv='55', bad=rng.choice([1, -1, 5]))
            fs.append(f)
        yield {'f': fs, 'kind': rng.choice(['epf', 'epf', 'erf'])}


def shrinks(case):
    for i, f in enumerate(case['f']):
        if len(case['f']) > 1:
            yield dict(case, f=case['f'][:i] + case['f'][i + 1:])
        for s in forms.shrink_managed(f):
            yield dict(case, f=case['f'][:i] + [s] + case['f'][i + 1:])


def in_domain(f):
    # names are unique in a form; an area and its read-only twin are not both in one form
    names = [e['n'] for e in forms.walk(f['top'])]
    flat = [n.replace('includr_', 'include_', 1) if n.startswith('includr_') else n for n in names]
    return len(set(flat)) == len(flat) and not any('/' in n or '\r' in n for n in names)


def elems(src, i, kind):
    n = [x for x in src if x.endswith('.elem.json') and f'/Форма{i}/' in '/' + x]
    return json.loads(src[n[0]]) if len(n) == 1 else None


def check(case, tmp):
    kind = case.get('kind', 'epf')
    if not all(in_domain(f) for f in case['f']):
        return hl.OUT
    files = synth.stage1(spec_of(case['f'], kind))
    synth.decode(tmp, files, {})
    src = hl.read_tree('d3')
    for i, f in enumerate(case['f']):
        d = elems(src, i, kind)
        if d is None:
            return f'form {i} has no list of elements: {sorted(src)[:20]}'
        if any(e.get('bad') for e in forms.walk(f['top'])) or f.get('short'):
            continue
        want = forms.tree_of(f['top'])
        if (d['tree'] or []) != want:
            from p_c03 import first_diff
            return f'the elements of the form are shown as {json.dumps(d["tree"], ensure_ascii=False)[:250]}, they are {json.dumps(want, ensure_ascii=False)[:250]}'
        for k, names in (('props', [p['n'] for p in f['props']]), ('params', f['params']), ('commands', [c['n'] for c in f['commands']])):
            if [x['name'] for x in d[k] or []] != names:
                return f'the {k} of the form are shown as {[x["name"] for x in d[k] or []]}, they are {names}'
        for p, x in zip(f['props'], d['props'] or []):
            if [c['name'] for c in x.get('child', [])] != [c['n'] for c in p.get('ch', [])]:
                return f'the columns of {p["n"]} are shown as {x.get("child")}'
        m = [x for x in src if x.endswith('.obj.bsl') and f'/Форма{i}/' in '/' + x]
        if f['code'] and (len(m) != 1 or src[m[0]].decode('utf-8-sig') != f['code']):
            return f'the module of the form reads {[src[x] for x in m]}, it is {f["code"]!r}'
    got = synth.encode(tmp, {})
    return synth.same(files, got)
