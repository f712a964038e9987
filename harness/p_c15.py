"""C15 shared form areas: moved out to their own files, put back in place"""
import copy
import json
import os

import forms
import hl
import synth
import p_c13
import p_c14

MIN_CASES = 20


def cases(rng, tier):
    e = lambda t, n, **k: dict({'t': t, 'n': n, 'k': [0, 0], 'x': 1}, **k)
    m = lambda top, **k: dict({'v': '4', 'props': [], 'commands': [], 'params': [], 'top': top, 'code': ''}, **k)
    fld = lambda n, page=0, **k: dict({'t': 'Field', 'n': n, 'page': page, 'x': 1}, **k)
    pan = lambda n, els, page=0, pages=('С1', 'С2'): {'t': 'Panel', 'n': n, 'page': page, 'x': 2, 'pages': list(pages), 'els': els}
    o = lambda els, **k: dict({'v': '27', 'panel': {'pages': ['С1', 'С2'], 'els': els, 'x': 1}, 'props': [], 'src': []}, **k)
    for kind in ('include_', 'includr_'):
        for name in ('а', 'core_а', 'root', '_б_в', 'а_б_в'):
            for d in (None, 5):
                yield {'m': [m([e('Group', kind + name, ch=[e('Field', 'П'), e('Group', 'Г', ch=[e('Table', 'Т', ch=[e('Field', 'К')])])]), e('Field', 'Я')])], 'o': [], 'd': d}
                yield {'m': [m([e('Group', 'Г', ch=[e('Group', kind + name, ch=[])])])], 'o': [], 'd': d}
                yield {'m': [m([e('Group', 'Г', ch=[e('Group', kind + name, ch=[e('Group', 'include_н', ch=[e('Field', 'П')]), e('Group', 'includr_о', ch=[e('Field', 'Р')])])])])],
                       'o': [], 'd': d}
                yield {'m': [], 'o': [o([fld('А', 1), pan(kind + name, [fld('Б', 1), pan('В', [fld('Г', 1)], 1)], 1)])], 'd': d}
                yield {'m': [], 'o': [o([fld('А', 1), pan(kind + name, [fld('Б', 1), pan('В', [fld('Г', 1)], 1)], 1)])], 'd': d, 'bare': [0]}
                yield {'m': [], 'o': [o([pan('Ж', [pan(kind + name, [fld('Б', 1), pan('include_в', [fld('Г', 1)], 1), pan('includr_я', [fld('Е', 1)], 1)], 1)], 1)])], 'd': d}
    while True:
        areas = rng.choice([('include_',), ('include_', 'includr_'), ('includr_', 'include_')])
        c = {'m': [forms.MGen(rng, areas).form(rng.choice([2, 3, 4])) for _ in range(rng.choice([0, 1, 1, 2]))],
             'o': [forms.OGen(rng, areas).form(rng.choice([1, 2, 3])) for _ in range(rng.choice([0, 1]))], 'd': rng.choice([None, None, 5, 12]),
             'auto': rng.random() < .25}
        if not c['m'] and not c['o']:
            continue
        names = [x for x, _ in outer(c)]
        if names and rng.random() < .3:
            c['index'] = {n[8:]: 'map_' + n[8:].replace('_', '') for n in names if rng.random() < .5}
        if rng.random() < .3:
            c['send'] = rng.choice(['sent', 'a/b'])
        if rng.random() < .15:
            c['bare'] = rng.choice([[0], [1], [0, 2], [0, 1, 2, 3]])
        yield c


def outer(case):
    """outermost areas: (name, element)"""
    def walk(els, key):
        for x in els:
            if x['n'][:8] in ('include_', 'includr_'):
                yield x['n'], x
            else:
                yield from walk(x.get(key, []), key)
    for f in case['m']:
        yield from walk(f['top'], 'ch')
    for f in case['o']:
        yield from walk(f['panel']['els'], 'els')


def shrinks(case):
    for k, sh in (('m', forms.shrink_managed), ('o', forms.shrink_ordinary)):
        for i, f in enumerate(case[k]):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
            for s in sh(f):
                yield dict(case, **{k: case[k][:i] + [s] + case[k][i + 1:]})


def spec_of(case):
    objs = p_c13.spec_of(case['m'])['objects']
    for i, o in enumerate(p_c14.spec_of(case['o'])['objects']):
        objs.append(dict(o, u=50 + i, name=f'Обычная{i}'))
    return {'kind': 'epf', 'ver': '80315', 'objects': objs}


def elem_files(t):
    return {n: json.loads(b) for n, b in t.items() if n.endswith('.elem.json')}


def check(case, tmp):
    if not all(p_c13.in_domain(f) for f in case['m']) or not all(p_c14.in_domain(f) for f in case['o']):
        return hl.OUT
    d, idx = case['d'], None
    idx = {'Области include': case['index']} if case.get('index') else None
    org = hl.api('organizer_file:OrganizerFile') if d is None else hl.api('organizer_file_ce:OrganizerFileCE')
    areas = list(outer(case))
    target = {n[8:]: (case.get('index') or {}).get(n[8:], n[8:]) for n, _ in areas}
    if len({os.path.normpath('/'.join(['..' if p == '' else p for p in t.split('_')])) for t in target.values()}) != len(areas):
        return hl.OUT
    opts = {'auto_include': True} if case.get('auto') else {}
    # the shared files of read-only areas, as the product that owns them lays them out
    out = os.path.join(tmp, 'w', 'v', 'project', 'src', 'cf')
    os.makedirs(out)
    readonly = [n for n, _ in areas if n.startswith('includr_')]
    if case.get('bare') and (readonly or case.get('auto')):
        return hl.OUT     # the data come from the shared file, or the pages are elements themselves
    if any('_' not in target[n[8:]] for n in readonly):
        return hl.OUT     # it would lie inside the sources, which unpacking replaces
    files = synth.stage1(spec_of(case))
    synth.decode(tmp, files, opts)
    d3 = hl.read_tree('d3')
    if case.get('bare'):      # pages of which the elements have no data
        for f, x in elem_files(d3).items():
            for k in [k for k in x['data'] if k.endswith('/-pages-')]:
                for i in case['bare']:
                    if i < len(x['data'][k]):
                        x['data'].pop(k[:-7] + list(x['data'][k])[i], None)
            with open(os.path.join('d3', f), 'w', encoding='utf-8') as h:
                json.dump(x, h, ensure_ascii=False, indent=2)
        d3 = hl.read_tree('d3')
    if case.get('send'):      # the index sends the forms themselves elsewhere
        idx = idx or {}
        for k, f in enumerate(sorted(elem_files(d3))):
            cur = idx
            *ps, last = f.split('/')
            for x in ps:
                cur = cur.setdefault(x, {})
            cur[last] = f'{case["send"]}/form{k}.elem.json'
    if readonly:
        own = copy.deepcopy(case)
        for n, x in list(outer(own)):
            if n in readonly:
                x['n'] = 'include_' + n[8:]
        for f in own['o']:
            rename(f, {n: 'include_' + n[8:] for n in readonly})
        synth.decode(tmp, synth.stage1(spec_of(own)), opts, dest='own3')
        org.unpack(os.path.join(tmp, 'own3'), out, pool=hl.FakePool(), index=idx, descent=d)
        for f in list(hl.read_tree(out)):       # only the shared files stay
            if os.path.isfile(os.path.join(out, f)) and not any(base(f) == target[n[8:]].split('_')[-1] for n in readonly):
                os.remove(os.path.join(out, f))
    before = {f: b for f, b in hl.read_tree('w').items() if b is not None and any(base(f) == target[n[8:]].split('_')[-1] for n in readonly)}
    org.unpack(os.path.join(tmp, 'd3'), out, pool=hl.FakePool(), index=idx, descent=d)
    laid = hl.read_tree('w')
    for f, b in before.items():
        if laid.get(f) != b:
            return f'unpacking wrote the file of a read-only area: {f}'
    for n, x in areas:
        t = target[n[8:]].split('_')[-1]
        fs = [f for f in laid if f.endswith('.elem.json') and base(f) == t]
        if not fs:
            return f'no file for the area {n}: {sorted(f for f in laid if f.endswith(".elem.json"))}'
        want = sorted(names_in(x, 'ch' if 'ch' in x or x['t'] != 'Panel' else 'els'))
        got = sorted(tree_names(json.loads(laid[fs[0]])['tree']))
        if [g for g in got if g in set(want)] != want:
            return f'the file of the area {n} lists {got}, the area holds {want}'
    org.pack(out, os.path.join(tmp, 'b3'), pool=hl.FakePool(), index=idx, descent=d)
    b3 = hl.read_tree('b3')
    a, b = elem_files(d3), elem_files(b3)
    for f in a:
        if f not in b:
            return f'{f} was not assembled: {sorted(b)}'
        if a[f] != b[f]:
            from p_c03 import first_diff
            for k in a[f]:
                if a[f][k] != b[f].get(k):
                    if isinstance(a[f][k], dict):
                        ks = sorted(set(a[f][k]) ^ set(b[f][k]))
                        if ks:
                            return f'{f} {k}: lost or appeared {ks[:6]}'
                        return f'{f} {k}: changed {[x for x in a[f][k] if a[f][k][x] != b[f][k][x]][:4]}'
                    return f'{f} {k}: {first_diff(a[f][k], b[f].get(k))[:400]}'
    text = lambda k, v: v.replace(b'\xef\xbb\xbf', b'') if k.endswith('.bsl') else v
    r = hl.diff_tree({k: text(k, v) for k, v in d3.items() if k not in a}, {k: text(k, v) for k, v in b3.items() if k in d3 and k not in a})
    if r:
        return r
    if not case.get('auto') and not case.get('bare'):
        return synth.same(files, synth.encode(tmp, opts, src='b3'))
    if not case.get('bare'):
        synth.encode(tmp, opts, src='b3')


def base(f):
    return os.path.basename(f).split('.')[0]


def rename(f, m):
    """the records of an ordinary form name the elements that moved"""
    for x in forms.owalk(f['panel']):
        for a in x.get('anch') or []:
            for y in a:
                y[0] = m.get(y[0], y[0])
        for a in x.get('deps') or []:
            a[:] = [m.get(y, y) for y in a]
    f['src'] = [[m.get(a, a), b] for a, b in f['src']]


def names_in(x, key):
    for c in x.get(key, []):
        yield c['n']
        yield from names_in(c, key)


def tree_names(tree):
    for c in tree or []:
        yield c['name']
        yield from tree_names(c.get('child'))
