"""C06 histories of unpacking at several configuration versions into one folder"""
import json
import os
import random

import codegen
import hl

MIN_CASES = 10
FILES = ['CommonModule/X/X.obj.bsl', 'CommonModule/X/X.json', 'Role/r.1.json', 'a/b/Picture.png', 'Форма.form.json', 'version.bin', 'top.bsl',
         'Catalog/К/Forms/Ф/Ф.obj.bsl', 'Catalog/К/К.c.bin', 'cf/q.bsl', 'a/N.bsl', 'src/data.bin', 'Заставка', 'WS/info', 'Форма/Форма.elem.json', 'Catalog/К/Forms/Ф/Ф.elem.json']
VERS = [1, 5, 9, 10, 50, 99, 100, 200, 2005006, 3000112]


def cases(rng, tier):
    yield {'steps': [[5, {'5-Заставка/Заставка': 1}], [5, {'5-Заставка/Заставка': 1}]]}
    two = {'top.bsl': 1, 'a/b/Picture.png': 1}
    yield {'known': 'C06-file-dropped-by-a-later-version', 'steps': [[5, two], [10, {'top.bsl': 1}]]}
    yield {'steps': [[5, two], [10, dict(two, **{'top.bsl': 2})], [7, two], [5, two]]}
    yield {'steps': [[5, two], [10, two], [5, dict(two, **{'top.bsl': 3})]]}
    yield {'steps': [[100, two], [200, dict(two, **{'Форма.form.json': 1})]]}
    while True:
        names = rng.sample(FILES, rng.randrange(1, 7))
        steps = []
        cur = {n: rng.randrange(3) for n in names}
        for _ in range(rng.randrange(1, 6)):
            cur = {n: (v if rng.random() < .6 else rng.randrange(4)) for n, v in cur.items()}
            if rng.random() < .2 and len(names) < len(FILES):
                cur[rng.choice(FILES)] = rng.randrange(3)
            steps.append([rng.choice(VERS), dict(cur)])
        yield {'steps': steps, 'areas': rng.random() < .5}


def shrinks(case):
    for l in hl.shrink_list(case['steps']):
        if l:
            yield dict(case, steps=l)
    names = {n for _, t in case['steps'] for n in t}
    for n in names:
        s = [[d, {k: v for k, v in t.items() if k != n}] for d, t in case['steps']]
        if all(t for _, t in s):
            yield dict(case, steps=s)


def content(name, v, areas):
    if name.endswith('.bsl'):
        t = f'// {name}\nВерсия({v});\n'
        if areas and v:
            stem = name.replace('/', '').replace('.', '')
            t += f'#Область include_cf_project_src_v_Общий{stem}{v}\nТело({v});\n#КонецОбласти\n' if v < 2 else \
                f'#Область include_lib_Внешний{stem}{v}\nТело();\n#КонецОбласти\nХвост();\n'
        return t.encode()
    if name.endswith('.elem.json'):
        area = f'include_cf_project_src_v_Общий{name.split("/")[0]}{v}'
        inner = {'name': f'К{v}', 'type': 'Button'}
        e = {'name': area if areas else 'О', 'type': 'Panel', 'child': [inner]}
        return json.dumps({'tree': [e], 'data': {e['name']: [v], f'{e["name"]}/К{v}': ['x']}}, ensure_ascii=False, indent=2).encode()
    if name.endswith('.png'):
        return hl.bytes_of(f'tail{v}', 150000, 0)
    if name.endswith('.1.json'):
        return hl.bytes_of(f'tail{v}', 20, 0)
    return hl.bytes_of('text' if v % 2 else 'rnd', 40 + v, name)


def check(case, tmp):
    org = hl.api('organizer_file_ce:OrganizerFileCE')
    out = os.path.join(tmp, 'w', 'project', 'src', 'v')
    os.makedirs(out)
    areas = case.get('areas')
    latest = {}     # version -> tree as last unpacked
    def own(f, d):
        return str(d) in os.path.basename(f).split('.')[:-1]
    for d, t in case['steps']:
        tree = {os.path.normpath(n): content(n, v, areas) for n, v in t.items()}
        hl.write_tree('s3', tree)
        before = hl.read_tree(out)
        org.unpack(os.path.join(tmp, 's3'), out, pool=hl.FakePool(), index=None, descent=d)
        after = hl.read_tree(out)
        import shutil
        shutil.rmtree('s3')
        for f, b in before.items():
            if f not in after:
                return f'unpacking version {d} removed {f}'
            if after[f] != b and not own(f, d):
                return f'unpacking version {d} changed {f}'
        for f in after:
            if f not in before and not own(f, d):
                return f'unpacking version {d} added {f}, a file without this version'
        # what is not new at this version is not stored again
        for n, b in tree.items():
            if '.' not in os.path.basename(n):
                continue
            base, _, ext = n.rpartition('.')
            mine = f'{base}.{d}.{ext}'
            if areas and n.endswith('.bsl'):
                continue
            lower = [v for v in range_versions(before, base, ext) if v < d]
            if mine not in before and lower and before[f'{base}.{max(lower)}.{ext}'] == b and mine in after:
                return f'{n} is the same in version {max(lower)}, but was stored again as {mine}'
        # versions between d and the next stored one inherit what was stored at d
        latest[d] = tree
        r = build(org, out, tmp, d, tree, 'known' in case)
        if r:
            return f'building version {d} right after unpacking it: {r}'
    # an earlier version builds to the same content after later ones were added
    d, tree = case['steps'][-1][0], None
    seen = []
    for i, (d, t) in enumerate(case['steps']):
        if all(x > d for x, _ in case['steps'][i + 1:]):
            tree = {os.path.normpath(n): content(n, v, areas) for n, v in t.items()}
            r = build(org, out, tmp, d, tree)
            if r:
                return f'building version {d} after later versions were unpacked: {r}'


def range_versions(tree, base, ext):
    for f in tree:
        if f.startswith(base + '.') and f.endswith('.' + ext):
            v = f[len(base) + 1:-len(ext) - 1]
            if v.isdigit():
                yield int(v)


def build(org, out, tmp, d, tree, exact=False):
    import shutil
    shutil.rmtree('b3', ignore_errors=True)
    org.pack(out, os.path.join(tmp, 'b3'), pool=hl.FakePool(), index=None, descent=d)
    got = {k: v for k, v in hl.read_tree('b3').items() if v is not None and 'Общий' not in k}
    if exact:
        return hl.diff_tree(tree, got)
    # a file of a lower version that the higher one no longer has is built again: a known finding
    return hl.diff_tree(tree, {k: v for k, v in got.items() if k in tree}) or (
        None if not set(tree) - set(got) else f'missing {sorted(set(tree) - set(got))}')
