"""C17 index: files are taken from exactly where unpacking put them"""
import json
import os

import hl

MIN_CASES = 20
FILES = ['ExternalDataProcessor.json', 'version.bin', 'Form/Ф/Form.id.json', 'Form/Ф/Form.obj.bsl', 'Form/Ф/Form.elements.json', 'Form/Ф/p.png', 'Form/Ф/Form.elem.json',
         'Form/Г/Form.obj.bsl', 'Form/Г/Form.id.json', 'Template/Т/Т.json', 'Template/Т/Т.txt', 'CommonModule/М/М.obj.bsl', 'root.bsl',
         'CommonModule/М/М.json', 'Role/r.json', 'a.b.c.json']


def cases(rng, tier):
    yield {'files': ['Form/Ф/Form.id.json', 'Form/Ф/p.png'], 'index': {'Form': {'Ф': {'Form.id.json': None, '*': 'base/Ф'}}},
           'others': ['base/Ф/Form.id.json'], 'd': None}
    yield {'files': FILES[:6], 'index': {}, 'd': None}
    yield {'known': 'C17-generated-index-numeric-names', 'generate': ['Role/Р/Role.json', 'Role/Р/Role.0.c1brace']}
    while True:
        files = rng.sample(FILES, rng.randrange(1, len(FILES)))
        index, others = {}, []
        stars = {}
        for f in files:
            parts = f.split('/')
            k = rng.random()
            if k < .35:
                continue
            cur = index
            for p in parts[:-1]:
                cur = cur.setdefault(p, {})
            if k < .5:
                cur[parts[-1]] = rng.choice([None, ''])
            else:
                where = rng.choice(['core', 'base/x', 'core/' + '/'.join(parts[:-1]) if parts[:-1] else 'core'])
                name = parts[-1] if rng.random() < .6 else 'other_' + '_'.join(parts)
                cur[parts[-1]] = f'{where}/{name}'
            if rng.random() < .3 and len(parts) > 1:
                stars['/'.join(parts[:-1])] = 'base/star_' + '_'.join(parts[:-1])
        if rng.random() < .2:
            stars[''] = 'base/star_root'
        for p, folder in stars.items():
            cur = index
            for q in p.split('/') if p else []:
                cur = cur.setdefault(q, {})
            if '*' not in cur:
                cur['*'] = folder
                if rng.random() < .4:
                    others.append(f'{folder}/' + rng.choice([k for k in cur if not isinstance(cur[k], dict)] or ['z.json']))
        lib = None
        if rng.random() < .3:   # a folder to build in, but some of its files
            parts = rng.choice(files).split('/')[:-1]
            cur = index
            for q in parts:
                cur = cur.setdefault(q, {})
            if '*' not in cur:
                names = rng.sample(['l1.bin', 'l2.obj.bsl', 'l3.json', 'л.4.txt', 'l5'], rng.randrange(1, 5))
                out = rng.sample(names, rng.randrange(0, min(3, len(names)) + 1))
                stay = [n for n in names if n not in out and rng.random() < .2] if parts else []
                for n in stay:
                    cur[n] = ''
                folder = rng.choice(['base/lib', 'lib'])
                if out:
                    cur['*' + ''.join('-' + n for n in out)] = folder
                    lib = {'dir': '/'.join(parts), 'folder': folder, 'files': names, 'out': out + stay}
        yield {'files': files, 'index': index, 'lib': lib, 'stale': [f for f in files if rng.random() < .2], 'others': [o for o in others if '*' not in o], 'd': rng.choice([None, None, 5]),
               'split': rng.random() < .3}


def targets(index, path=()):
    for k, v in index.items():
        if isinstance(v, dict):
            yield from targets(v, path + (k,))
        elif v and not k.startswith('*'):
            yield v


def stars(index):
    for k, v in index.items():
        if isinstance(v, dict):
            yield from stars(v)
        elif k == '*':
            yield v


def shrinks(case):
    for l in hl.shrink_list(case['files']):
        if l:
            yield dict(case, files=l)
    if case.get('others'):
        yield dict(case, others=[])


def in_sources(f, d):
    b, _, e = f.rpartition('.')
    return f if d is None else f'{b}.{d}.{e}'


def check(case, tmp):
    if 'generate' in case:
        hl.write_tree('src', {f: b'1' for f in case['generate']})
        hl.api('index:update_index')('src', 'index.json', 'core')
        with open('index.json', encoding='utf-8') as f:
            idx = json.load(f)
        for f in case['generate']:
            cur = idx
            for p in f.split('/'):
                if p not in cur:
                    return f'no entry for {f} in the generated index: {idx}'
                cur = cur[p]
        return None
    d = case['d']
    org = hl.api('organizer_file:OrganizerFile') if d is None else hl.api('organizer_file_ce:OrganizerFileCE')
    t = list(targets(case['index']))
    if len(set(t)) != len(t):
        return hl.OUT     # two sources in one place
    proj = os.path.join(tmp, 'proj')
    out = os.path.join(proj, 'src') if d is None else os.path.join(proj, 'src', 'v')
    os.makedirs(out)
    os.chdir(proj)
    src = {os.path.normpath(f): f'// {f}\nтекст({i})\n'.encode() + (b'' if f.endswith(('.bsl', '.json')) else b'\r\n\xff\x00\xfe\r#include_x\n') for i, f in enumerate(case['files'])}
    for f in src:
        if f.endswith('.elem.json'):
            src[f] = json.dumps({'tree': [], 'data': {f: 1}}, ensure_ascii=False, indent=2).encode()
    hl.write_tree(os.path.join(tmp, 's3'), src)
    idx = json.loads(json.dumps(case['index']))
    where = {}
    for f in src:
        cur = idx
        parts = f.split('/')
        try:
            for p in parts[:-1]:
                cur = cur[p]
            v = cur[parts[-1]] if parts[-1] in cur else os.path.join(cur['*'], parts[-1])
        except KeyError:
            v = None
        where[f] = v
    vals = [v for v in where.values() if v]
    if len(set(vals)) != len(vals) or any(v in case.get('others', []) for v in vals):
        return hl.OUT
    # every indexed file that the index names must exist to build: only then is the pair a round trip
    if any(v not in vals for v in t):
        return hl.OUT
    for o in case.get('others', []):
        # what already lies in the shared folder belongs to another product (and would be built in unless it is excluded)
        if os.path.dirname(o) not in set(stars(case['index'])):
            return hl.OUT
        hl.write_tree(proj, {o: b'// other product\n'})
    if case.get('others'):
        for o in case['others']:
            for p, c in star_dirs(case['index']):
                if c['*'] == os.path.dirname(o):
                    n = os.path.basename(o)
                    if n not in c or list(c).index(n) > list(c).index('*'):
                        return hl.OUT     # not excluded: it is part of what is built
                    if not c[n] and os.path.normpath(os.path.join(p, n)) not in src:
                        return hl.OUT
    load = hl.api('helper:check_index')
    with open(os.path.join(proj, 'index.json'), 'w', encoding='utf-8') as f:
        if case.get('split') and idx:
            keys = list(idx)
            half = keys[:len(keys) // 2]
            with open(os.path.join(proj, 'sub.json'), 'w', encoding='utf-8') as g:
                json.dump({k: idx[k] for k in half}, g, ensure_ascii=False)
            json.dump(dict({k: idx[k] for k in keys if k not in half}, **{'index.json': ['sub.json']}), f, ensure_ascii=False)
        else:
            json.dump(idx, f, ensure_ascii=False)
    loaded = load('index.json')
    if (loaded or {}) != idx:
        return f'index {idx} was loaded as {loaded}'
    org.unpack(os.path.join(tmp, 's3'), out, pool=hl.FakePool(), index=loaded, descent=d)
    for f, v in where.items():
        if v:
            p = os.path.join(proj, v)
            if not os.path.isfile(p):
                return f'{f} is not at {v}, where the index sends it: {sorted(hl.read_tree(proj))}'
            with open(p, 'rb') as fd:
                if fd.read() != src[f]:
                    return f'{v} has other content'
            left = [x for x in hl.read_tree(out) if os.path.dirname(x) == os.path.dirname(f) and os.path.basename(x).split('.')[0] == os.path.basename(f).split('.')[0] and x == f]
            if left:
                return f'{f} was also left in the sources'
        else:
            p = os.path.join(out, in_sources(f, d))
            if not os.path.isfile(p):
                return f'{f} has no entry in the index but is not in the sources'
    for o in case.get('others', []):
        with open(os.path.join(proj, o), 'rb') as fd:
            if fd.read() != b'// other product\n':
                return f'unpacking changed {o}'
    for f in case.get('stale') or []:     # of an unpacking without the index
        if where.get(f):
            hl.write_tree(out, {in_sources(f, d): b'// stale\n'})
    want = dict(src)
    lib = case.get('lib')
    if lib:
        hl.write_tree(os.path.join(proj, lib['folder']), {n: f'// {n}\n'.encode() for n in lib['files']})
        hl.write_tree(os.path.join(proj, lib['folder'], 'inner'), {'x.bin': b'1'})
        want.update({os.path.join(lib['dir'], n): f'// {n}\n'.encode() for n in lib['files'] if n not in lib['out']})
    org.pack(out, os.path.join(tmp, 'b3'), pool=hl.FakePool(), index=load('index.json'), descent=d)
    got = {k: v for k, v in hl.read_tree(os.path.join(tmp, 'b3')).items() if v is not None}
    r = hl.diff_tree(want, got)
    if r:
        return r
    # generated index: complete, and what was there stays
    upd = hl.api('index:update_index')
    upd(out, os.path.join(proj, 'index.json'), 'core')
    with open(os.path.join(proj, 'index.json'), encoding='utf-8') as f:
        new = json.load(f)
    new.pop('index.json', None)
    base = idx if not case.get('split') else {k: idx[k] for k in list(idx)[len(idx) // 2:]}

    def keeps(a, b, p=''):
        for k, v in a.items():
            if k not in b:
                return f'{p}/{k} is gone from the index'
            if isinstance(v, dict):
                r = keeps(v, b[k], f'{p}/{k}')
                if r:
                    return r
            elif b[k] != v:
                return f'{p}/{k} changed in the index from {v!r} to {b[k]!r}'
    r = keeps(base, new)
    if r:
        return r
    rem = hl.api('helper:remove_descent_from_filename')
    for f in hl.read_tree(out):
        cur = new
        parts = os.path.join(os.path.dirname(f), rem(os.path.basename(f)) if d else os.path.basename(f)).split('/')
        for p in parts[:-1]:
            cur = cur.get(p, {})
        want = os.path.join('core', *parts)
        if parts[-1] not in cur:
            return f'{f} is not in the generated index'
        b = base
        for p in parts:
            b = b.get(p, {}) if isinstance(b, dict) else {}
        if b == {} and cur[parts[-1]] != want:
            return f'{f} got {cur[parts[-1]]!r} in the generated index, should be {want!r}'


def star_dirs(index, path=''):
    for k, v in index.items():
        if isinstance(v, dict):
            yield from star_dirs(v, os.path.join(path, k))
        elif k == '*':
            yield path, index
