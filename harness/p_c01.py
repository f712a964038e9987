"""C01 container build -> extract round trip"""
import os
import random

import cfio
import hl

MIN_CASES = 12
SIZES = [0, 1, 2, 3, 4, 5, 16, 31, 32, 100, 480, 481, 482, 511, 512, 513, 514, 543, 1000, 1023, 1024, 1025, 1536, 4096, 5000, 65535,
         65536, 65537]
KINDS = ['rnd', 'zero', 'ff', 'text', 'bom', 'marker', 'mk1', 'nl']
NAMES = ['root', 'version', 'a', 'Модуль', 'x.1', '1b2d1f9e-0f8a-4d1b-9a55-1b2c3d4e5f60.0', 'имя с пробелом', 'b' * 60, 'ё' * 30,
         'ﬀ', 'z-1', '0', 'A', 'Я', '𝄞clef']


def rnd_files(rng, n):
    out, seen = [], set()
    for i in range(n):
        name = rng.choice(NAMES) if rng.random() < .5 else f'f{rng.randrange(10 ** 6)}' + rng.choice(['', '.0', '.txt', 'ж'])
        if name in seen:
            name = f'n{i}'
            if name in seen:
                continue
        seen.add(name)
        size = rng.choice(SIZES) if rng.random() < .7 else rng.randrange(0, 3000)
        out.append([name, size, rng.choice(KINDS), rng.randrange(100)])
    return out


def cases(rng, tier):
    yield {'known': 'C01-two-containers-first-over-42-files', 'first': [[f'n{i:03}', 5, 'rnd', i] for i in range(43)],
           'second': [['b', 5, 'rnd', 1]]}
    for n in (1, 2, 41, 42, 43, 44, 84, 85, 86, 127, 128, 129, 170, 171):
        yield {'first': [[f'n{i:03}', (i * 7) % 40, 'rnd', i] for i in range(n)]}
    for n, m in ((1, 1), (3, 2), (42, 5), (2, 43)):
        yield {'first': [[f'n{i:03}', (i * 97) % 1200, 'rnd', i] for i in range(n)],
               'second': [[f's{i:03}', (i * 131) % 1500, 'rnd', i] for i in range(m)]}
    yield {'first': [['a', 1, 'rnd', 1]], 'second': [[f's{i:04}', 1, 'rnd', i] for i in range(5470)]}
    for t in ('', 'x', '\0y', 'мусор'):
        yield {'foreign': [['a', 5, 'rnd', 1], ['имя', 0, 'rnd', 1]], 'bits': 32, 'frag': None, 'seed': 1, 'tail': t}
    for s in SIZES:
        yield {'first': [['a', s, 'rnd', s], ['b', 3, 'ff', 1]]}
    big = False
    i = 0
    while True:
        i += 1
        k = rng.random()
        if k < .3:
            yield {'first': rnd_files(rng, rng.randrange(1, 8))}
        elif k < .4:
            yield {'first': rnd_files(rng, rng.randrange(40, 180))}
        elif k < .6:
            yield {'first': rnd_files(rng, rng.randrange(1, 42)), 'second': rnd_files(rng, rng.randrange(1, 60))}
        elif k < .95:
            yield {'foreign': rnd_files(rng, rng.randrange(1, 60)), 'bits': rng.choice([32, 64]),
                   'frag': rng.choice([None, [512], [1, 2, 3], [7, 100, 512, 600], [4096], [64]]), 'seed': rng.randrange(10 ** 6),
                   'tail': rng.choice([None, None, '', '\0', 'мусор', 'x\0y', '\0\0\0z'])}
        elif not big:
            big = True  # more than 64K of table of contents in the 64-bit container: 2731 records
            yield {'first': [['a', 1, 'rnd', 1]], 'second': [[f's{i:04}', 1, 'rnd', i] for i in range(2740)]}


def shrinks(case):
    for k in ('first', 'second', 'foreign'):
        if case.get(k):
            for l in hl.shrink_list(case[k]):
                if l:
                    yield dict(case, **{k: l})
            for i, f in enumerate(case[k]):
                if f[1]:
                    yield dict(case, **{k: case[k][:i] + [[f[0], f[1] // 2, f[2], f[3]]] + case[k][i + 1:]})
    if case.get('second'):
        yield {k: v for k, v in case.items() if k != 'second'}


def check(case, tmp):
    build = hl.api('container_writer:build')
    extract = hl.api('container_reader:extract')
    rng = random.Random(case.get('seed', 0))
    if 'foreign' in case:
        files = [(n, hl.bytes_of(k, s, q)) for n, s, k, q in case['foreign']]
        fmt = cfio.Fmt32 if case['bits'] == 32 else cfio.Fmt64
        data = cfio.write(files, fmt, case['frag'], rng, tail=case.get('tail'))
        with open('x.cf', 'wb') as f:
            f.write(data)
        # one container per file: what follows the first one is not asserted for foreign layouts
        reader = hl.api('container_reader:detect_format')
        with open('x.cf', 'rb') as f:
            c = reader(f, 0)
            c.read(f, 0)
            c.extract(os.path.join(tmp, 'out'), False, False)
        return hl.diff_tree(dict(files), hl.read_tree('out'), 'extracting a valid container: ')
    trees = {}
    for i, key in enumerate(('first', 'second')):
        if case.get(key):
            trees[str(i)] = {n: hl.bytes_of(k, s, q) for n, s, k, q in case[key]}
    hl.write_tree('src', trees)
    build(os.path.join(tmp, 'src'), os.path.join(tmp, 'out', 'x.cf'), True)
    with open('out/x.cf', 'rb') as f:
        data = f.read()
    # the built file is a valid container for an independent reader
    base = 0
    for i, fmt in ((0, cfio.Fmt32), (1, cfio.Fmt64)):
        if str(i) in trees:
            try:
                files, used = cfio.parse(data, base, fmt)
            except Exception as e:
                return f'built container {i} is not valid: {type(e).__name__} {e}'
            if len(files) != len(set(n for n, _ in files)):
                return f'built container {i} lists a name twice'
            r = hl.diff_tree(trees[str(i)], dict(files), f'built container {i}: ')
            if r:
                return r
            base += used
    if base > len(data):
        return f'built file has {len(data)} bytes, its containers take {base}'
    extract(os.path.join(tmp, 'out', 'x.cf'), os.path.join(tmp, 'dst'), False, False)
    want = {os.path.join(i, n): b for i, t in trees.items() for n, b in t.items()}
    return hl.diff_tree(want, hl.read_tree('dst'))
