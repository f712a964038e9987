"""C02 compressed stage: packing and unpacking a folder of files and nested containers"""
import base64
import hashlib
import os
import re
import zlib

import cfio
import hl

MIN_CASES = 10
SIZES = [0, 1, 2, 3, 4, 5, 100, 511, 512, 513, 1024, 8191, 8192, 8193, 16384, 20000, 65536, 100000]
KINDS = ['rnd', 'zero', 'ff', 'text', 'bom', 'marker', 'mk1', 'mk2', 'mk3', 'mk4', 'nl']


def f(rng, size=None):
    return [rng.choice(SIZES) if size is None else size, rng.choice(KINDS), rng.randrange(1000)]


def folder(rng, nested=True):
    t = {}
    for i in range(rng.randrange(1, 7)):
        name = rng.choice(['root', 'Имя', 'x.0', 'b']) + str(i)
        if nested and rng.random() < .3:
            t[name] = {'text': f(rng), 'info': f(rng, rng.choice([5, 600]))}
            if rng.random() < .3:
                t[name]['третий'] = f(rng)
            if rng.random() < .2:
                t[name].update({f'm{k:03}': [3, 'rnd', k] for k in range(rng.choice([1, 41, 60]))})
        else:
            t[name] = f(rng)
    return t


def cases(rng, tier):
    for s in SIZES:
        for k in ('rnd', 'text'):
            yield {'op': 'round', 'tree': {'0': {'a': [s, k, s]}}}
    # streams at the limits of the read buffer
    for size in (8180, 8186, 8187, 8188, 8192, 8193, 8200, 16374, 16379, 16384):
        yield {'op': 'foreign', 'files': [['a', size, 'rnd', 3]], 'level': 0}
    for k in ('mk1', 'mk2', 'mk3', 'mk4'):
        for level in (0, 6):
            yield {'op': 'foreign', 'files': [['a', 200000 if level else 40000, k, 3]], 'level': level}
        yield {'op': 'round', 'tree': {'0': {'a': [30000, k, 1]}}}
    for level in (1, 6, 9):
        for size in (5, 8192, 40000, 300000):
            yield {'op': 'foreign', 'files': [['a', size, 'text', 3], ['b', size, 'zero', 3]], 'level': level}
    # data that unfold to a little more than a buffer, after the last byte of the stream is read
    for base in (8192, 16384, 65536, 131072, 1 << 20):
        for d in (1, 100, 257, 600):
            yield {'op': 'round', 'tree': {'0': {'a': [base + d, 'zero', 1]}}}
    i = 0
    while True:
        i += 1
        k = rng.random()
        if k < .55:
            t = {'0': folder(rng)}
            if rng.random() < .4:
                t['1'] = folder(rng)
            if rng.random() < .6:
                t[sorted(t)[-1]]['configinfo'] = 'info'
            yield {'op': 'round', 'tree': t}
        else:
            yield {'op': 'foreign', 'files': [['n%d' % q] + f(rng) for q in range(rng.randrange(1, 5))], 'level': rng.randrange(0, 10),
                   'nested': rng.random() < .4, 'frag': rng.choice([None, [512], [40, 700]])}


def materialize(t):
    out = {}
    for k, v in t.items():
        if isinstance(v, dict):
            out[k] = materialize(v)
        elif v == 'info':
            out[k] = '\ufeff{{1,{216,0,{80310,0}},1,0},\n{____versions____}}'.encode('utf-8')
        else:
            out[k] = hl.bytes_of(v[1], v[0], v[2])
    return out


def check(case, tmp):
    unpack = hl.api('container_reader:decompress_and_extract')
    if case['op'] == 'foreign':
        import random
        os.makedirs('s0/0')
        want = {}
        for n, s, k, q in case['files']:
            data = hl.bytes_of(k, s, q)
            if case.get('nested'):
                inner = [('text', data), ('info', b'{3,1,0,"",0}')]
                raw = cfio.write(inner, cfio.Fmt32, case['frag'], random.Random(7))
                want.update({f'0/{n}/{a}': b for a, b in inner})
            else:
                raw = data
                want[f'0/{n}'] = data
            c = zlib.compressobj(case['level'], zlib.DEFLATED, -15)
            with open('s0/0/' + n, 'wb') as fd:
                fd.write(c.compress(raw) + c.flush())
        unpack(os.path.join(tmp, 's0'), os.path.join(tmp, 's1'), pool=hl.FakePool())
        return hl.diff_tree(want, hl.read_tree('s1'), 'unpacking deflated files: ')

    pack = hl.api('container_writer:compress_and_build')
    tree = materialize(case['tree'])
    hl.write_tree('s1', tree)
    before = hl.read_tree('s1')
    pack(os.path.join(tmp, 's1'), os.path.join(tmp, 's0'), pool=hl.FakePool())
    packed = hl.read_tree('s0')
    flat = {}
    for c, files in tree.items():
        for n, v in files.items():
            p = f'{c}/{n}'
            if p not in packed:
                return f'{p} was not packed'
            try:
                d = zlib.decompressobj(-15)
                raw = d.decompress(packed[p]) + d.flush()
                if not d.eof or d.unused_data:
                    return f'{p}: not one whole deflate stream'
            except zlib.error as e:
                return f'{p}: not a deflate stream ({e})'
            if isinstance(v, dict):
                got, _ = cfio.parse(raw, 0, cfio.Fmt32)
                r = hl.diff_tree(v, dict(got), f'nested container {p}: ')
                if r:
                    return r
                flat.update({f'{p}/{a}': b for a, b in v.items()})
            elif n == 'configinfo':
                names = sorted(x for x in files if x != 'configinfo')
                m = re.fullmatch('\ufeff\\{\\{1,\\{216,0,\\{80310,0\\}\\},1,0\\},\n(.*)\\}', raw.decode('utf-8'), re.S)
                if not m:
                    return f'{p}: text around the list of versions changed: {raw[:200]!r}'
                items = re.sub(r'[\r\n]', '', m.group(1)).strip('{}').split(',')
                want = [str(len(names))]
                for x in names:
                    want += [f'"{x}"', base64.b64encode(hashlib.sha1(packed[f'{c}/{x}']).digest()).decode()]
                if items != want:
                    return f'{p}: versions list {items} instead of {want}'
                flat[p] = raw
            else:
                if raw != v:
                    return f'{p}: packed content differs'
                flat[p] = v
    if len(packed) != sum(len(x) for x in tree.values()):
        return 'extra files were packed: ' + str(sorted(set(packed) - set(f'{c}/{n}' for c, f in tree.items() for n in f)))
    after = hl.read_tree('s1')
    r = hl.diff_tree({k: v for k, v in before.items() if not k.endswith('configinfo')},
                     {k: v for k, v in after.items() if not k.endswith('configinfo')}, 'source files while packing: ')
    if r:
        return r
    unpack(os.path.join(tmp, 's0'), os.path.join(tmp, 's2'), pool=hl.FakePool())
    return hl.diff_tree(flat, hl.read_tree('s2'), 'unpacking what was packed: ')


def shrinks(case):
    if case['op'] == 'round':
        for c, t in case['tree'].items():
            for n in t:
                if len(t) > 1:
                    yield dict(case, tree=dict(case['tree'], **{c: {a: b for a, b in t.items() if a != n}}))
            if len(case['tree']) > 1:
                yield dict(case, tree={a: b for a, b in case['tree'].items() if a != c})
