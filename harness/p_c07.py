"""C07 an unchanged extraction builds back to a file with the same content"""
import json
import os
import random
import shutil
import zlib

import cfio
import hl
import synth

MIN_CASES = 6
FIX = ['tests/ExternalDataProcessor803/ВнешняяОбработка803.epf', 'tests/ExternalDataProcessor802/ВнешняяОбработка802.epf',
       'tests/ExternalReport803/ВнешнийОтчёт803.erf', 'tests/ConfigurationExtension803/Расширение1.cfe',
       'tests/Configuration803/1Cv8.cf', 'tests/Configuration803/1Cv8-16.cf', 'tests/data/apam.cf', 'tests/data/apam_old.cf']


def cases(rng, tier):
    modes = [{}, {'auto': True}, {'descent': 3000075100}, {'index': 'core'}, {'auto': True, 'descent': 7, 'index': 'split'},
             {'auto': True, 'index': 'star'}]
    for m in modes if tier != 'quick' else modes[:2] + modes[4:5]:
        for i in range(len(FIX)):
            yield {'fixture': i, 'mode': m}
    while True:
        g = synth.Gen(rng)
        mode = {}
        if rng.random() < .5:
            mode['auto'] = True
        if rng.random() < .35:
            mode['descent'] = rng.choice([1, 9, 10, 3000075100])
        if rng.random() < .4:
            mode['index'] = rng.choice(['core', 'split', 'star'])
        if rng.random() < .3:
            mode['prefix'] = 'Пр_'
        g.prefix = mode.get('prefix', '')
        spec = g.spec(n=rng.choice([1, 2, 4, 8]), depth=rng.choice([1, 2]))
        yield {'spec': spec, 'mode': mode, 'frag': rng.choice([0, 0, 7, 300]), 'two': rng.random() < .15 and spec['kind'] == 'cf',
               'seed': rng.randrange(10 ** 6)}


def shrinks(case):
    for k in ('index', 'descent', 'auto', 'prefix'):
        if k in case['mode']:
            yield dict(case, mode={a: b for a, b in case['mode'].items() if a != k})
    if 'spec' in case:
        if case.get('two'):
            yield dict(case, two=False)
        for s in synth.shrinks(case['spec']):
            yield dict(case, spec=s)


def nested(files, fmt, frag, rng):
    out = []
    for n, v in files.items():
        raw = cfio.write([(a, b) for a, b in v.items()], cfio.Fmt32, None, rng) if isinstance(v, dict) else v
        c = zlib.compressobj(rng.choice([1, 6, 9]), zlib.DEFLATED, -15)
        out.append((n, c.compress(raw) + c.flush()))
    return cfio.write(out, fmt, frag, rng)


def inflate(data):
    d = zlib.decompressobj(-15)
    r = d.decompress(data) + d.flush()
    if not d.eof or d.unused_data:
        raise ValueError('not one complete deflate stream')
    return r


def read(data):
    """every container of a file, by an independent reader: [{name: bytes}]"""
    out = []
    files, end = cfio.parse(data, 0, cfio.Fmt32)
    conts = [files]
    p = data.find(b'\xff' * 8, 16)
    while p >= 0 and len(conts) < 2:
        try:
            conts.append(cfio.parse(data, p, cfio.Fmt64)[0])
        except Exception:
            p = data.find(b'\xff' * 8, p + 1)
    for c in conts:
        t = {}
        for n, b in c:
            raw = inflate(b)
            if raw[:4] == b'\xff\xff\xff\x7f' and n != 'versions':
                sub, _ = cfio.parse(raw, 0, cfio.Fmt32)
                for a, x in sub:
                    t[f'{n}/{a}'] = x
            else:
                t[n] = raw
        out.append(t)
    return out


def check(case, tmp):
    V = hl.api('v8unpack')
    helper = hl.api('helper')
    if hasattr(helper, 'get_pool'):
        helper.get_pool = lambda **k: hl.FakePool(case.get('seed') if 'spec' in case else None)
        helper.close_pool = lambda *a, **k: None
    rng = random.Random(case.get('seed', 0))
    files = None
    if 'fixture' in case:
        with open(os.path.join(hl.REPO, FIX[case['fixture']]), 'rb') as f:
            data = f.read()
        name = os.path.basename(FIX[case['fixture']])
        if case['fixture'] < 2:
            if case['mode']:
                return hl.OUT
            # forms of these share include areas, in other versions than the shared one: building makes them agree
            for k in '01':
                hl.write_tree(os.path.join(tmp, 'bin' + k), {name: data})
                V.extract(os.path.join(tmp, 'bin' + k, name), os.path.join(tmp, 'src' + k), temp_dir=os.path.join(tmp, 't8'), options={})
                os.makedirs(os.path.join(tmp, 'out' + k))
                V.build(os.path.join(tmp, 'src' + k), os.path.join(tmp, 'out' + k, name), temp_dir=os.path.join(tmp, 't9'), options={})
                with open(os.path.join(tmp, 'out' + k, name), 'rb') as f:
                    data = f.read()
    else:
        files = synth.stage1(case['spec'])
        frag = [case['frag'], case['frag'] + 5] if case['frag'] else None
        if case.get('two'):
            first = nested({'dummy': b'x' * 10, 'версия': b'1'}, cfio.Fmt32, None, rng)
            data = first + nested(files, cfio.Fmt64, None, rng)
        else:
            data = nested(files, cfio.Fmt32, frag, rng)
        name = 'in.' + case['spec']['kind']
    hl.write_tree(os.path.join(tmp, 'bin'), {name: data})
    src_bin = os.path.join(tmp, 'bin', name)
    mode = case['mode']
    d = mode.get('descent')
    proj = os.path.join(tmp, 'proj')
    src = os.path.join(proj, 'src', 'v') if d is not None else os.path.join(proj, 'src')
    os.makedirs(src)
    os.chdir(proj)
    opt = {}
    if mode.get('auto'):
        opt['auto_include'] = True
    if d is not None:
        opt['descent'] = d
    if mode.get('prefix'):
        opt['prefix'] = mode['prefix']
    def numeric(n):
        p = os.path.basename(n).split('.')
        return len(p) > 2 and p[-2].isdigit()
    index = None
    if mode.get('index'):
        index = 'index.json'
        pre = os.path.join(tmp, 'pre', 'src')
        os.makedirs(pre)
        V.extract(src_bin, pre, temp_dir=os.path.join(tmp, 't0'), options={k: v for k, v in opt.items() if k != 'descent'})
        if any(numeric(n) for n in hl.read_tree(pre)) and mode['index'] != 'star':
            return hl.OUT     # C17-generated-index-numeric-names
        if mode['index'] == 'star':
            with open(index, 'w', encoding='utf-8') as f:
                json.dump({n: ({'*': 'shared/' + n}) for n in sorted(os.listdir(pre)) if os.path.isdir(os.path.join(pre, n))
                           and rng.random() < .5 and not any(os.path.isdir(os.path.join(pre, n, m)) for m in os.listdir(os.path.join(pre, n)))}, f)
        else:
            hl.api('index:update_index')(pre, index, 'core')
            if mode['index'] == 'split':
                with open(index, encoding='utf-8') as f:
                    idx = json.load(f)
                keys = list(idx)
                with open('sub.json', 'w', encoding='utf-8') as f:
                    json.dump({k: idx.pop(k) for k in keys[::2]}, f, ensure_ascii=False)
                idx['index.json'] = ['sub.json']
                with open(index, 'w', encoding='utf-8') as f:
                    json.dump(idx, f, ensure_ascii=False)
        shutil.rmtree(os.path.join(tmp, 'pre'))
    V.extract(src_bin, src, temp_dir=os.path.join(tmp, 't1'), index=index, options=dict(opt))
    with open(src_bin, 'rb') as f:
        if f.read() != data:
            return 'extracting changed the file it reads'
    before = hl.read_tree(proj)
    out = os.path.join(tmp, 'out', name)
    os.makedirs(os.path.dirname(out))
    V.build(src, out, temp_dir=os.path.join(tmp, 't2'), index=index, options=dict(opt))
    r = hl.diff_tree(before, hl.read_tree(proj), 'building changed its sources: ')
    if r:
        return r
    with open(out, 'rb') as f:
        built = f.read()
    a, b = read(data), read(built)
    if len(a) != len(b):
        return f'{len(a)} containers became {len(b)}'
    want = a[-1]
    if files is not None:
        if want != {k: v for k, v in synth.flat(files).items()}:
            raise AssertionError('harness: the input was not written as specified')
        if mode.get('auto'):
            from p_c09 import sort_names
            want = synth.flat(synth.stage1(expect(case['spec'], mode, sort=True)))
        else:
            want = synth.flat(synth.stage1(expect(case['spec'], mode, sort=False)))
        r = synth.same(want, b[-1])
        if r:
            return r
    else:
        r = compare_fixture(want, b[-1], mode)
        if r:
            return r
    if len(a) == 2 and a[0] != b[0]:
        return f'the first container changed: {hl.diff_tree(a[0], b[0])}'
    if 'versions' in b[-1]:
        r = synth.check_versions(b[-1])
        if r:
            return r
    # and the sources extracted from the built file are the ones it was built from
    src2 = os.path.join(tmp, 'proj2', 'src', 'v') if d is not None else os.path.join(tmp, 'proj2', 'src')
    os.makedirs(src2)
    os.chdir(os.path.join(tmp, 'proj2'))
    for n in ('index.json', 'sub.json'):
        if os.path.exists(os.path.join(proj, n)):
            shutil.copy(os.path.join(proj, n), n)
    V.extract(out, src2, temp_dir=os.path.join(tmp, 't3'), index=index, options=dict(opt))
    x, y = before, hl.read_tree(os.path.join(tmp, 'proj2'))
    for t in (x, y):
        for n in list(t):
            if n.endswith('.json') and t[n]:
                t[n] = neutral(t[n])
            elif n.endswith('.zip'):
                t[n] = None
    return hl.diff_tree(x, y, 'extracting the built file again: ')


def neutral(data):
    """sources without what is new on every build: identifiers of the list of versions, the list of hashes"""
    try:
        j = json.loads(data.decode('utf-8-sig'))
    except ValueError:
        return data
    if isinstance(j, dict):
        if 'versions' in j and isinstance(j['versions'], list):
            del j['versions']
        if isinstance(j.get('configinfo'), list):
            j['configinfo'] = j['configinfo'][:2]
    return json.dumps(j, sort_keys=True, ensure_ascii=False).encode()


def expect(spec, mode, sort):
    from p_c09 import sort_names
    s = sort_names(spec, mode.get('prefix') or '') if sort else spec
    if mode.get('prefix') and spec['kind'] == 'cfe':
        s = dict(s, fields={'42': '"' + mode['prefix'] + '"'})
    return s


def lines(t):
    # module texts are kept with one kind of line ends
    return {n: v.replace(b'\r', b'') if v and b'\0' not in v else v for n, v in t.items()}


# this form of the fixture is not balanced: it has more closing brackets than opening ones
MALFORMED = {'d7825d26-d9a5-4eb4-8535-490d5337dada.0'}


def compare_fixture(a, b, mode):
    a, b = lines(a), lines(b)
    if set(a) == set(b):
        a, b = ({n: v for n, v in t.items() if n not in MALFORMED} for t in (a, b))
    return synth.same(a, b) if not mode.get('auto') else same_sorted(a, b)


def same_sorted(a, b):
    """as synth.same, with the members of includes tables in any order"""
    def norm(t):
        if isinstance(t, list):
            t = [norm(x) for x in t]
            if len(t) > 2 and isinstance(t[0], str) and len(t[0]) == 36 and isinstance(t[1], str) and t[1].isdigit() and int(t[1]) == len(t) - 2:
                return t[:2] + sorted(t[2:], key=repr)
        return t
    x = {n: (norm(synth.tree(v)) if v is not None else v) for n, v in a.items()}
    y = {n: (norm(synth.tree(v)) if v is not None else v) for n, v in b.items()}
    if set(x) != set(y):
        return f'lost {sorted(set(x) - set(y))[:5]}, appeared {sorted(set(y) - set(x))[:5]}'
    for n in sorted(x):
        p, q = x[n], y[n]
        if n == 'configinfo':
            p, q = p[:2], q[:2]
        if n != 'versions' and p != q:
            from p_c03 import first_diff
            return f'{n}: {first_diff(p, q)[:500] if isinstance(p, list) and isinstance(q, list) else "content changed"}'
