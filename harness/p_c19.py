"""C19 options of a product change the field they stand for, and nothing else"""
import copy
import os
import sys

import hl
import synth

MIN_CASES = 20
VERS = ['80306', '80316', '80327', '0', '65535']
PV = ['1.0', '3.0.75.100', '', 'х 1', '2:3', 'a;b', '10']
PREF = ['Пр_', 'П', 'x1', '_']
COM = ['ver:', 'ver:1', 'комментарий ver:1.0.0', 'a;ver:out.cf:1.2', 'вер:1', 'ver', 'Ver:1', 'xver:', 'ver:ver:', '', '""ver:""', ':ver:1:2']


def cases(rng, tier):
    for kind in ('cf', 'cfe', 'epf', 'erf'):
        base = {'kind': kind, 'ver': '80315', 'name': 'Корень', 'comment': 'ver:1.1', 'objects': [], 'code': {}}
        for o in ({}, {'version': '80306'}, {'prefix': 'Пр_'}, {'pv': '2.0'}, {'pv': '2.0', 'product': 'п'}, {'product': 'п'}, {'pv': '', 'version': '1'}):
            yield dict(o, spec=base, file='out.' + kind)
        for c in COM:
            yield {'spec': dict(base, comment=c), 'pv': '5.6', 'file': 'имя.' + kind}
    for kind, n in (('cf', '26'), ('cfe', '43')):
        for old in ('0', '1', '80306'):
            for new in ('0', '80316', '80306'):
                yield {'spec': {'kind': kind, 'ver': '80315', 'name': 'К', 'comment': '', 'objects': [], 'code': {}, 'fields': {n: old}}, 'version': new, 'file': 'x'}
    yield {'argv': ['--version', '80306']}
    yield {'argv': ['--prefix', 'П']}
    yield {'argv': ['--descent', '5', '--auto_include']}
    yield {'argv': []}
    while True:
        if rng.random() < .08:
            a = []
            for k, vs in (('--version', VERS), ('--prefix', PREF), ('--descent', ['3000075100', '7'])):
                if rng.random() < .5:
                    a += [k, rng.choice(vs)]
            if rng.random() < .5:
                a.append('--auto_include')
            yield {'argv': a, 'way': rng.choice(['-E', '-B'])}
            continue
        g = synth.Gen(rng, payloads=rng.random() < .3, code=rng.random() < .3)
        s = g.spec(n=rng.choice([0, 1, 3, 6]), depth=rng.choice([1, 2]))
        if rng.random() < .6:
            s['comment'] = rng.choice(COM)
        if s['kind'] in ('cf', 'cfe') and rng.random() < .4:
            s['fields'] = {str(rng.choice([3, 7, 14, 16, 25, 27, 38, 41, 44])): f'"п{rng.randrange(99)}"', '15': f'"в{rng.randrange(99)}"'}
            s['fields']['26' if s['kind'] == 'cf' else '43'] = rng.choice(['0', '1', '80316'])
        c = {'spec': s, 'file': rng.choice(['out.cf', 'имя файла.epf', 'a']), 'auto': rng.random() < .3}
        if rng.random() < .5:
            c['version'] = rng.choice(VERS)
        if rng.random() < .4:
            c['prefix'] = rng.choice(PREF)
        if rng.random() < .6:
            c['pv'] = rng.choice(PV)
        if rng.random() < .3:
            c['product'] = rng.choice(['п', 'product_1'])
        yield c


def shrinks(case):
    for k in ('version', 'prefix', 'pv', 'product', 'auto'):
        if case.get(k):
            yield {a: b for a, b in case.items() if a != k}
    if 'spec' in case:
        for s in synth.shrinks(case['spec']):
            yield dict(case, spec=s)


def expect(case):
    s = copy.deepcopy(case['spec'])
    k = s['kind']
    f = dict(s.get('fields', {}))
    if k in ('cf', 'cfe') and 'version' in case:
        f['26' if k == 'cf' else '43'] = case['version']
    if k == 'cfe':
        pv = case.get('pv', f.get('15', '"1.2.3"')[1:-1])
        if case.get('product'):
            pv = f'{case["product"]}_{pv}'
        f['15'] = f'"{pv}"'
        if 'prefix' in case:
            f['42'] = f'"{case["prefix"]}"'
    else:
        pv = case.get('pv', '')
    if k != 'cf' and case.get('file'):
        full = case['pv'] if 'pv' in case else (f.get('15', '"1.2.3"')[1:-1] if k == 'cfe' else '')
        if k == 'cfe' and 'pv' not in case:
            full = s.get('fields', {}).get('15', '"1.2.3"')[1:-1]
        i = s.get('comment', '').find('ver:')
        if full and i >= 0:
            s['comment'] = s['comment'][:i + 3] + ':' + case['file'] + ':' + full
    s['fields'] = f
    if case.get('prefix'):
        for o in s['objects']:
            if o.get('own') in (None, '0') and not o.get('inline') and not o['t'].startswith('?'):
                o['name'] = case['prefix'] + o['name']
    return s


def check(case, tmp):
    if 'argv' in case:
        return command(case, tmp)
    files = synth.stage1(case['spec'])
    base = {'auto_include': True} if case.get('auto') else {}
    synth.decode(tmp, files, base)
    vb = os.path.join(tmp, 'd3', 'version.bin')
    if 'pv' in case:
        with open(vb, 'wb') as f:
            f.write(case['pv'].encode())
    opt = dict(base)
    for k in ('version', 'prefix', 'product'):
        if k in case:
            opt[k] = case[k]
    given = dict(opt)
    f = hl.api('decoder:encode')
    f(os.path.join(tmp, 'd3'), os.path.join(tmp, 's4'), pool=hl.FakePool(), options=opt, file_name=case['file'])
    got = hl.read_tree(os.path.join(tmp, 's4', '0'))
    want = synth.stage1(expect(case))
    if case.get('auto'):
        from p_c09 import sort_names
        want = synth.stage1(expect(dict(case, spec=sort_names(case['spec'], ''))))
    r = synth.same(want, got)
    if r:
        return f'with {given}, product version {case.get("pv")!r}: {r}'


def command(case, tmp):
    V = hl.api('v8unpack')
    calls = []
    saved = V.extract, V.build, sys.argv
    way = case.get('way', '-B')
    try:
        V.extract = lambda *a, **k: calls.append(('extract', a, k))
        V.build = lambda *a, **k: calls.append(('build', a, k))
        sys.argv = ['v8unpack', way, 'a', 'b', *case['argv']]
        V.main()
    finally:
        V.extract, V.build, sys.argv = saved
    want = {}
    a = case['argv']
    for i, x in enumerate(a):
        if x == '--auto_include':
            want['auto_include'] = True
        elif x.startswith('--'):
            want[x[2:]] = int(a[i + 1]) if x == '--descent' else a[i + 1]
    if len(calls) != 1:
        raise hl.Unattached('main does not call extract or build')
    got = {k: v for k, v in (calls[0][2].get('options') or {}).items() if v}
    if got != want:
        return f'{way} {" ".join(a)}: the options passed on are {got}'
