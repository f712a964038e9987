"""C16 payloads: taken out exactly, put back exactly"""
import base64
import json
import os
import re

import hl
import synth

MIN_CASES = 20
PAY = sorted(n for n, t in synth.TAB.items() if n in synth.TOP and (t['kind'] in ('info', 'template') or t['help'] is not None or t['pre'] != 'None'
             or n in ('BusinessProcess', 'ExchangePlan', 'Subsystem', 'XDTOPackage', 'WSReference', 'CommonPicture')))


def cases(rng, tier):
    for k in synth.TMPL:
        for p in (['rnd', 1, 1], ['rnd', 46, 2], ['rnd', 300, 3], ['zero', 3000, 1], ['bom', 60, 1], ['text', 100, 5], ['nl', 50, 1], ['nl', 1, 1], ['tail0', 40, 1]):
            for t in ('CommonTemplate',):
                yield {'spec': {'kind': 'cf', 'ver': '80315', 'objects': [dict(t=t, u=1, name='М', tmpl=k, pay=p, tenc='utf-8', own='0')]}}
                if k in ('base64', 'extension'):
                    yield {'spec': {'kind': 'cf', 'ver': '80315', 'objects': [dict(t=t, u=1, name='М', tmpl=k, pay=p, tenc='utf-8', own='0')]}, 'plain': True}
    for n in (0, 1, 13, 45, 48, 751000, 801000):
        yield {'spec': {'kind': 'cf', 'ver': '80315', 'objects': [dict(t='Catalog', u=1, name='С', own='0', help=['rnd', n, 1])]}, 'big': n > 750000}
    while True:
        g = synth.Gen(rng, forms=False, code=rng.random() < .3)
        objs = []
        for t in rng.sample(PAY, rng.randrange(1, 5)):
            o = g.obj(t, 1)
            p = g.pay
            o['pay'] = p()
            if synth.TAB[t]['help'] is not None:
                o['help'] = p()
            if synth.TAB[t]['pre'] != 'None':
                o['pre'] = p()
            objs.append(o)
        s = g.spec(n=0)
        if s['kind'] in ('cf', 'cfe'):
            s['objects'] = objs
        else:
            s['objects'] = [g.obj('Template', 0) for _ in range(rng.randrange(1, 4))]
            for o in s['objects']:
                o['pay'] = g.pay()
        yield {'spec': s}


def shrinks(case):
    for s in synth.shrinks(case['spec']):
        yield {'spec': s}


def held(o):
    """the payloads that come out as files of their own: (what, bytes)"""
    t = synth.TAB.get(o['t'])
    if not t:
        return
    if o.get('help') is not None and t['help'] is not None:
        yield 'help', synth.payload(o['help'])
    if o.get('pre') is not None and t['pre'] != 'None':
        yield 'predefined data', synth.payload(o['pre'])
    p = o.get('pay')
    if not p:
        return
    d = synth.payload(p)
    if t['kind'] == 'template':
        k = o['tmpl']
        if k == 'text':
            d = o.get('ttext', 'текст\r\nмакета\n').encode(o.get('tenc', 'utf-8'))
        yield f'template {k}', d
    elif o['t'] in ('CommonPicture', 'XDTOPackage', 'WSReference', 'BusinessProcess') or t['kind'] == 'info':
        yield 'payload', d


def check(case, tmp):
    spec = case['spec']
    files = synth.stage1(spec)
    synth.decode(tmp, files, {})
    src = hl.read_tree('d3')
    if spec.get('image') and spec['kind'] == 'cf' and synth.payload(spec['image']) not in [b for n, b in src.items() if '/' not in n]:
        return 'no file beside the root description holds the picture of the configuration'
    for o in synth.walk(spec['objects']):
        here = {n: b for n, b in src.items() if b is not None and f'/{o["name"]}/' in '/' + n}
        for what, d in held(o):
            if case.get('big'):
                continue      # kept as the whole file
            whole = [files.get(f'{synth.uid(o["u"])}.{i}') for i in '0'] if what in ('template base64', 'template extension') else []
            if not any(b == d or b in whole for b in here.values()):
                return f'no file of {o["t"]} {o["name"]} holds its {what} ({len(d)} bytes): {[(n.split("/")[-1], len(b)) for n, b in here.items()]}'
    if case.get('plain'):
        # sources that hold the data of such a template as a plain file: what is built must hold the same bytes
        o = spec['objects'][0]
        d = synth.payload(o['pay'])
        for n in list(src):
            if n.endswith('.c1b64'):
                os.remove(os.path.join(tmp, 'd3', n))
                with open(os.path.join(tmp, 'd3', n[:-5] + 'bin'), 'wb') as f:
                    f.write(d)
        got = synth.encode(tmp, {})
        text = got.get(synth.uid(o['u']) + '.0')
        m = text and re.search(rb'#base64:([^}]*)}', text)
        if not m or base64.b64decode(m.group(1)) != d:
            return f'template {o["tmpl"]} built from a plain file of {len(d)} bytes {d[:40]!r} became {text and text[:200]!r}'
        return
    got = synth.encode(tmp, {})
    return synth.same(files, got)
