"""C10 version gate: same major and minor number, and nothing else"""
import json
import os

import hl
import synth

MIN_CASES = 50
PARTS = ['0', '1', '2', '9', '10', '11', '100', '99']
LAST = ['0', '1', '15', '99', '100', '7']


def cases(rng, tier):
    for a in PARTS:
        for b in PARTS:
            yield {'v': ['1', '2', '3'], 's': [a, b, '3']}
            yield {'v': [a, b, '0'], 's': [a, b, '9']}
            yield {'v': [a, b, '0'], 's': [b, a, '0']}
    for how in ('major', 'minor', 'patch', 'none', 'longer', 'absent'):
        for k in ('cf', 'epf', 'cfe', 'erf'):
            for o in ({}, {'version': '80309'}, {'prefix': 'п_'}, {'product': 'п'}, {'product_version': '1'}, {'auto_include': True}):
                yield {'tool': how, 'kind': k, 'opts': o}
    while True:
        v = [str(rng.randrange(0, rng.choice([3, 12, 120]))) for _ in range(3)]
        s = list(v)
        for i in rng.sample(range(3), rng.randrange(0, 3)):
            s[i] = rng.choice([str(rng.randrange(0, 130)), v[i] + '0', '1' + v[i], str(int(v[i]) + 1), v[i][:-1] or '0'])
        yield {'v': v, 's': s}


def check(case, tmp):
    if 'tool' in case:
        return gate(case, tmp)
    f = hl.api('helper:check_version')
    v, s = '.'.join(case['v']), '.'.join(case['s'])
    same = [int(x) for x in case['v'][:2]] == [int(x) for x in case['s'][:2]]
    try:
        f(v, s)
    except Exception as e:
        if same:
            return f'tool {v} refused sources of {s}: {e}'
        m = str(e)
        if '.'.join(case['v'][:2]) not in m or '.'.join(case['s'][:2]) not in m:
            return f'the error for tool {v} and sources {s} does not name both: {m}'
        return None
    if not same:
        return f'tool {v} accepted sources of {s}'


def gate(case, tmp):
    """through extracting and building whole objects"""
    spec = {'kind': case['kind'], 'objects': [], 'name': 'Имя'}
    files = synth.stage1(spec)
    synth.decode(tmp, files, {})
    tool = hl.api('version:__version__')
    names = [n for n in os.listdir('d3') if n.endswith('.json')]
    vers = []
    for n in names:
        with open(os.path.join('d3', n), encoding='utf-8-sig') as f:
            j = json.load(f)
        if isinstance(j, dict) and 'v8unpack' in j:
            vers.append(j['v8unpack'])
            p = j['v8unpack'].split('.')
            h = case['tool']
            if h == 'major':
                p[0] = str(int(p[0]) + 1)
            elif h == 'minor':
                p[1] = p[1] + '0' if p[1] != '0' else '1'
            elif h == 'patch':
                p[2] = str(int(p[2]) + 7)
            elif h == 'longer':
                p = [p[0], p[1] + '1', p[2]]
            j['v8unpack'] = '.'.join(p)
            if h == 'absent':
                del j['v8unpack']
            with open(os.path.join('d3', n), 'w', encoding='utf-8') as f:
                json.dump(j, f, ensure_ascii=False)
    if vers != [tool]:
        return f'recorded versions are {vers}, the tool is {tool}'
    try:
        synth.encode(tmp, case['opts'])
    except Exception as e:
        if case['tool'] in ('patch', 'none'):
            return f'sources of the same major and minor version were refused: {e}'
        if case['tool'] == 'absent':
            return None
        if '.'.join(tool.split('.')[:2]) not in str(e) or '.'.join(p[:2]) not in str(e):
            return f'the error does not name both versions: {e}'
        return None
    if case['tool'] not in ('patch', 'none'):
        return f'sources of version {j.get("v8unpack")} were accepted by {tool}'
