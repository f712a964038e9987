"""C08 identity of objects: identifier, name and comment"""
import copy
import types

import hl
import synth

MIN_CASES = 20
TEXTS = ['', 'Имя', '""', 'a""b', '""""', 'Пр_', 'Пр_Имя', 'Пр_Пр_Имя', 'пр_Имя', 'xПр_', 'Пр', ' Имя', '"', 'ver:1', 'a,b', '{}', 'имя\nдва', '#base64:']
PRE = ['', '', 'Пр_', 'П', 'x', 'Пр_Имя']


def cases(rng, tier):
    for n in TEXTS:
        for p in PRE[1:]:
            for own in (None, '0', '1'):
                for path in ('Catalog', 'Catalog/Имя/Forms', None):
                    yield {'name': n, 'comment': n, 'syn': {'ru': n}, 'own': own, 'prefix': p, 'path': path, 'u': 1}
    while True:
        if rng.random() < .6:
            yield {'name': text(rng), 'comment': text(rng), 'syn': {k: text(rng) for k in rng.sample(['ru', 'en', 'uk', 'x'], rng.randrange(0, 4))},
                   'own': rng.choice([None, '0', '1', '2']), 'up': rng.random() < .1, 'prefix': rng.choice(PRE), 'u': rng.randrange(99),
                   'path': rng.choice(['Catalog', 'CommonModule', 'Catalog/Имя/Forms', 'a/b/c', None])}
        else:
            g = synth.Gen(rng, payloads=False, code=False)
            pre = rng.choice(PRE)
            g.prefix = pre
            yield {'spec': g.spec(n=rng.choice([1, 2, 5]), depth=rng.choice([1, 2])), 'prefix': pre, 'auto': rng.random() < .4}


def text(rng):
    return ''.join(rng.choice(TEXTS) for _ in range(rng.randrange(0, 4))).replace('"', '""') if rng.random() < .8 else rng.choice(TEXTS)


def shrinks(case):
    if 'spec' in case:
        for s in synth.shrinks(case['spec']):
            yield dict(case, spec=s)


def check(case, tmp):
    if 'spec' in case:
        return whole(case, tmp)
    dec, enc = hl.api('helper:decode_header'), hl.api('helper:encode_header')
    h0 = synth.header(case)
    if case.get('up'):
        h0[1][2] = h0[1][2].upper()
    h = copy.deepcopy(h0)
    top = case['path'] is not None and '/' not in case['path']
    obj = types.SimpleNamespace(header={}, options={'prefix': case['prefix']} if case['prefix'] else {}, parent_id='Configuration')
    if case['path'] is not None:
        obj.path = case['path']
        obj.parent_id = 'Configuration' if top else 'Configuration/Catalog/Имя'
    dec(obj, h, id_in_separate_file=True)
    strip = top and case['prefix'] and case['own'] in (None, '0') and case['name'].startswith(case['prefix'])
    want = case['name'][len(case['prefix']):] if strip else case['name']
    got = obj.header
    if got.get('name') != want:
        return f'the name {case["name"]!r} (prefix {case["prefix"]!r}) was extracted as {got.get("name")!r}, should be {want!r}'
    if got.get('uuid') != h0[1][2] or got.get('comment') != case['comment']:
        return f'identifier or comment changed: {got}'
    if got.get('name2') != case['syn']:
        return f'the synonyms {case["syn"]} were extracted as {got.get("name2")}'
    if case['prefix'] and top and case['own'] in (None, '0') and not strip:
        return None      # a name without the prefix gets it
    if case['path'] is None:
        return None      # the root object is not built through encode_header
    enc(obj, h)
    if h != h0:
        from p_c03 import first_diff
        return f'the header built from what was extracted differs: {first_diff(h0, h)}'


def whole(case, tmp):
    spec = case['spec']
    files = synth.stage1(spec)
    opt = {}
    if case['auto']:
        opt['auto_include'] = True
    if case['prefix']:
        opt['prefix'] = case['prefix']
    import p_c07
    mode = {'prefix': case['prefix']} if case['prefix'] else {}
    synth.decode(tmp, files, opt)
    for o in synth.walk(spec['objects']):
        pass
    got = synth.encode(tmp, opt)
    want = synth.stage1(p_c07.expect(spec, mode, bool(case['auto'])))
    return synth.same(want, got)
