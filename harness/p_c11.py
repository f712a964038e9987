"""C11 module text: same text and mark, encrypted or not, in a file or in a folder, on old and new platforms"""
import os
import re

import hl
import synth

MIN_CASES = 20
OWNERS = sorted(n for n in synth.TOP if synth.TAB[n]['code'] and n not in ('CommonPicture', 'XDTOPackage', 'WSReference')
                and synth.TAB[n]['kind'] in ('container', 'simple'))
OLD = re.compile(r'\n(#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')


def cases(rng, tier):
    for t in ('Процедура()\n', '\n&НаСервере\nА\n', '\n#Область А\n\n#КонецОбласти\n', 'А\n&НаКлиенте\n&НаСервереБезКонтекста\n&НаКлиентеНаСервере\n',
              ' &НаКлиенте\n#Область\n', '\ufeffx', 'a', '\n', 'x\n\n\n', '// комментарий\n//&НаКлиенте\n', 'Я = "\n|#Область\n"\n', 'а\n// v8unpack#Область х\n//v8unpack &НаСервере\n// v8unpack  #х\n// v8unpack-&\n'):
        for enc in ('utf-8', 'utf-8-sig'):
            for d in (True, False):
                for ver in ('80315', '80204'):
                    yield one({'dir': d, 'enc': enc, 'text': t}, ver)
    for b in (b'', b'\xff', b'\x98', b'\xff\xfe\x98\x98', b'\xd0\x98\x98\xff' * 50, b'\xef\xbb\xbf\xff\x98', b'\x98' + bytes(range(256)) * 4, b'\x98\r\n\x98\n'):
        for d in (True, False):
            for im in (True, False):
                yield one({'dir': d, 'enc': 'raw', 'text': b.hex(), 'image': im}, '80315')
    while True:
        g = synth.Gen(rng, payloads=False, forms=False)
        if rng.random() < .4:
            yield {'spec': {'kind': 'epf', 'ver': rng.choice(['80204', '80315']), 'objects': [], 'code': {'obj': g.mod()}}}
            continue
        objs = []
        for t in rng.sample(OWNERS, rng.randrange(1, 4)):
            o = g.obj(t, 0)
            o['code'] = {n: g.mod() for n in synth.TAB[t]['code']}
            objs.append(o)
        s = g.spec(n=0)
        s['objects'] = objs if s['kind'] in ('cf', 'cfe') else []
        yield {'spec': s}


def one(m, ver):
    return {'spec': {'kind': 'epf', 'ver': ver, 'objects': [], 'code': {'obj': m}}}


def mods(spec):
    for o in [{'code': spec.get('code', {})}, *synth.walk(spec['objects'])]:
        for m in o.get('code', {}).values():
            yield m


def shrinks(case):
    for s in synth.shrinks(case['spec']):
        yield {'spec': s}
    for m in list(mods(case['spec'])):
        if m['enc'] != 'raw':
            keep = m['text']
            for l in hl.shrink_list(keep.split('\n')):
                m['text'] = '\n'.join(l)
                yield hl.json.loads(hl.json.dumps(case))
            m['text'] = keep


def check(case, tmp):
    spec = case['spec']
    old = spec.get('ver', '').startswith('802')
    for m in mods(spec):
        if m['enc'] == 'raw' and m['dir'] and m.get('image'):
            continue
        if m['enc'] == 'raw':
            try:
                bytes.fromhex(m['text']).decode('utf-8')
                return hl.OUT
            except UnicodeDecodeError:
                pass
            try:
                bytes.fromhex(m['text']).decode('cp1251')
                return hl.OUT
            except UnicodeDecodeError:
                pass
        elif m['enc'] == 'cp1251':
            try:
                m['text'].encode('cp1251').decode('utf-8')
                return hl.OUT
            except UnicodeDecodeError:
                pass
            except UnicodeEncodeError:
                return hl.OUT
        elif old and '// v8unpack ' in m['text']:
            pass
        if m['enc'] != 'raw' and ('\r' in m['text'] or m['text'].startswith('\ufeff')):
            return hl.OUT
    import copy
    spec = copy.deepcopy(spec)
    plain = {}
    if old:
        # what the tool shows has the directives; what old platforms hold has them commented out
        for name, m in spec.get('code', {}).items():
            if m['enc'] != 'raw':
                m['text'] = m['text'].replace('\n// v8unpack ', '\n')
                plain[name] = m['text']
                m['text'] = OLD.sub(r'\n// v8unpack \1', m['text'])
    files = synth.stage1(spec)
    synth.decode(tmp, files, {})
    src = hl.read_tree('d3')
    for name, t in plain.items():
        f = [n for n in src if n.endswith(f'.{name}.bsl') and '/' not in n]
        if t and (len(f) != 1 or src[f[0]].decode('utf-8-sig') != t):
            return f'the module extracted from an old platform reads {src[f[0]].decode("utf-8-sig")[:200]!r}, should read {t[:200]!r}' if f else \
                f'the module {name} was not extracted'
    if not old:
        for m in mods(spec):
            if m['enc'] in ('utf-8', 'utf-8-sig') and m['text'] and not any(
                    n.endswith('.bsl') and b is not None and b.decode('utf-8-sig', 'replace') == m['text'] for n, b in src.items()):
                return f'no module of the sources reads {m["text"][:200]!r}'
    got = synth.encode(tmp, {})
    return synth.same(files, got)
