"""C04 modules with shared areas: laying out into files and assembling back"""
import os
import re

import codegen
import hl

MIN_CASES = 20


def ok(nodes, dd=None):
    """precondition: a stripped directive line repeats the directive of the innermost area that has one"""
    for n in nodes:
        if 'line' in n:
            if ' //DynamicDirective' in n['line'] and '&' in n['line']:
                if dd is None or not n['line'].startswith(dd + ' //DynamicDirective'):
                    return False
            if dd is not None and n['line'].strip().startswith('//DynamicDirective'):
                return False
        elif 'area' in n:
            if not ok(n['body'], n['dd'] or (None if n.get('main') else dd)):
                return False
        elif not ok(n['body'], dd):
            return False
    return True


def laid(nodes):
    """the text of an area as it is laid out: directives taken away, inner areas by their header and footer only"""
    for l in codegen.lines([dict(n, body=[{'line': '\0' + l} for l in laid(n['body'])] if 'region' in n else []) if 'body' in n else n for n in nodes]):
        i = l.rfind(' //DynamicDirective')
        yield l[i + 1:] if i >= 0 and '&' in l else l


def shared(case):
    """areas of one name are one file: the same text, whatever the directive in force"""
    text = {}
    for m in case['mods']:
        for a in codegen.areas(m['nodes']):
            t = (a['area'], list(laid(a['body'])))
            if text.setdefault(a['name'], t) != t:
                return False
    return True


def redirected(nodes, old, new):
    out = []
    for n in nodes:
        if 'line' in n:
            out.append({'line': new + n['line'][len(old):]} if n['line'].startswith(old + ' //DynamicDirective') else n)
        elif n.get('dd'):
            out.append(n)
        else:
            out.append(dict(n, body=redirected(n['body'], old, new)))
    return out


def cases(rng, tier):
    mk = lambda body, **k: dict({'mods': [{'path': 'CommonModule/X', 'name': 'obj.bsl', 'nodes': body, 'eol': True}], 'descent': None}, **k)
    L = lambda s: {'line': s}
    A = lambda name, body, kind='include_', dd=None: {'area': kind, 'name': name, 'dd': dd, 'ind': '', 'sp': '', 'tail': '', 'body': body}
    R = lambda body: {'region': 'Имя', 'ind': '', 'body': body}
    for d in (None, 5):
        yield mk([L('a'), A('q_M', [L('b')]), L('c')], descent=d)
        yield mk([L('a'), A('q_M', [L('b'), A('q_N', [L('z')]), L('t')]), L('c')], descent=d)
        yield mk([L('a'), A('q_M', [L('b'), R([L('r'), A('N', [L('z')])]), L('t')]), L('c')], descent=d)
        yield mk([A('M', [A('N', [A('q_P', [L('1')]), L('2')]), L('3')])], descent=d)
        yield mk([A('q_M', [L('&НаКлиенте //DynamicDirective'), L('b')], dd='&НаКлиенте'), L('c')], descent=d)
        yield mk([A('q_M', [A('q_N', [L('&НаКлиенте //DynamicDirective'), L('b')])], dd='&НаКлиенте'), L('c')], descent=d)
        yield mk([A('q_M', [A('q_N', [L('&НаСервере //DynamicDirective')], dd='&НаСервере'), L('&НаКлиенте //DynamicDirective')],
                    dd='&НаКлиенте'), L('c')], descent=d)
        yield mk([A('r_M', [L('b'), A('q_N', [L('z')])], kind='includr_'), L('c')], descent=d, readonly=['r_M'])
        yield mk([], descent=d)
        one = A('q_M', [L('b'), A('q_N', [L('z')]), L('&НаКлиенте //DynamicDirective')], dd='&НаКлиенте')
        yield mk([L('a'), one, L('c'), A('q_P', [one])], descent=d)
        two = dict(one, dd='&НаСервере', body=redirected(one['body'], '&НаКлиенте', '&НаСервере'))
        yield {'mods': [{'path': 'CommonModule/X', 'name': 'obj.bsl', 'nodes': [L('a'), one], 'eol': True},
                        {'path': 'CommonModule/Y', 'name': 'obj.bsl', 'nodes': [two, L('c')], 'eol': False}], 'descent': d}
    while True:
        d = rng.choice([None, None, 5, 3000075100])
        mods, used = [], set()
        g = codegen.Gen(rng, kinds=rng.choice([('include_',), ('include_',), ('include_',), ('includr_',)]))
        for i in range(rng.choice([1, 1, 2, 3])):
            path = rng.choice(['CommonModule/X', 'CommonModule/Y.5', 'A/B/Forms/C', 'Имя с пробелом', '', 'includes/q'])
            name = rng.choice(['obj.bsl', 'mgr.bsl', 'Форма.obj.bsl', 'м.1.obj.bsl'])
            if (path, name) in used:
                continue
            used.add((path, name))
            nodes = g.body(rng.randrange(0, 4), None)
            if not ok(nodes):
                continue
            mods.append({'path': path, 'name': name, 'nodes': nodes, 'eol': rng.random() < .8})
        if mods:
            if rng.random() < .3:  # an area shared by several places
                many = [a for m in mods for a in codegen.areas(m['nodes'])]
                if many:
                    a = rng.choice(many)
                    if a['dd'] and rng.random() < .5:
                        new = rng.choice(codegen.DD)
                        a = dict(a, dd=new, body=redirected(a['body'], a['dd'], new))
                    m = rng.choice(mods)
                    m['nodes'] = m['nodes'] + [a]
                    if not ok(m['nodes']):
                        continue
            c = {'mods': mods, 'descent': d}
            if rng.random() < .25:
                names = [a['name'] for m in mods for a in codegen.areas(m['nodes'])]
                c['index'] = {n: 'map_' + n.replace('_', '') for n in names if rng.random() < .5}
            yield c


def shrinks(case):
    for l in hl.shrink_list(case['mods']):
        if l:
            yield dict(case, mods=l)
    for i, m in enumerate(case['mods']):
        for n in codegen.shrinks(m['nodes']):
            if ok(n):
                yield dict(case, mods=case['mods'][:i] + [dict(m, nodes=n)] + case['mods'][i + 1:])


def check(case, tmp):
    d = case['descent']
    org = hl.api('organizer_file:OrganizerFile') if d is None else hl.api('organizer_file_ce:OrganizerFileCE')
    idx = {'Области include': case['index']} if case.get('index') else None
    src = {}
    for m in case['mods']:
        if not ok(m['nodes']):
            return hl.OUT
        t = codegen.render(m['nodes'], m['eol'])
        if '\r' in t:
            return hl.OUT
        src[os.path.normpath(os.path.join(m['path'], m['name']))] = t.encode()
    names = [a['name'] for m in case['mods'] for a in codegen.areas(m['nodes'])]
    if len(set(names)) != len(names) and not shared(case):
        return hl.OUT
    if any(a['area'] == 'includr_' for m in case['mods'] for a in codegen.areas(m['nodes'])):
        return check_readonly(case, tmp, org, src, idx)
    hl.write_tree('s3', src)
    out = os.path.join(tmp, 'w', 'v', 'project', 'src', 'cf')
    os.makedirs(out)
    org.unpack(os.path.join(tmp, 's3'), out, pool=hl.FakePool(), index=idx, descent=d)
    # every area is a file of its own, and its text is nowhere else
    laid = hl.read_tree('w')
    for m in case['mods']:
        for a in codegen.areas(m['nodes']):
            base = (case.get('index') or {}).get(a['name'], a['name']).split('_')[-1]
            if not any(re.fullmatch(re.escape(base) + r'(\.\d+)?\.bsl', os.path.basename(f)) for f in laid):
                return f'no file for the area {a["name"]}: {sorted(laid)}'
    org.pack(out, os.path.join(tmp, 'b3'), pool=hl.FakePool(), index=idx, descent=d)
    # the file of an area with a one-part name lies beside its module and comes along
    got = {k: v for k, v in hl.read_tree('b3').items() if k in src or os.path.basename(k)[:-4] not in flat_names(case)}
    return hl.diff_tree(src, got)


def flat_names(case):
    names = [a['name'] for m in case['mods'] for a in codegen.areas(m['nodes'])]
    names = [(case.get('index') or {}).get(n, n) for n in names]
    return {n for n in names if '_' not in n}


def check_readonly(case, tmp, org, src, idx):
    """read-only areas: their files are never written by unpacking, and are taken as they are by building"""
    d = case['descent']
    hl.write_tree('s3', src)
    out = os.path.join(tmp, 'w', 'v', 'project', 'src', 'cf')
    os.makedirs(out)
    where = {}
    for m in case['mods']:
        for a in codegen.areas(m['nodes']):
            if '_' not in a['name'] or a['area'] != 'includr_' or idx:
                return hl.OUT
            parts = ['..' if p == '' else p for p in a['name'].split('_')]
            up = ['..'] if d is None else ['..', '..']
            f = os.path.normpath(os.path.join(out, *up, *parts)) + '.bsl'
            if f in where.values():
                return hl.OUT
            where[a['name']] = f
    text = {n: f'// {n} из общей папки\n' for n in where}
    for n, f in where.items():
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w', encoding='utf-8') as fd:
            fd.write(text[n])
    org.unpack(os.path.join(tmp, 's3'), out, pool=hl.FakePool(), index=idx, descent=d)
    for n, f in where.items():
        with open(f, encoding='utf-8') as fd:
            if fd.read() != text[n]:
                return f'unpacking wrote the file of the read-only area {n}'
    org.pack(out, os.path.join(tmp, 'b3'), pool=hl.FakePool(), index=idx, descent=d)

    def subst(nodes):
        return [dict(n, body=[{'line': text[n['name']][:-1]}] if 'area' in n else subst(n['body'])) if 'body' in n else n for n in nodes]

    want = {os.path.normpath(os.path.join(m['path'], m['name'])): codegen.render(subst(m['nodes']), m['eol']).encode() for m in case['mods']}
    return hl.diff_tree(want, hl.read_tree('b3'), 'building with read-only areas: ')
