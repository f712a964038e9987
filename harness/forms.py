"""form trees of the kinds the platform writes, from small descriptions (the descriptions are the inputs that are searched and shrunk)

managed form:  {'v': root version, 'top': [element...], 'props': [...], 'params': [...], 'commands': [...], 'code': text, 'tail': n, 'panels': n}
element:       {'t': kind, 'n': name, 'k': [counters], 'ch': [element...], 'link': [ids], 'cmd': id, 'x': filler seed, 'rv': version}
ordinary form: {'v': '27' | '26', 'panel': {'pages': [names], 'els': [...], 'extra': n, ...}, 'props': [...], 'src': [[element, prop]...]}"""
import copy
import random

M = {'Field': '77ffcc29-7f2d-4223-b22f-19666e7250ba', 'Button': 'a9f3b1ac-f51b-431e-b102-55a69acdecad',
     'Decoration': '3d3cb80c-508b-41fa-8a18-680cdf5f1712', 'Group': 'cd5394d0-7dda-4b56-8927-93ccbe967a01',
     'Table': '143c00f7-a42d-4cd7-9189-88e4467dc768', 'ItemAddition': 'c5259a1d-518a-4afd-b98d-0176027e4feb'}
O = {'Field': '381ed624-9217-4e63-85db-c4c3cb87daae', 'CheckBox': '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26',
     'RadioBtn': '782e569a-79a7-4a4f-a936-b48d013936ec', 'Button': '6ff79819-710e-4145-97cd-1618da79e3e2',
     'Table': 'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1', 'Label': '0fc7e20d-f241-460c-bdf4-5ad88e5474a5',
     'CommandPanel': 'e69bf21d-97b2-4f37-86db-675aea9ec2cb', 'Panel': '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'}
CMD = '409b9a53-7f7e-4178-86c1-33176c7c7a7a'
OWN = '02023637-7868-4a5f-8576-835a76e0c9ba'


def fill(rng, n):
    """values between the fields that are read: plain, quoted, nested"""
    return [rng.choice(['0', '1', '2', '"x"', '""', ['0'], ['1', '0'], ['"ru"', '"а, ""б"""'], ['"Pattern"'], '02023637-7868-4a5f-8576-835a76e0c9ba'])
            for _ in range(n)]


def q(s):
    return '"' + s.replace('"', '""') + '"'


def element(e):
    r = random.Random(e.get('x', 0))
    t, k = e['t'], e.get('k') or [0, 0]
    sub = lambda n: [['0', ['0', ['"B"', str(i)], '0']] for i in range(n)]
    if t == 'Table':
        raw = [e.get('rv', '54'), [str(r.randrange(99)), OWN], '0', '1', str(k[0]), *sub(k[0]), q(e['n'])]
        raw += fill(r, 5) + [link(e)]                                  # name is at 5+k, the link at 11+k
        raw += fill(r, 54 + k[0] - len(raw))
        raw += [str(k[1])]
        for i in range(k[1]):
            raw += [M['Group'], ['22', str(i)]]
        raw += fill(r, 6)
        raw += kids(e) + fill(r, r.randrange(3, 30))
        if e.get('rv') == '55':
            n = 2 * len(e.get('ch', [])) + k[0] + 2 * k[1] + 99 + e.get('bad', 0)
            raw = raw[:n] + ['0'] * (n - len(raw))
        return raw
    if t == 'Button':
        raw = ['31', [str(r.randrange(99)), OWN], '0', str(k[0]), *sub(k[0]), '1', q(e['n']), ['1', '0'], '1',
               [str(e['cmd']), CMD] if e.get('cmd') else r.choice([['0'], ['0', OWN]])]
        return raw + fill(r, r.randrange(1, 20))
    raw = [e.get('rv', '21'), [str(r.randrange(99)), OWN], '0', str(k[0]), *sub(k[0]), str(k[1]), *sub(k[1]), '1', q(e['n'])]
    if t == 'Field':
        return raw + fill(r, 4) + [link(e)] + fill(r, r.randrange(1, 30))
    if t == 'Group':
        raw += fill(r, 14) + kids(e) + fill(r, r.randrange(1, 8))
        if e.get('bad'):
            return ['22'] + raw[1:10]
        return raw
    return raw + fill(r, r.randrange(0, 9))


def link(e):
    l = e.get('link')
    return [str(len(l)), *[[str(i)] if not isinstance(i, list) else i for i in l]] if l else ['0']


def kids(e):
    out = [str(len(e.get('ch', [])))]
    for c in e.get('ch', []):
        out += [M[c['t']], element(c)]
    return out


def prop(p, parent):
    r = random.Random(p.get('x', 0))
    pattern = {'plain': ['"Pattern"'], 'own': ['"Pattern"', ['"#"', parent]], 'other': ['"Pattern"', ['"#"', OWN]],
               'two': ['"Pattern"', ['"B"'], ['"#"', parent]], 'none': []}[p.get('pat', 'plain')]
    raw = ['9', [str(p['id'])], '0', q(p['n']), ['1', '0'], pattern, *fill(r, 7)]
    ch = p.get('ch', [])
    raw += [str(len(ch))] + [['5', str(c['id']), '0', q(c['n']), ['1', '0']] + fill(r, r.randrange(0, 4)) for c in ch]
    return raw + fill(r, r.randrange(0, 4))


def managed(f, parent='00000000-0000-0000-0000-000000000001'):
    r = random.Random(f.get('x', 0))
    p = f.get('panels', 1)
    c = f.get('c18', 0)
    root = ['49'] + fill(r, 17) + [str(c)]
    for i in range(c):
        root += ['"событие"', ['1', str(i)]]
    root += fill(r, 2) + [str(p)] + [['22', ['-1', OWN], '0'] for _ in range(p)] + kids({'ch': f['top']}) + fill(r, 4)
    raw = [f.get('v', '4'), root, q(f.get('code', '')),
           ['4', str(len(f['props']))] + [prop(x, parent) for x in f['props']] + fill(r, f.get('tail', 0)),
           ['0', str(len(f['params']))] + [['0', q(n), ['"Pattern"']] for n in f['params']] + fill(r, f.get('tail', 0)),
           ['0', str(len(f['commands']))] + [['9', [str(x['id']), CMD], q(x['n']), ['1', '0']] for x in f['commands']]]
    if f.get('short'):
        return raw[:f['short']]
    return raw + [['0', '0'], ['0'], '0', '0']


def walk(els):
    for e in els:
        yield e
        yield from walk(e.get('ch', []))


class MGen:
    def __init__(self, rng, areas=(), dup=False):
        self.r, self.n, self.areas = rng, 0, areas

    def name(self, base, area_ok=True):
        self.n += 1
        r = self.r
        if self.areas and area_ok and r.random() < .3:
            return r.choice(self.areas) + r.choice(['обл', 'core_лента', 'root', 'а_б_в', 'ux']) + str(self.n)
        return r.choice([base, base, 'Имя', 'x.y', 'includer', 'includrx', ' ']) + str(self.n)

    def els(self, depth, props, cmds, inside=False):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5] if depth else [0, 1, 2])):
            t = r.choice(['Field', 'Button', 'Decoration', 'Group', 'Group', 'Table', 'ItemAddition'])
            e = {'t': t, 'n': self.name(t, t in ('Group',)), 'k': [r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 3])], 'x': r.randrange(1 << 30)}
            if t in ('Group', 'Table') and depth:
                e['ch'] = self.els(depth - 1, props, cmds)
            if t in ('Field', 'Table') and props and r.random() < .7:
                p = r.choice(props)
                e['link'] = [p['id']]
                if p.get('ch') and r.random() < .5:
                    e['link'].append(r.choice(p['ch'])['id'])
            elif t in ('Field', 'Table') and r.random() < .2:
                e['link'] = r.choice([[77], [1, ['0', OWN]], [77, 5, 6], [['1', OWN], 10007]])
            if t == 'Button' and cmds and r.random() < .6:
                e['cmd'] = r.choice(cmds)['id']
            elif t == 'Button' and r.random() < .2:
                e['cmd'] = 78
            if t == 'Table' and r.random() < .15:
                e['rv'] = '55'
            out.append(e)
        return out

    def form(self, depth=3):
        r = self.r
        props = []
        for i in range(r.choice([0, 1, 2, 4])):
            p = {'id': i + 1, 'n': self.name('Рек', False), 'pat': r.choice(['plain', 'own', 'other', 'two', 'none', 'own']), 'x': r.randrange(1 << 30)}
            if r.random() < .4:
                p['ch'] = [{'id': j + 1, 'n': self.name('Кол', False)} for j in range(r.randrange(0, 4))]
            props.append(p)
        cmds = [{'id': i + 1, 'n': self.name('Ком', False)} for i in range(r.choice([0, 1, 3]))]
        f = {'v': r.choice(['4', '4', '3', '2']), 'props': props, 'commands': cmds, 'params': [self.name('Пар', False) for _ in range(r.choice([0, 0, 1, 2]))],
             'panels': r.choice([0, 1, 1, 2]), 'c18': r.choice([0, 0, 1, 3]), 'tail': r.choice([0, 0, 1, 2]), 'x': r.randrange(1 << 30),
             'code': r.choice(['', 'Процедура А()\n\t// "б"\nКонецПроцедуры\n', '"', 'х""у'])}
        f['top'] = self.els(depth, props, cmds)
        return f


def tree_of(els, table=False):
    """the tree of names and kinds the tool shows"""
    out = []
    for e in els:
        d = {'name': e['n'], 'type': e['t']}
        if e['t'] in ('Group', 'Table'):
            d['child'] = tree_of(e.get('ch', [])) or None
        out.append(d)
    return out


# ---- ordinary forms

def placement(e, ids, page):
    """record of bounds, anchors, page"""
    r = random.Random(e.get('x', 0))

    def rec(a):
        # an anchor: [[kind, id, side], ...]; -1 nothing, 0 the panel, else the element
        return ['0', str(a[0]), str(a[1])]
    raw = ['8'] + [str(r.randrange(500)) for _ in range(4)] + ['1']
    anchors = e.get('anch') or [[[-1, 6], [-1, 6]]] * 6
    for i in range(6):
        two = [[ids.get(a[0], a[0]), a[1]] for a in anchors[i]]
        raw.append([str(r.randrange(3)), rec(two[0]), rec(two[1])])
    deps = e.get('deps') or [[], [], [], []]
    for i in range(4):
        raw.append(str(len(deps[i])))
        for a in deps[i]:
            raw.append(['0', str(ids.get(a, a)), str(r.randrange(4))])
    return raw + [str(page), '1', '0', '1', '0']


def oelement(e, ids):
    r = random.Random(e.get('x', 0))
    raw = [O[e['t']], str(ids[e['n']])]
    if e['t'] == 'Panel':
        raw += [['1', pages(e, ids)] + fill(r, 2)]
    else:
        raw += [['3'] + fill(r, 4)]
    raw += [['1', '0']] * r.randrange(0, 2)
    raw += [placement(e, ids, e.get('page', 0)), ['14', q(e['n']), '4294967295', '0', '0', '0']]
    if e['t'] == 'Panel':
        raw.append([str(len(e['els']))] + [oelement(x, ids) for x in e['els']])
    else:
        raw.append(['0'])
    return raw


def anchored(p, ids):
    """the tables of elements tied to the four borders of the panel"""
    t = [[], [], [], []]
    for e in p['els']:
        pl = placement(e, ids, 0)
        for i in range(6):
            b = 1 if i > 3 else i
            for a in pl[6 + i][1:3]:
                if a[1] == '0':
                    s = int(a[2])
                    t[1 if s > 3 else s].append([pl[6 + i][0], str(ids[e['n']]), str(b)])
    return t


def pages(p, ids):
    r = random.Random(p.get('x', 0) + 1)
    raw = ['16', ['2', '1']]
    for t in anchored(p, ids):
        raw += [str(len(t))] + t
    for _ in range(2):
        n = r.randrange(0, 3)
        raw += [str(n)] + [['0', str(i)] for i in range(n)]
    raw += fill(r, 3)
    raw.append(['1', str(len(p['pages'])), *[['3', ['1', '1', ['"ru"', q(n)]], '8', '1', '1', '1', q(n), '1', '1'] for n in p['pages']], *fill(r, p.get('after', 0))])
    raw += fill(r, 3)
    n = len(p['pages']) * 4 + p.get('extra', 0)
    raw += [str(n)] + [['0', ['2', str(i)], str(r.randrange(9))] for i in range(n)]
    return raw + fill(r, 4)


def owalk(p):
    for e in p['els']:
        yield e
        if e['t'] == 'Panel':
            yield from owalk(e)


def ordinary(f):
    ids = {e['n']: i + 2 for i, e in enumerate(owalk(f['panel']))}
    if f.get('ids') == 'rev':
        n = len(ids)
        ids = {k: n + 1 - v + 2 for k, v in ids.items()}
    elif f.get('ids') == 'gap':
        ids = {k: v * 7 + 5 for k, v in ids.items()}
    r = random.Random(f.get('x', 0))
    p = f['panel']
    root = [O['Panel'], ['1', pages(p, ids)] + fill(r, 2), [str(len(p['els'])), *[oelement(e, ids) for e in p['els']]]]
    v26 = f['v'] == '26'
    props = []
    for i, n in enumerate(f['props']):
        x = [[str(i + 1)], '0', '0', '1', q(n), ['"Pattern"']]
        if v26:
            x = [[str(i + 1)], '0', '0', q(n), ['"Pattern"']]
        props.append(x)
    src = [[str(ids[e]), ['1', [str(i + 1)]]] for e, i in f['src'] if e in ids]
    if f.get('no_src'):
        src = []
    return [f['v'], ['18', ['2', ['1', '0'], '1'], root, '640', '480', '1'],
            [['0'], '99', [str(len(props)), *props], [str(len(src)), *src]], ['59', '0'], '1', '4', '1']


class OGen:
    def __init__(self, rng, areas=()):
        self.r, self.n, self.areas = rng, 0, areas

    def name(self, base, area_ok=False):
        self.n += 1
        r = self.r
        if self.areas and area_ok and r.random() < .4:
            return r.choice(self.areas) + r.choice(['обл', 'core_лента', 'root', 'а_б_в']) + str(self.n)
        return r.choice([base, base, 'Имя', 'x.y', base, 'includrx']) + str(self.n)

    def panel(self, depth, top=False):
        r = self.r
        p = {'pages': [self.name('Стр') for _ in range(r.choice([1, 1, 2, 3]))], 'extra': r.choice([0, 0, 0, 1, 2]), 'after': r.choice([0, 0, 0, 1, 2]), 'x': r.randrange(1 << 30), 'els': []}
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            t = r.choice(['Panel', 'Field', 'Button', 'Label', 'CheckBox', 'Table', 'CommandPanel'])
            if t == 'Panel' and not depth:
                t = 'Field'
            e = {'t': t, 'n': self.name(t, t == 'Panel'), 'page': r.randrange(len(p['pages'])), 'x': r.randrange(1 << 30)}
            if t == 'Panel':
                e.update({k: v for k, v in self.panel(depth - 1).items() if k != 'x'})
            p['els'].append(e)
        by = {}
        for e in p['els']:
            by.setdefault(e['page'], []).append(e)
        for e in p['els']:
            mates = [x['n'] for x in by[e['page']]]
            if r.random() < .6:
                e['anch'] = [[[r.choice([-1, 0, 0] + mates), r.randrange(4)] for _ in range(2)] for _ in range(6)]
            if r.random() < .4:
                e['deps'] = [[r.choice(mates) for _ in range(r.choice([0, 0, 1, 2]))] for _ in range(4)]
        return p

    def form(self, depth=3):
        r = self.r
        p = self.panel(depth, True)
        f = {'v': r.choice(['27', '27', '26']), 'panel': p, 'props': [self.name('Рек') for _ in range(r.choice([0, 1, 2, 4]))], 'ids': r.choice(['seq', 'rev', 'gap']),
             'x': r.randrange(1 << 30), 'src': []}
        for e in owalk(p):
            if f['props'] and e['t'] in ('Field', 'CheckBox', 'Table') and r.random() < .6:
                f['src'].append([e['n'], r.randrange(len(f['props']))])
        return f


def shrink_managed(f):
    def sub(els):
        for i in range(len(els)):
            yield els[:i] + els[i + 1:]
            if els[i].get('ch'):
                yield els[:i] + els[i]['ch'] + els[i + 1:]
                for s in sub(els[i]['ch']):
                    yield els[:i] + [dict(els[i], ch=s)] + els[i + 1:]
            for k in ('link', 'cmd', 'rv', 'bad'):
                if els[i].get(k):
                    yield els[:i] + [{a: b for a, b in els[i].items() if a != k}] + els[i + 1:]
            if els[i].get('k') not in (None, [0, 0]):
                yield els[:i] + [dict(els[i], k=[0, 0])] + els[i + 1:]
    for t in sub(f['top']):
        yield dict(f, top=t)
    for k in ('props', 'params', 'commands'):
        for i in range(len(f[k])):
            yield dict(f, **{k: f[k][:i] + f[k][i + 1:]})
    for i, p in enumerate(f['props']):
        if p.get('ch'):
            yield dict(f, props=f['props'][:i] + [dict(p, ch=[])] + f['props'][i + 1:])
    for k in ('tail', 'c18', 'panels', 'code'):
        if f.get(k):
            yield dict(f, **{k: '' if k == 'code' else 0})


def shrink_ordinary(f):
    def sub(p):
        for i, e in enumerate(p['els']):
            yield dict(p, els=p['els'][:i] + p['els'][i + 1:])
            if e['t'] == 'Panel':
                for s in sub(e):
                    yield dict(p, els=p['els'][:i] + [s] + p['els'][i + 1:])
            for k in ('anch', 'deps'):
                if e.get(k):
                    yield dict(p, els=p['els'][:i] + [{a: b for a, b in e.items() if a != k}] + p['els'][i + 1:])
        if p.get('extra'):
            yield dict(p, extra=0)
    for s in sub(f['panel']):
        names = {e['n'] for e in owalk(s)}
        bad = False
        for e in owalk(s):
            for a in e.get('anch') or []:
                bad |= any(isinstance(x[0], str) and x[0] not in names for x in a)
            for a in e.get('deps') or []:
                bad |= any(x not in names for x in a)
        if not bad:
            yield dict(f, panel=s)
    if f['src']:
        yield dict(f, src=[])
