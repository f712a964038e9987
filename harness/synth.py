"""synthetic contents of a configuration, extension, data processor or report: the unpacked files of its container.

Written from the format, not from the code under test: brace texts are produced and compared with this module's own
writer and p_c03.parse. objtable.json says where a header lies in each kind of object (frozen from the pinned tree)."""
import base64
import json
import os
import random
import re
import uuid

import forms
import hl
from p_c03 import parse

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'objtable.json'), encoding='utf-8') as _f:
    TAB = json.load(_f)
GROUPS = ['9cd510cd-abfc-11d4-9434-004095e12fc7', '9fcd25a0-4822-11d4-9414-008048da11f9', 'e3687481-0a87-462c-a166-9f34594f9bba',
          '9de14907-ec23-4a07-96f0-85521cb6b53b', '51f2d5d8-ea4d-4064-8892-82951750031e', 'e68182ea-4237-4383-967f-90c1e3370bc7',
          'fb282519-d103-4dd3-bc12-cb271d631dfc']
FORM0 = {'AccountingRegisterForm', 'BusinessProcessForm', 'ChartOfAccountsForm', 'ChartOfCharacteristicTypeForm',
         'ExternalDataSourceCubeForm', 'ExternalDataSourceTableForm', 'TaskForm'}
FORMX = {'Form', 'ReportForm'}
UNKNOWN = ['11111111-1111-4111-8111-00000000000%d' % i for i in range(3)]
# top level kinds by group and nested kinds by owner
NESTED = {n: [m for m in TAB if m.startswith(n) and m[len(n):] in ('Form', 'Command')] + ['Template'] for n in TAB
          if TAB[n]['kind'] == 'container'}
NESTED['CalculationRegister'].append('CalculationRegisterRecalculations')
NESTED['ExternalDataSource'] = ['ExternalDataSourceCube', 'ExternalDataSourceTable']
NESTED['DataProcessor'] = ['Form', 'DataProcessorCommand', 'Template']
NESTED['Report'] = ['ReportForm', 'ReportCommand', 'Template']
NESTED['Subsystem'] = ['Subsystem']
for _n in ('HTTPService', 'WebService', 'IntegrationService', 'Sequences', 'CalculationRegisterRecalculations'):
    NESTED[_n] = []
TOP = [n for n in TAB if TAB[n]['kind'] not in ('include', 'unknown') and not (n.endswith('Form') and n != 'CommonForm')
       and n not in ('Template', 'ExternalDataSourceCube', 'ExternalDataSourceTable', 'CalculationRegisterRecalculations')]
TMPL = ['table', 'base64', 'active_doc', 'html', 'text', 'geographic', 'scheme', 'design', 'graphic_scheme', 'extension']
NAMES = ['Имя', 'Name', 'Справочник', 'А', 'Пр_Объект', 'Пр_', 'x', 'Z9', 'Ёлка', 'имя_с_чертой']
TEXTS = ['', 'текст', 'a ""b""', 'x;y', 'скобка {', 'png', 'картинка png', 'json', 'a, b', '""', 'строка\nвторая', 'версия 5']


def uid(i):
    return str(uuid.UUID(int=random.Random(f'u{i}').getrandbits(128), version=4))


def ser(t, first=True):
    s = '{' if first else '\n{'
    for i, e in enumerate(t):
        if isinstance(e, list):
            s += ser(e, False) + ('\n' if i == len(t) - 1 else '')
        elif e.startswith('##base64:'):
            s += e[1:]
        elif e.startswith('#base64:'):
            s += e[:72] + ''.join('\r\n' + e[j:j + 64] for j in range(72, len(e) + 1, 64))
        else:
            s += e
        if i < len(t) - 1:
            s += ','
    return s + '}'


def brace(*roots):
    return b'\xef\xbb\xbf' + ',\n'.join(ser(r) for r in roots).encode()


def b64(data, one_line=None):
    """the value of a binary field, as the text spells it"""
    s = base64.b64encode(data).decode()
    return ('#base64:' if len(s) >= 64 else '##base64:') + s


def header(o, extra=None):
    h = ['3', ['1', '0', uid(o['u'])], '"' + o['name'] + '"',
         [str(len(o.get('syn', {})))] + [x for k, v in o.get('syn', {}).items() for x in ('"' + k + '"', '"' + v + '"')],
         '"' + o.get('comment', '') + '"']
    if o.get('own') is not None:
        h += [o['own'], '0', '00000000-0000-0000-0000-000000000000']
    return h


def at(path, value, fill='0', size=None):
    """nested lists with value at path; path[0] is the list of roots"""
    if not path:
        return value
    i = path[0]
    lst = [fill] * max(i + 1, size or 0)
    lst[i] = at(path[1:], value, fill)
    return lst


def put(lst, path, value):
    for i in path[:-1]:
        lst = lst[i]
    while len(lst) <= path[-1]:
        lst.append('0')
    lst[path[-1]] = value


def module(files, o, name, ext):
    c = o['code'][name]
    data = c['text'].encode(c['enc']) if c.get('enc') != 'raw' else bytes.fromhex(c['text'])
    f = f'{uid(o["u"])}.{ext}'
    if c['dir']:
        files[f] = {'info': brace(['3', '1', '0', '""', '0']), ('image' if c.get('image') else 'text'): data}
    else:
        files[f] = data


def obj(files, o):
    """adds the files of the object and returns what its owner lists: its identifier or its data"""
    t = TAB[o['t']]
    u = uid(o['u'])
    kind = t['kind']
    h = header(o)
    if kind == 'form':
        root = ['0', [o.get('fv', '12'), h, '0', '1' if o.get('uf') else '0'], '1']
        if o['t'] in FORM0:
            data = [root]
        elif o['t'] in FORMX:
            data = [['1', (['0'] + root[1:]) if o.get('fx') == '0' else ['1', root]]]
        else:
            data = [['1', root, '0']]
        files[u] = brace(*data)
        if o.get('mf'):
            files[u + '.0'] = brace(forms.managed(o['mf'], uid('cont')))
        elif o.get('of'):
            files[u + '.0'] = {'form': brace(forms.ordinary(o['of'])), 'module': b'\xef\xbb\xbf' + o.get('ftext', '').encode()}
        elif o.get('uf'):
            files[u + '.0'] = brace(['4', ['98', ['0']], '"' + o.get('ftext', '').replace('"', '""') + '"', '0', ['0']])
        else:
            files[u + '.0'] = {'form': brace(['99', ['0', '"x"'], '1']), 'module': b'\xef\xbb\xbf' + o.get('ftext', '').encode()}
        if o.get('f1'):
            files[u + '.1'] = brace(['7', '0', ['1', '"' + o['f1'] + '"']])
        return u
    path = t['path']
    data = at(path, h)
    if o['t'] == 'AccountingRegister':
        data = at([0, 1, 15, 1] if o.get('old') else path, h)
        data[0][1][0] = '21' if o.get('old') else '22'
    if kind == 'template':
        i = 2 if o['t'] == 'CommonTemplate' else 1
        if o['t'] == 'CommonTemplate':
            put(data, [0, 1, 0], '4')
        else:
            put(data, [0, 1, 0], '2')
        put(data, [0, 1, i], str(TMPL.index(o['tmpl'])))
        template(files, o, u)
    if t['cu']:
        data[0][1][1] = uid(f'{o["u"]}c')
    if o['t'] == 'DataProcessor':
        for i in (1, 2, 7, 8):
            put(data, [0, 1, i], uid(f'{o["u"]}m{i}'))
    for name in o.get('code', {}):
        module(files, o, name, t['code'][name])
    if o.get('help') is not None and t['help'] is not None:
        files[f'{u}.{t["help"]}'] = html(o['help'])
    if o.get('pre') is not None and t['pre'] != 'None':
        files[f'{u}.{t["pre"]}'] = payload(o['pre'])
    if o['t'] == 'BusinessProcess' and o.get('pay'):
        files[u + '.7'] = payload(o['pay'])
    if o['t'] in ('ExchangePlan', 'Subsystem') and o.get('pay'):
        files[u + '.1'] = brace(['1', ['2', '"состав"', b64(payload(o['pay']))[b64(payload(o['pay'])).index(':') + 1:]]])
    if kind == 'info' and o.get('pay'):
        files[u + '.0'] = payload(o['pay'])
    if o['t'] == 'XDTOPackage' and o.get('pay'):
        files[u + '.0'] = payload(o['pay'])
    if o['t'] == 'WSReference' and o.get('pay'):
        files[u + '.0'] = {'wsdl': payload(o['pay']), 'info': b'x'}
    if o['t'] == 'CommonPicture' and o.get('pay'):
        files[u + '.0'] = brace(['4', '0', [[b64(payload(o['pay']))], '0'], '1'])
    elif o['t'] == 'CommonPicture' and o.get('nopic') is not None:
        files[u + '.0'] = brace(['4', '0', [[], [''], [[]]][o['nopic']], '1'])
    if kind == 'container':
        data[0] = data[0][:2] + ['0']
        data[0][2:] = includes(files, o.get('children', []))
    if kind == 'include':
        return data
    files[u] = brace(*data)
    return u


def payload(p):
    return hl.bytes_of(p[0], p[1], p[2])


def html(p):
    if p[1] % 5 == 3:      # another mark of the data
        return brace(['3', '0', '"ru"', ['#data:' + base64.b64encode(payload(p)).decode()], '0'])
    return brace(['3', '0', '"ru"', [b64(payload(p))], *(['0'] if p[1] % 3 else [])])


def template(files, o, u):
    p = o.get('pay')
    if not p:
        return
    k = o['tmpl']
    d = payload(p)
    if k in ('base64', 'extension'):
        files[u + '.0'] = brace(['1', ['#base64:' + base64.b64encode(d).decode()]])
        if len(base64.b64encode(d)) < 64:
            files[u + '.0'] = brace(['1', ['##base64:' + base64.b64encode(d).decode()]])
    elif k == 'html':
        files[u + '.0'] = html(p)
    elif k == 'text':
        enc = o.get('tenc', 'utf-8')
        files[u + '.0'] = o.get('ttext', 'текст\r\nмакета\n').encode(enc)
    else:
        files[u + '.0'] = d


def includes(files, objects):
    """count and one list per type"""
    types = {}
    for o in objects:
        types.setdefault(o['t'], []).append(o)
    res = []
    for t, lst in types.items():
        uu = UNKNOWN[int(t[1:]) % 3] if t.startswith('?') else TAB[t]['uuid']
        if t.startswith('?') or TAB[t]['kind'] == 'unknown':
            items = [['2', ['5', '"' + o['name'] + '"']] if o.get('inline') else uid(o['u']) for o in lst]
        else:
            items = [obj(files, o) for o in lst]
        res.append([uu, str(len(items)), *items])
        if lst[0].get('gap'):
            res.append([TAB['Style']['uuid'] if 'Style' not in types else UNKNOWN[0], '0'])
    return [str(len(res)), *res]


def group_of(t):
    return random.Random(t).randrange(1, 7) if t not in ('Language', 'CommonModule', 'Role', 'CommonForm', 'Style') else 0


def stage1(spec):
    """-> {file name: bytes | {name: bytes}} of the container that holds the objects"""
    files = {}
    k = spec['kind']
    file_uuid = uid('file')
    root = {'u': 'root', 'name': spec.get('name', 'Конфа'), 'syn': spec.get('syn', {}), 'comment': spec.get('comment', ''), 'own': '0',
            'code': spec.get('code', {})}
    u = uid('root')
    ver = spec.get('ver', '80315')
    if k in ('cf', 'cfe'):
        data = ['2', [file_uuid], '7']
        codes = {'cf': {'seance': '7', 'app': '6', '802': '0', 'con': '5'}, 'cfe': {'con': '5', 'app': '6', 'ssn': '7'}}[k]
        for g in range(7):
            objs = [o for o in spec['objects'] if group_of(o['t']) == g]
            own = ['67'] + ['0'] * 59
            own[1] = ['0', header(root)]
            own[15], own[26], own[42], own[43] = '"1.2.3"', ver, '"Пр_"' if k == 'cfe' else '""', ver
            if spec.get('fields'):
                for i, v in spec['fields'].items():
                    own[int(i)] = v
            inc = ['1' if g != 3 else '2', own if g == 0 else ['0'], *includes(files, objs)]
            data.append([GROUPS[g], ['6', inc, '0'] if g == 3 else inc])
        data.append(['0', '0', '0'])
        files[file_uuid] = brace(data)
        if spec.get('help') and k == 'cf':
            files[u + '.3'] = html(spec['help'])
        if spec.get('image') and k == 'cf':
            files[u + '.2'] = brace(['1', '0', [[b64(payload(spec['image']))], '0']])
        for i in spec.get('info', []):
            files[f'{u}.{i}'] = brace(['1', ['0', f'"инфо {i}"'], '2'])
        if k == 'cf':
            files['root'] = brace(['2', file_uuid, base64.b64encode(b'sign' * 30).decode()])
            files['version'] = brace([['217' if spec.get('v217') else '216', '0', [ver, '0']]])
        else:
            files['configinfo'] = brace(['0', ['216', '0', [ver, '0']]], ['2', file_uuid, 'QUJD'], ['0'])
    else:
        codes = {'obj': '0'}
        own = ['4', uid('cont'), uid('x'), ['0', header(root)], uid('form'), '""', '00000000-0000-0000-0000-000000000000']
        typ = 'c3831ec8-d8d5-4f93-8a22-f9bfae07327f' if k == 'epf' else 'e41aff26-25cf-4bb6-b6c1-3f478a75f374'
        data = ['1', [file_uuid], '1', [typ, ['1', own, *includes(files, spec['objects'])]]]
        files[file_uuid] = brace(data)
        files['root'] = brace(['2', file_uuid, ''])
        files['version'] = brace([['216', '0', [ver, '0']]] if not ver.startswith('802') else [['216', '0']])
        files['copyinfo'] = brace(['4', ['0'], ['0'], ['0'], ['0', '0'], ['0']])
        if spec.get('form1'):
            files[u + '.1'] = brace(['1', ['2', '"форма"']])
    for name in spec.get('code', {}):
        module(files, root, name, codes[name])
    if k != 'cfe':
        files['versions'] = brace(versions(files))
    return files


def versions(files):
    v = ['1', str(len(files) + 2), '""', uid('v')]
    for n in [*sorted(files), 'versions']:
        v += ['"' + n + '"', uid('v' + n)]
    return v


def flat(files):
    out = {}
    for n, v in files.items():
        if isinstance(v, dict):
            out.update({f'{n}/{a}': b for a, b in v.items()})
        else:
            out[n] = v
    return out


def tree(data):
    """brace text as a tree, other bytes as they are"""
    try:
        s = data.decode('utf-8-sig')
    except UnicodeDecodeError:
        return data
    if not s.startswith('{'):
        return data
    try:
        return parse(s.replace('\r\n', '\n'))
    except Exception:
        return data.replace(b'\r', b'')


def same(want, got, ignore=(), what=''):
    """None, or how the built files differ from the original ones"""
    w, g = flat(want) if any(isinstance(v, dict) for v in want.values()) else want, got
    miss = sorted(set(w) - set(g))
    extra = sorted(set(g) - set(w))
    if miss:
        return f'{what}lost: {miss[:5]}'
    if extra:
        return f'{what}appeared: {extra[:5]}'
    for n in sorted(w):
        if n in ignore or n == 'versions' or w[n] == g[n]:
            continue
        a, b = tree(w[n]), tree(g[n])
        if n == 'configinfo' and len(a) == len(b) == 3:  # the third root is the list of hashes, filled in by the container stage
            a, b = a[:2], b[:2]
        if a != b:
            if isinstance(a, list) and isinstance(b, list):
                from p_c03 import first_diff
                return f'{what}{n}: {first_diff(a, b)[:500]}'
            return f'{what}{n}: content changed, {w[n][:80]!r} became {g[n][:80]!r}'
    return None


def check_versions(got, what=''):
    """the list of versions against the files beside it"""
    v = parse(got['versions'].decode('utf-8-sig').replace('\r\n', '\n'))[0]
    names = {n.split('/')[0] for n in got}
    n = int(v[1])
    items = v[2:]
    if len(items) != 2 * n:
        return f'{what}versions list says {n} records and has {len(items) / 2}'
    listed = [x[1:-1] for x in items[::2]]
    if listed[0] != '':
        return f'{what}versions list does not begin with the record of the whole'
    listed = listed[1:]
    if len(set(listed)) != len(listed):
        return f'{what}versions list names twice: {sorted(x for x in set(listed) if listed.count(x) > 1)[:4]}'
    if set(listed) != names:
        return f'{what}versions list: not there {sorted(names - set(listed))[:4]}, no such file {sorted(set(listed) - names)[:4]}'
    for x in items[1::2]:
        try:
            uuid.UUID(x)
        except ValueError:
            return f'{what}versions list: {x!r} is not an identifier'
    if len(set(items[1::2])) != n:
        return f'{what}versions list: identifiers repeat'


# ---- random specs

class Gen:
    def __init__(self, rng, kinds=None, payloads=True, code=True, forms=True):
        self.prefix = ''
        self.r, self.n, self.kinds, self.payloads, self.code, self.forms = rng, 0, kinds, payloads, code, forms

    def pay(self):
        r = self.r
        return [r.choice(['rnd', 'zero', 'ff', 'text', 'bom', 'nl']), r.choice([1, 2, 3, 40, 46, 47, 48, 49, 50, 96, 97, 300, 1000, 5000]), r.randrange(99)]

    def text(self):
        from codegen import Gen as C, render
        r = self.r
        t = render(C(r, flat=True, kinds=('include_',)).body(r.randrange(0, 2), None), r.random() < .8)
        t = ''.join(x for x in t.splitlines(True) if '//DynamicDirective' not in x)
        return t.replace('#Область include_', '#Область ').replace('#Область includr_', '#Область ')

    def mod(self):
        r = self.r
        c = {'dir': r.random() < .6, 'enc': r.choice(['utf-8', 'utf-8-sig', 'utf-8-sig', 'utf-8-sig', 'cp1251', 'raw'])}
        if c['enc'] == 'raw':
            c['text'] = (b'\xff\x98\x00' + r.randbytes(r.randrange(0, 60)) + b'\x98').hex()
            if c['dir']:
                c['image'] = r.random() < .6
        else:
            t = self.text() or 'Процедура()\n'
            if c['enc'] == 'cp1251':
                t = 'Привет\n' + ''.join(x for x in t if x == '\n' or x.encode('cp1251', 'ignore'))
            c['text'] = t.replace('\ufeff', '')
            if r.random() < .08 and c['enc'] != 'cp1251':
                c['text'] = ''
        return c

    def obj(self, t, depth):
        r = self.r
        self.n += 1
        o = {'t': t, 'u': self.n, 'name': self.prefix + r.choice(NAMES) + str(self.n), 'comment': r.choice(TEXTS) if r.random() < .6 else '',
             'syn': {k: r.choice(TEXTS) for k in r.sample(['ru', 'en', 'fr'], r.randrange(0, 3))}, 'own': r.choice(['0', '0', '1', None])}
        k = TAB[t]['kind']
        if k == 'unknown':
            o['inline'] = r.random() < .6
            return o
        if k == 'form':
            o.update(uf=r.random() < .5, ftext=r.choice(['', 'Процедура А()\n//x ""y""\nКонецПроцедуры\n', '"']), f1=r.choice(['', 'x']),
                     fv=r.choice(['9', '12', '13', '14', '5', '7']), fx=r.choice(['0', '1']))
            return o
        if self.code and TAB[t]['code'] and k not in ('template', 'info') and t not in ('CommonPicture', 'XDTOPackage'):
            o['code'] = {n: self.mod() for n in TAB[t]['code'] if r.random() < .6}
        if k == 'info' and 'code' in o:
            del o['code']
        if t in ('XDTOPackage', 'WSReference', 'CommonPicture') or k == 'info':
            o.pop('code', None)
        if self.payloads:
            if r.random() < .5:
                o['pay'] = self.pay()
            if TAB[t]['help'] is not None and r.random() < .4:
                o['help'] = self.pay()
            if TAB[t]['pre'] != 'None' and r.random() < .5:
                o['pre'] = self.pay()
        if t == 'CommonPicture' and not o.get('pay'):
            o['nopic'] = r.choice([None, 0, 1, 2])
        if k == 'template':
            o['tmpl'] = r.choice(TMPL)
            o['tenc'] = r.choice(['utf-8', 'utf-8-sig', 'utf-16'])
            if o['tmpl'] in ('text',):
                o['ttext'] = r.choice(['текст\n', 'a\r\nb', 'x', '\ra\n\r', ''])
        if t == 'AccountingRegister':
            o['old'] = r.random() < .5
        if k == 'container' and depth:
            o['children'] = self.objects([c for c in NESTED.get(t, [])], r.randrange(0, 4), depth - 1)
        if r.random() < .2:
            o['gap'] = True
        return o

    def objects(self, types, n, depth):
        r = self.r
        out = []
        if not self.forms:
            types = [t for t in types if TAB[t]['kind'] != 'form']
        if not types:
            return out
        if r.random() < .5:
            types = r.sample(types, min(len(types), 3))
        for _ in range(n):
            out.append(self.obj(r.choice(types), depth))
        return out

    def spec(self, n=None, depth=2):
        r = self.r
        k = r.choice(self.kinds or ['cf', 'cf', 'cfe', 'epf', 'erf'])
        s = {'kind': k, 'ver': r.choice(['80315', '80319', '80316', '80204' if k == 'epf' else '80321']),
             'name': r.choice(NAMES), 'comment': r.choice([t for t in TEXTS if not t.startswith('ver:')]),
             'syn': {'ru': r.choice(TEXTS)}, 'v217': r.random() < .5}
        n = r.randrange(1, 8) if n is None else n
        if k in ('cf', 'cfe'):
            s['objects'] = self.objects(TOP, n, depth)
            codes = ['seance', 'app', '802', 'con'] if k == 'cf' else ['con', 'app', 'ssn']
            s['info'] = r.sample(['4', '9', '8', '10', 'a', 'b', 'c', 'd', 'e', 'f'] if k == 'cf' else ['8', '9', 'a'], r.randrange(0, 3))
            if self.payloads:
                if r.random() < .5:
                    s['help'] = self.pay()
                if r.random() < .5:
                    s['image'] = self.pay()
        else:
            s['objects'] = self.objects(['Form' if k == 'epf' else 'ReportForm', 'Template'], n, depth)
            if r.random() < .5:
                self.n += 1
                s['objects'].append({'t': 'FormAttribute', 'u': self.n, 'name': 'Рек', 'inline': True})
            codes = ['obj']
            s['form1'] = r.random() < .5
        if self.code:
            s['code'] = {c: self.mod() for c in codes if r.random() < .5}
        if s['ver'].startswith('802'):
            for m in s.get('code', {}).values():
                if m['enc'] != 'raw':
                    m['text'] = re.sub(r'\n(#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', r'\n// v8unpack \1', m['text'])
                    m['text'] = re.sub(r'\n// v8unpack (?=[#|&])(?!#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', r'\n', m['text'])
        return s


def walk(objects):
    for o in objects:
        yield o
        yield from walk(o.get('children', []))


def shrinks(spec):
    def sub(objs):
        for l in hl.shrink_list(objs):
            yield l
        for i, o in enumerate(objs):
            if o.get('children'):
                for c in sub(o['children']):
                    yield objs[:i] + [dict(o, children=c)] + objs[i + 1:]
            for k in ('code', 'pay', 'help', 'pre', 'comment', 'syn', 'gap', 'f1'):
                if o.get(k):
                    yield objs[:i] + [{a: b for a, b in o.items() if a != k}] + objs[i + 1:]
    for l in sub(spec['objects']):
        yield dict(spec, objects=l)
    for k in ('code', 'help', 'image', 'info', 'form1', 'comment', 'syn'):
        if spec.get(k):
            yield {a: b for a, b in spec.items() if a != k}


# ---- driving the object stage

def write_stage1(files, folder):
    hl.write_tree(folder, files)


def decode(tmp, spec_files, options, dest='d3', order=None):
    f = hl.api('decoder:decode')
    write_stage1({'0': spec_files}, os.path.join(tmp, 's1'))
    f(os.path.join(tmp, 's1'), os.path.join(tmp, dest), pool=hl.FakePool(order), options=dict(options))


def encode(tmp, options, src='d3', dest='s4', file_name='out.cf', order=None):
    f = hl.api('decoder:encode')
    f(os.path.join(tmp, src), os.path.join(tmp, dest), pool=hl.FakePool(order), options=dict(options), file_name=file_name)
    return hl.read_tree(os.path.join(tmp, dest, '0'))
