"""C18 a failure anywhere ends in an error; success means everything is there"""
import builtins
import errno
import io
import json
import os
import random
import shutil
import subprocess
import sys

import cfio
import hl
import p_c07
import synth

MIN_CASES = 10
SPEC = {'kind': 'cf', 'ver': '80315', 'objects': [
    {'t': 'Catalog', 'u': 1, 'name': 'Кат', 'own': '0', 'code': {'obj': {'dir': True, 'enc': 'utf-8-sig', 'text': 'А\n#Область include_обл_а\nБ\n#КонецОбласти\n'}},
     'pre': ['rnd', 50, 1],
     'children': [{'t': 'CatalogForm', 'u': 2, 'name': 'Ф', 'own': '0', 'uf': True, 'fv': '13', 'ftext': 'х', 'mf': {
         'v': '4', 'props': [], 'commands': [], 'params': [], 'code': 'Процедура Б()\n', 'top': [
             {'t': 'Group', 'n': 'include_обл_б', 'k': [0, 0], 'x': 1, 'ch': [{'t': 'Field', 'n': 'П', 'k': [0, 0], 'x': 1}]}]}}]},
    {'t': 'Role', 'u': 3, 'name': 'Роль', 'own': '0', 'pay': ['rnd', 100, 1]},
    {'t': 'CommonPicture', 'u': 4, 'name': 'Карт', 'own': '0', 'pay': ['rnd', 100, 1]},
    {'t': 'CommonTemplate', 'u': 5, 'name': 'Мак', 'own': '0', 'tmpl': 'scheme', 'pay': ['rnd', 100, 1]}], 'code': {
        'app': {'dir': True, 'enc': 'utf-8-sig', 'text': 'х\n'}}}


def cases(rng, tier):
    n = 0
    for way in ('extract', 'build'):
        yield {'way': way, 'cli': 'garbage', 'u': 1}
        for s in (0, 1, 2, 3):
            yield {'way': way, 'obj': ['Role', 'CommonPicture', 'CommonTemplate', 'Catalog'][s], 'err': 'ValueError', 'order': s}
        yield {'way': way, 'obj': 'CatalogForm', 'err': 'KeyError'}
        yield {'way': way, 'obj': 'Configuration803', 'err': 'RuntimeError'}
        for k in ('missing', 'garbage', 'list'):
            for nested in (False, True, 'first', 'last'):
                yield {'way': way, 'idx': k, 'nested': nested}
        for k in ('gone', 'list', 'work', 'other'):
            yield {'way': way, 'products': k}
        for k in ('.bsl', '.json', '.elem.json', '.mod'):
            yield {'way': way, 'op': 1, 'of': 'w', 'err': 'EACCES', 'lasting': True, 'match': k}
        for k in range(1, 5):
            yield {'way': way, 'op': k * 7, 'of': ['w', 'mkdir', 'any', 'w'][k - 1], 'err': 'EACCES', 'seed': k, 'lasting': True}
        for k in range(1, 12):
            yield {'way': way, 'op': k, 'of': 'rand', 'err': 'ENOSPC', 'seed': k}
    for s in ('garbage', 'truncated', 'gone', 'deflate'):
        for u in (1, 2, 4):
            yield {'way': 'extract', 'damage': s, 'u': u}
    for s in ('json', 'elem', 'area', 'formarea', 'table', 'table+'):
        yield {'way': 'build', 'damage': s}
    while True:
        n += 1
        c = {'way': rng.choice(['extract', 'build', 'build']), 'seed': rng.randrange(10 ** 6)}
        k = rng.random()
        if k < .7:
            c.update(op=rng.randrange(1, 400), of=rng.choice(['any', 'w', 'r', 'write', 'copy', 'mkdir', 'rand']), err=rng.choice(['ENOSPC', 'EACCES', 'EIO']))
            if rng.random() < .2:
                c['lasting'] = True
        else:
            c.update(obj=rng.choice(['Role', 'Catalog', 'CatalogForm', 'CommonPicture', 'CommonTemplate', 'Configuration803']),
                     err=rng.choice(['ValueError', 'KeyError', 'RuntimeError', 'IndexError', 'AttributeError', 'OSError']))
        if rng.random() < .3:
            c['descent'] = 5
        if rng.random() < .5:
            c['order'] = rng.randrange(99)
        if rng.random() < .3 and c['way'] == 'build':
            c['auto'] = True
        yield c


class Fault:
    """counts the operations on files and fails one of them"""
    def __init__(self, kind, at, err, lasting=False, match=None):
        self.match = match
        self.kind, self.at, self.n, self.hit = kind, at, 0, None
        self.err, self.lasting, self.op = err, lasting, None

    def step(self, kind, what):
        if self.lasting and self.op == (kind, what):
            raise OSError(getattr(errno, self.err), 'injected', what)
        if self.kind in ('any', kind) and (not self.match or isinstance(what, str) and what.endswith(self.match)):
            self.n += 1
            if self.n == self.at:
                self.hit = f'{kind} {what}'
                self.op = (kind, what)
                raise OSError(getattr(errno, self.err), 'injected', what if isinstance(what, str) else None)

    def __enter__(self):
        self.saved = [(builtins, 'open', builtins.open), (io, 'open', io.open), (shutil, 'copy2', shutil.copy2), (shutil, 'copy', shutil.copy), (shutil, 'copyfile', shutil.copyfile),
                      (os, 'mkdir', os.mkdir)]
        real = builtins.open
        fault = self

        def op(file, mode='r', *a, **k):
            if not isinstance(file, (str, bytes, os.PathLike)):
                return real(file, mode, *a, **k)
            kind = 'w' if set(mode) & set('wax+') else 'r'
            fault.step(kind, str(file))
            f = real(file, mode, *a, **k)
            return Out(f, fault, str(file)) if kind == 'w' else f
        builtins.open = io.open = op

        def wrap(name, fn):
            def g(src, *a, **k):
                fault.step('copy' if name != 'mkdir' else 'mkdir', str(src))
                return fn(src, *a, **k)
            return g
        for m, n, fn in self.saved[2:]:
            setattr(m, n, wrap(n, fn))
        return self

    def __exit__(self, *a):
        for m, n, fn in self.saved:
            setattr(m, n, fn)


class Out:
    def __init__(self, f, fault, name):
        self.__dict__.update(f=f, fault=fault, nm=name)

    def write(self, b):
        self.fault.step('write', self.nm)
        return self.f.write(b)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __iter__(self):
        return iter(self.f)


def damage(case, files):
    u = synth.uid(case['u'])
    how = case['damage']
    if how == 'garbage':
        files[u] = b'\xef\xbb\xbf{1,{2,"\n'
    elif how == 'truncated':
        files[u] = files[u][:len(files[u]) // 2]
    elif how == 'gone':
        del files[u]
    return u


def damage_sources(case, proj):
    t = hl.read_tree(proj)
    if case['damage'].startswith('table'):
        return damage_table(case, proj, t)
    pick = {'json': lambda n: n.endswith('Role.json') or n.endswith('Role.5.json'), 'elem': lambda n: 'CatalogForm' in n and '.elem' in n,
            'area': lambda n: n.endswith('.bsl') and os.path.basename(n).startswith('а.'), 'formarea': lambda n: os.path.basename(n).startswith('б.')}[case['damage']]
    n = [x for x in sorted(t) if pick(x)]
    if not n:
        raise AssertionError(f'harness: nothing to damage: {sorted(t)}')
    p = os.path.join(proj, n[0])
    if case['damage'] in ('area', 'formarea'):
        os.remove(p)
    else:
        with open(p, 'wb') as f:
            f.write(t[n[0]][:len(t[n[0]]) // 2])
    return n[0]


def damage_table(case, proj, t):
    n = [x for x in sorted(t) if os.path.basename(x) in ('Catalog.json', 'Catalog.5.json')][0]
    data = json.loads(t[n].decode('utf-8'))
    inc = hl.api('helper:get_class_metadata_object')('Catalog').get_decode_includes(data['header'])[0]
    if case['damage'] == 'table':
        del inc[2:]
    else:
        inc[2] = str(len(inc) + 1)
    with open(os.path.join(proj, n), 'w', encoding='utf-8') as f:
        json.dump(data, f, ensure_ascii=False)
    return n


def way_of(way):
    return 'decode' if way == 'extract' else 'encode'


def content(way, path):
    if way == 'extract':
        return {n: v for n, v in hl.read_tree(path).items() if not n.endswith('.zip')}
    with open(path, 'rb') as f:
        return p_c07.read(f.read())[-1]


def compare(way, want, got):
    return hl.diff_tree(want, got) if way == 'extract' else synth.same(want, got)


def check(case, tmp):
    V = hl.api('v8unpack')
    helper = hl.api('helper')
    way, d = case['way'], case.get('descent')
    if hasattr(helper, 'get_pool') and not case.get('cli'):
        helper.get_pool = lambda **k: hl.FakePool(case.get('order'))
        helper.close_pool = lambda *a, **k: None
    rng = random.Random(case.get('seed', 0))
    files = synth.stage1(SPEC)
    good = p_c07.nested(dict(files), cfio.Fmt32, None, random.Random(1))
    hl.write_tree('bin', {'in.cf': good})
    opt = {}
    if d is not None:
        opt['descent'] = d
    if case.get('auto'):
        opt['auto_include'] = True

    def place(name):
        src = os.path.join(tmp, name, 'src', 'v') if d is not None else os.path.join(tmp, name, 'src')
        os.makedirs(src, exist_ok=True)
        os.chdir(os.path.join(tmp, name))
        return src

    src = place('p0')
    V.extract(os.path.join(tmp, 'bin', 'in.cf'), src, temp_dir=os.path.join(tmp, 't0'), options=dict(opt))
    if way == 'build':
        V.build(src, os.path.join(tmp, 'p0', 'out.cf'), temp_dir=os.path.join(tmp, 't0'), options=dict(opt))
    want = content(way, os.path.join(tmp, 'p0') if way == 'extract' else os.path.join(tmp, 'p0', 'out.cf'))
    source = os.path.join(tmp, 'bin', 'in.cf')
    what = None
    if case.get('damage') and way == 'extract':
        bad = dict(files)
        u = damage(case, bad)
        what = f'{case["damage"]} {u}'
        data = p_c07.nested(bad, cfio.Fmt32, None, random.Random(1))
        if case['damage'] == 'deflate':
            items = []
            import zlib
            for n, v in files.items():
                raw = cfio.write([(a, b) for a, b in v.items()], cfio.Fmt32, None, rng) if isinstance(v, dict) else v
                z = zlib.compressobj(6, zlib.DEFLATED, -15)
                b = z.compress(raw) + z.flush()
                items.append((n, b[:len(b) // 2] if n == u else b))
            data = cfio.write(items, cfio.Fmt32, None, rng)
        hl.write_tree(os.path.join(tmp, 'bin'), {'in.cf': data})
    if way == 'extract':
        dest = place('p1')
        run = lambda: V.extract(source, dest, temp_dir=os.path.join(tmp, 't1'), options=dict(opt))
        result = os.path.join(tmp, 'p1')
    else:
        os.chdir(os.path.join(tmp, 'p0'))
        if case.get('damage'):
            what = damage_sources(case, os.path.join(tmp, 'p0'))
        result = os.path.join(tmp, 'p1', 'out.cf')
        os.makedirs(os.path.dirname(result))
        run = lambda: V.build(src, result, temp_dir=os.path.join(tmp, 't1'), options=dict(opt))
    if case.get('cli'):
        return cli(case, tmp, source, src, files, V)
    if case.get('idx'):
        name, main = os.path.join(tmp, 'nested.json'), os.path.join(tmp, 'index.json')
        broken = name if case['nested'] else main
        with open(main, 'w') as f:
            sound = os.path.join(tmp, 'sound.json')
            json.dump({'index.json': {'first': [name, sound], 'last': [sound, name]}.get(case['nested'], [name]), 'x': 'lib/x'}, f)
        with open(sound, 'w') as f:
            json.dump({'y': 'lib/y'}, f)
        if not case['nested']:
            os.remove(main)
        for p in {broken, name}:
            if p != broken or case['idx'] != 'missing':
                with open(p, 'w') as f:
                    f.write('{}' if p != broken else {'garbage': '{', 'list': '["a"]'}[case['idx']])
        run = (lambda: V.extract(source, dest, temp_dir=os.path.join(tmp, 't1'), options=dict(opt), index=main)) if way == 'extract' else \
            (lambda: V.build(src, result, temp_dir=os.path.join(tmp, 't1'), options=dict(opt), index=main))
        what = f'{case["idx"]} {os.path.basename(broken)}'
    elif case.get('products'):
        names = os.path.join(tmp, 'products.json')
        if case['products'] != 'gone':
            bad = {'src': os.path.join(tmp, 'no', 'src'), 'bin': os.path.join(tmp, 'no', 'in.cf')}
            with open(names, 'w') as f:
                json.dump(['a'] if case['products'] == 'list' else {'a': bad}, f)
        run = lambda: (V.extract_all if way == 'extract' else V.build_all)(names, *(['б'] if case['products'] == 'other' else []))
        what = f'{case["products"]} products.json'
    err = None
    fault = None
    if 'op' in case:
        at, of = case['op'], case['of']
        if of == 'rand':
            probe = Fault('any', 0, 'EIO')
            with probe:
                run()
            at, of = rng.randrange(1, probe.n + 1), 'any'
            if way == 'extract':
                shutil.rmtree(os.path.join(tmp, 'p1'))
                place('p1')
            else:
                os.remove(result)
        fault = Fault(of, at, case['err'], case.get('lasting'), case.get('match'))
        try:
            with fault:
                run()
        except Exception as e:
            err = e
        if fault.hit is None:
            return hl.OUT
        what = fault.hit.replace(tmp, '')
        subject = os.path.basename(what).split('.')[0]
    elif 'obj' in case:
        name = case['obj']
        if name.startswith('Conf'):
            name = 'Configuration'
            c = hl.api('MetaObject.Configuration:Configuration')
        else:
            c = hl.api('helper:get_class_metadata_object')(name)
        E = getattr(builtins, case['err'])
        hits = []

        def boom(*a, **k):
            hits.append(1)
            raise E('injected')
        own = c.__dict__.get(way_of(way))
        if not hasattr(c, way_of(way)):
            raise hl.Unattached(name)
        setattr(c, way_of(way), boom if name == 'Configuration' else staticmethod(boom))
        try:
            run()
        except Exception as e:
            err = e
        finally:
            if own is None:
                delattr(c, way_of(way))
            else:
                setattr(c, way_of(way), own)
        if not hits:
            return hl.OUT
        if err is None:
            return f'{case["err"]} in {name}, and {way} reports success'
        what = f'{case["err"]} in {name}'
        subject = name
    else:
        try:
            run()
        except Exception as e:
            err = e
        if err is None:
            return f'{way} of a damaged input ({what}) reports success'
    if err is None:
        r = compare(way, want, content(way, result))
        return f'{case["err"]} at {what}, and {way} reports success: {r}' if r else None
    ext = hl.api('ext_exception:ExtException')
    if not isinstance(err, ext):
        return f'{what}: {way} ends with {type(err).__name__}, not with an error of its own'
    s = str(err)
    if not s.strip():
        return f'{what}: the error says nothing'
    if ('op' in case or 'obj' in case) and 'injected' not in s and subject not in s:
        return f'{what}: the error does not say what failed: {s[:300]!r}'


def cli(case, tmp, source, src, files, V):
    """the command in a process of its own, with real workers"""
    env = dict(os.environ, PYTHONPATH=hl.SRC + os.pathsep + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub'), PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
    out = os.path.join(tmp, 'p9')
    os.makedirs(out)

    def go(*args):
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'v8unpack', *args], env=env, cwd=out, capture_output=True, text=True, timeout=120)
        return p.returncode, p.stdout + p.stderr
    if case['way'] == 'extract':
        rc, text = go('-E', source, os.path.join(out, 'src'))
        if rc != 0:
            return f'extracting a good file ends with {rc}: {text[-300:]}'
        bad = dict(files)
        u = damage(dict(case, damage=case['cli']), bad)
        with open(source, 'wb') as f:
            f.write(p_c07.nested(bad, cfio.Fmt32, None, random.Random(1)))
        rc, text = go('-E', source, os.path.join(out, 'src2'))
    else:
        rc, text = go('-B', src, os.path.join(out, 'out.cf'))
        if rc != 0 or not os.path.isfile(os.path.join(out, 'out.cf')):
            return f'building good sources ends with {rc}: {text[-300:]}'
        damage_sources({'damage': 'json'}, os.path.join(tmp, 'p0'))
        rc, text = go('-B', src, os.path.join(out, 'out2.cf'))
    if rc == 0:
        return f'the command ends with 0 after a failure: {text[-300:]}'
    if 'Ошибка' not in text:
        return f'the command does not print the error: {text[-300:]}'
