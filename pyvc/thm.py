"""Theorems about the real code, stated once and used twice: proved for all inputs by symbolic execution of the source
(SymS), and evaluated natively on the real code with chosen inputs (NatS), which cross-checks the models of the library and
turns a refuted obligation into a failing input."""
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback



class Skip(BaseException):
    """an assumption does not hold for these inputs"""


class Theorem:
    def __init__(self, fn, title, top, functions, contracts, loops, bounded, native, setup, paths, replace, inner=False):
        self.inner = inner
        self.fn, self.title, self.top, self.functions = fn, title, top, functions
        self.contracts, self.loops, self.bounded, self.native, self.setup, self.paths = contracts or {}, loops or {}, bounded, native, setup, paths
        self.replace = replace
        self.name = fn.__name__


def registry():
    items = []

    def theorem(title, top=False, functions=(), contracts=None, loops=None, bounded=None, native=True, setup=None, paths=4000, replace=None, inner=False):
        def deco(fn):
            items.append(Theorem(fn, title, top, functions, contracts, loops, bounded, native, setup, paths, replace, inner))
            return fn
        return deco
    return items, theorem


def load(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.join(os.path.dirname(here), 'specs'))
    m = importlib.import_module(prop.lower())
    return m.T, m


def fn_of(name):
    """'module:Class.method' of v8unpack; None when the code has no such function any more"""
    mod, q = name.split(':')
    try:
        o = importlib.import_module('v8unpack' + ('.' + mod if mod != 'v8unpack' else ''))
        if mod == 'v8unpack':
            o = importlib.import_module('v8unpack.v8unpack')
        for p in q.split('.'):
            o = getattr(o, p)
        return o
    except (ImportError, AttributeError):
        return None


# ---------------------------------------------------------------- native
PIECES = ['a', 'B', 'z', '0', '1', '7', 'я', 'Ж', '_', ' ', '.', ',', '-', '/', '"', '""', '{', '}', '#', ':', ';', '\n', '\t', '\\', '(', ')', '0000', 'имя', '#base64:', '€', '&', '\'', '=', '*',
          '\r', '<', '>', '|', '+', '\u2028', '%', 'й', 'ver:', 'Form', '"\n', '\xa0']


class NatS:
    symbolic = False

    def __init__(self, rng, given=None):
        self.rng, self.given = rng, given or {}
        self.inputs = {}
        self.failures = []
        self.checked = {}
        self._root = None
        self.seq = {}

    def done(self):
        if self._root:
            shutil.rmtree(self._root, ignore_errors=True)

    def _val(self, name, make):
        k = self.seq.get(name, 0)
        self.seq[name] = k + 1
        if k:
            name = f'{name}#{k}'
        v = unjson(self.given[name]) if name in self.given else make()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, hints=()):
        def make():
            r = self.rng
            l = lo if lo is not None else -5
            h = hi if hi is not None else l + r.choice([3, 20, 300, 70000])
            k = r.random()
            if hints and k < .3:
                q = r.choice(list(hints))
                if l <= q <= h:
                    return q
            if k < .5:
                return r.randint(l, min(h, l + 12))
            if k < .6:
                return h
            e = r.randint(0, max(1, (h - l).bit_length()))
            return min(h, l + r.getrandbits(e) if e else l)
        return self._val(name, make)

    def bytes(self, name, length=None, min=0, max=None, no=()):
        def make():
            r = self.rng
            n = length if length is not None else r.choice([0, 1, 2, 3, 5, 20, 100, 511, 512, 513, 1024, 1500]) + min
            if max is not None and n > max:
                n = r.randint(min, max)
            b = r.choice([r.randbytes(n), bytes(n), b'\xff' * n, (b'\r\n0 ' * n)[:n]])
            return b
        v = self._val(name, make)
        if any(x in v for x in no):
            raise Skip()
        return v

    def text(self, name, only=None, no=(), min=0, max=None, isnt=()):
        def make():
            r = self.rng
            src = [p for p in PIECES if not any(x in p for x in no)] if only is None else sorted(only)
            while True:
                t = ''.join(r.choice(src) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 7, 12])))
                if max is not None:
                    t = t[:max]
                if len(t) < min:
                    t += r.choice([x for x in src]) * min
                if not any(x in t for x in no) and t not in isnt:
                    return t
        v = self._val(name, make)
        if v in isnt:
            raise Skip()
        return v

    def distinct(self, *texts):
        if len(set(texts)) < len(texts):
            raise Skip()

    def opaque(self, name, type=None):
        def make():
            r = self.rng
            if type is str:
                return r.choice(['', 'x', '"q"', '0', '1', 'abc'])
            if type is int:
                return r.randint(0, 9)
            return r.choice([f'<{name}>', [f'{name}', ['0']], '0', '"' + name + '"', [], ['1', [name]]])
        return self._val(name, make)

    def rest(self, name, element=None, min=0, only=None):
        n = self._val(name + '.len', lambda: self.rng.choice([0, 0, 1, 2, 3, 6]) + min)
        return [element(f'{name}.{i}') if element else self.opaque(f'{name}.{i}') for i in range(n)]

    def choose(self, name, n):
        return self._val(name, lambda: self.rng.randrange(n))

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=''):
        self.checked[label] = self.checked.get(label, 0) + 1
        if not c:
            self.failures.append((label, str(detail)[:300]))
        return bool(c)

    def eq(self, label, a, b):
        self.checked[label] = self.checked.get(label, 0) + 1
        if a != b:
            self.failures.append((label, f'{a!r:.150} is not {b!r:.150}'))
            return False
        return True

    def call(self, f, *a, **k):
        if isinstance(f, str):
            g = fn_of(f)
            if g is None:
                raise Skip()
            f = g
        return f(*a, **k)

    def raises(self, f, *a, **k):
        """the exception f raises, or None"""
        try:
            self.call(f, *a, **k)
        except Exception as e:
            return e
        return None

    def end(self):
        raise Skip()

    def hook(self, *a):
        pass
    loop = contract = hook

    def listed(self, it):
        return list(it)

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def len(self, x):
        return len(x)

    def ite(self, c, a, b):
        return a if c else b

    def truth(self, c):
        return bool(c)

    def starts(self, t, p):
        return t.startswith(p)

    def copy(self, x):
        import copy
        return copy.deepcopy(x)

    # files
    @property
    def root(self):
        if self._root is None:
            self._root = tempfile.mkdtemp(prefix='thm')
        return self._root

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def file(self, path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(content)

    def dir(self, path):
        os.makedirs(path, exist_ok=True)

    def read(self, path):
        try:
            with open(path, 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def paths(self):
        out = []
        for d, _, fs in os.walk(self.root):
            out += [os.path.join(d, f) for f in fs]
        return sorted(out)

    def bytesio(self, b=b''):
        import io
        return io.BytesIO(b)

    def content(self, f):
        return f.getvalue()

    def utf8(self, t):
        return t.encode('utf-8')

    def encode(self, t, enc):
        return t.encode(enc)

    def inflate(self, b):
        """what a raw deflate stream holds; None when b is not exactly one"""
        import zlib
        d = zlib.decompressobj(-15)
        try:
            x = d.decompress(b)
        except zlib.error:
            return None
        return x if d.eof and not d.unused_data else None

    def deflated(self, name, x):
        """some raw deflate stream of x"""
        import zlib
        level = self.int(name + '.level', 0, 9)
        c = zlib.compressobj(level, wbits=-15)
        return c.compress(x) + c.flush()

    def sha1(self, b):
        import base64, hashlib
        return base64.b64encode(hashlib.sha1(b).digest()).decode()

    def contains(self, t, sub):
        return sub in t

    def decimal(self, n):
        return str(n)


def unjson(v):
    if isinstance(v, dict):
        if '__b' in v:
            return bytes.fromhex(v['__b'])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


def tojson(v):
    if isinstance(v, (bytes, bytearray)):
        return {'__b': bytes(v).hex()}
    if isinstance(v, dict):
        return {str(k): tojson(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [tojson(x) for x in v]
    if isinstance(v, (str, int, float, type(None))):
        return v
    return str(v)


class quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.o, self.e


def run_native(th, rng, given=None):
    """(failures, inputs) or None when the inputs are outside the theorem's domain"""
    s = NatS(rng, given)
    try:
        with quiet():
            if th.setup:
                with th.setup(s):
                    th.fn(s)
            else:
                th.fn(s)
    except Skip:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        s.failures.append(('no unexpected error', f'{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}'[:400]))
    finally:
        s.done()
    return s.failures, s.inputs, s.checked


def search(th, seconds, seed, limit=None):
    rng = random.Random(f'{seed}/{th.name}')
    t0 = time.time()
    n = skipped = 0
    checked = {}
    while time.time() - t0 < seconds and (limit is None or n < limit):
        r = run_native(th, rng)
        if r is None:
            skipped += 1
            if skipped > 3000 and n == 0:
                break
            continue
        n += 1
        for k, v in r[2].items():
            checked[k] = checked.get(k, 0) + v
        if r[0]:
            return {'n': n, 'failure': {'theorem': th.name, 'label': r[0][0][0], 'detail': r[0][0][1], 'inputs': {k: tojson(v) for k, v in r[1].items()}}, 'checked': checked}
    return {'n': n, 'failure': None, 'checked': checked, 'skipped': skipped}
