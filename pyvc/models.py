"""What the verifier assumes about Python and its library (the trusted base), as functions over symbolic values.

Each model is the documented behaviour of a library function on every value; every model that is used is listed in the
evidence. Theorems are also run natively on the real library (concrete mode), which cross-checks these models."""
import base64 as _b64
import builtins
import codecs
import collections
import copy as _copy
import datetime
import enum
import functools
import hashlib
import io
import json
import math
import os
import re
import shutil
import struct
import sys
import tempfile
import types
import uuid
import zlib

import z3

import sym
from sym import (Unsupported, Rope, SInt, SBool, SFrac, Opaque, Rest, Node, un, Atom, Seg, ZERO, rope, cat, cut, rlen, parts_of, kind_of, term,
                 starts, contains, split_first, symbolic, mk, mkb, zi, eq, same, akey)

USED = {}
NATIVE_MODULES = {'math', 'struct', 'collections', 're', 'enum', 'uuid', '_struct', 'itertools', 'functools', 'datetime', 'operator', 'codecs', '_codecs',
                  'copy', 'base64', 'binascii', 'zlib', '_hashlib', 'hashlib', 'json', 'json.encoder', 'json.decoder', '_sre', 'string', 'posixpath', 'genericpath', 'time',
                  'tqdm', 'typing', 'abc', 'sre_parse', 'difflib', '_operator', '_collections'}
FORBIDDEN = {'os', 'posix', 'shutil', 'io', '_io', 'tempfile', 'subprocess', 'multiprocessing', 'nt', 'sys'}


def used(name):
    USED[name] = USED.get(name, 0) + 1


REG = {}


def model(*fs, name=None):
    def deco(m):
        for f in fs:
            n = name or (getattr(f, '__module__', None) or '') + '.' + getattr(f, '__qualname__', str(f))

            @functools.wraps(m)
            def w(vm, *a, _n=n, **k):
                used(_n)
                return m(vm, *a, **k)
            REG[id(f)] = (f, w)
        return m
    return deco


# ---------------------------------------------------------------- lists with an unknown rest
def rest_at(l):
    for i, x in enumerate(l):
        if isinstance(x, Rest):
            return i
    return None


def parts_list(x, sep):
    """x.split(sep) as a list in which parts of unknown number are one Rest"""
    if kind_of(x) == 'b' and parts_of(x):
        at = sym.fixed_find(x, sep)
        if at is not None:
            ends = [-len(sep)] + at + [rlen(x)]
            return [cut(x, a + len(sep), b) for a, b in zip(ends, ends[1:])]
    if sym.crossing(parts_of(x), sep):
        raise Unsupported(f'{sep!r} may occur across the pieces of {x!r}')
    k = kind_of(x)
    secs, cur = [], []
    for p in parts_of(x):
        if isinstance(p, Seg):
            cur.append(p)
        else:
            ss = p.split(sep)
            cur.append(ss[0])
            for q in ss[1:]:
                secs.append(rope(k, cur))
                cur = [q]
    secs.append(rope(k, cur))
    out = []
    for t in secs:
        if any(isinstance(p, Seg) and p.atom is not ZERO and not p.atom.lacks(sep) for p in parts_of(t)):
            out.append(Rest(f'split({t!r})', 1 + t_count(None, t, sep), None, t, sep))
        else:
            out.append(t)
    return out


def total(name):
    """a tree of which the theorem assumes that it has every part the code looks for"""
    return any(name.startswith(p) for p in sym.CUR.total)


def total_text(x):
    ps = parts_of(x)
    return len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].whole() and total(ps[0].atom.name)


def materialize(l, i, back=False, must=False):
    """one more element of the unknown rest at position i, or False when there is none"""
    r = l[i]
    if r.text is not None:
        q = split_first(r.text, r.sep, back)
        if q is None:
            l[i:i + 1] = [r.text]
        elif back:
            l[i:i + 1] = parts_list(q[0], r.sep) + [q[1]]
        else:
            l[i:i + 1] = [q[0]] + parts_list(q[1], r.sep)
        return True
    if back:
        raise Unsupported('index from the end of a list of unknown length')
    if must and not r.link and total(r.name):
        sym.CUR.assume(r.length > 0)
        if not sym.CUR.feasible():
            raise sym.Infeasible()
    elif not (r.link or r.length > 0):
        del l[i]
        return False
    if r.link is None:
        e = r.element(sym.CUR.fresh(r.name + '.e')) if r.element else Opaque(sym.CUR.fresh(r.name + '.e'))
        r.link = (e, Rest(sym.CUR.fresh(r.name + "'"), r.length - 1, r.element))
    l[i:i + 1] = [dcopy(r.link[0]), r.link[1]]
    return True


WELLFORMED = {}


class Models:
    def __init__(self, fs=None):
        self.fs = fs
        self.fault = None
        self.hooks = {}

    # ------------------------------------------------------------ dispatch
    def lookup(self, f):
        if isinstance(f, Bound):
            return f
        h = self.hooks.get(id(f))
        if h is not None:
            return h
        e = REG.get(id(f))
        if e is not None and e[0] is f:
            return e[1]
        if isinstance(f, types.BuiltinMethodType) and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
            o = f.__self__
            if isinstance(o, list):
                m = LIST.get(f.__name__)
                if m:
                    return functools.partial(bind3, m, o)
            elif isinstance(o, dict):
                m = DICT.get(f.__name__)
                if m:
                    return functools.partial(bind3, m, o)
            elif o is datetime.datetime and f.__name__ == 'now':
                return m_now
        return None

    def constructor(self, cls):
        for c in cls.__mro__:
            if c.__name__ == 'ExtException' and c.__module__ == 'v8unpack.ext_exception':
                return ext_exception
        return None

    def native_call(self, vm, f, args, kw):
        if any(isinstance(a, types.GeneratorType) for a in args) and (isinstance(getattr(f, '__self__', None), (str, bytes, bytearray)) or f in (dict, set, frozenset, min, max)):
            args = [list(vm.iterate(a)) if isinstance(a, types.GeneratorType) else a for a in args]
        s = symbolic(list(args)) or symbolic(kw)
        o = getattr(f, '__self__', None)
        if isinstance(o, (str, bytes)) and not isinstance(f, type):
            if s:
                used(f'{type(o).__name__}.{f.__name__}')
                return text_method(vm, o, f.__name__, args, kw)
            return f(*args, **kw)
        if isinstance(o, Obj):
            return f(*args, **kw)
        if s and isinstance(o, re.Pattern) and f.__name__ == 'sub' and len(args) == 2 and not kw and isinstance(args[0], str) and '\\' not in args[0]:
            lit = re.sub(r'^\((?!\?)(.*)\)$', r'\1', o.pattern)
            if re.escape(lit).replace('\\', '') == lit and not any(c in lit for c in '.^$*+?{}[]|()\\') and o.flags & ~re.UNICODE.value == 0:
                used('re.Pattern.sub of a literal')
                return t_replace(vm, args[1], lit, args[0])
        mod = getattr(f, '__module__', None)
        if isinstance(o, types.ModuleType) and mod is None:
            mod = o.__name__
        if mod is None and o is not None:
            mod = type(o).__module__
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*args, **kw)
        root = (mod or '').split('.')[0]
        name = f'{mod}.{getattr(f, "__qualname__", getattr(f, "__name__", f))}'
        if root in FORBIDDEN:
            raise Unsupported(f'no model of {name}')
        if o is not None and not isinstance(o, (types.ModuleType, type)):
            if isinstance(o, (list, dict, tuple, set, collections.abc.Iterator, types.GeneratorType)) or isinstance(o, enum.Enum):
                return f(*args, **kw)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, '_fields'):
            return f(*args, **kw)
        if s:
            if vm.ours_obj(f) if hasattr(vm, 'ours_obj') else False:
                return f(*args, **kw)
            if isinstance(f, type) and issubclass(f, enum.Enum) and len(args) == 1 and not kw:
                used('enum.Enum')
                for m in f:
                    if self.truth(vm, deq(m.value, args[0])):
                        return m
                raise ValueError(f'not a valid {f.__name__}')
            raise Unsupported(f'no model of {name} on symbolic values')
        if name == 'builtins.__import__' and args and isinstance(args[0], str) and args[0].split('.')[0] == 'v8unpack':
            return f(*args, **kw)
        if root in NATIVE_MODULES or root == 'builtins' or root.startswith('v8unpack') or isinstance(f, type) and root == 'v8unpack':
            if name in ('builtins.open', 'builtins.exec', 'builtins.eval', 'builtins.input', 'builtins.__import__'):
                raise Unsupported(name)
            used('native ' + name)
            return f(*args, **kw)
        if o is not None and isinstance(o, (SFile, SCompress, SDecompress, Obj)):
            return f(*args, **kw)
        raise Unsupported(f'no model of {name}')

    def caught(self, vm, e):
        pass

    # ------------------------------------------------------------ truth, comparison, arithmetic
    def truth(self, vm, v):
        if isinstance(v, Node):
            v = v.decide()
        if isinstance(v, (SBool, SInt, Opaque)):
            return bool(v)
        if isinstance(v, Rope):
            return bool(rlen(v) > 0)
        if isinstance(v, (list, tuple)) and v and all(isinstance(x, Rest) for x in v):
            n = 0
            for x in v:
                n = n + x.length
            return bool(n > 0)
        if isinstance(v, Obj):
            return True
        return bool(v)

    def compare(self, vm, op, a, b):
        if op not in ('Is', 'IsNot', 'Eq', 'NotEq'):
            a, b = un(a), un(b)
            if isinstance(b, Node):
                b = b.decide()
        if op == 'Is':
            if isinstance(a, Node) or isinstance(b, Node):
                if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                    return False
            return a is b or (isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name)
        if op == 'IsNot':
            return not self.compare(vm, 'Is', a, b)
        if op in ('In', 'NotIn'):
            r = self.isin(vm, a, b)
            if op == 'In':
                return r
            return not self.truth(vm, r)
        if op in ('Eq', 'NotEq'):
            r = deq(a, b)
            return r if op == 'Eq' else (~r if isinstance(r, SBool) else not r)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (symbolic(a) or symbolic(b)):
            for x, y in zip(a, b):
                if isinstance(x, Rest) or isinstance(y, Rest):
                    raise Unsupported('order of lists of unknown length')
                if not self.truth(vm, deq(x, y)):
                    return self.compare(vm, op, x, y)
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
        if isinstance(a, (str, bytes, Rope)) and isinstance(b, (str, bytes, Rope)) and (symbolic(a) or symbolic(b)):
            h = self.hooks.get('order')
            if h:
                return h(op, a, b)
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()

    def isin(self, vm, a, b):
        if isinstance(b, (Rope, str, bytes)):
            if symbolic(a) or symbolic(b):
                return contains(b, a)
            return a in b
        if isinstance(b, dict):
            return find_key(b, a) is not None
        if isinstance(b, (list, tuple, set, frozenset)) or type(b).__name__ in ('dict_keys', 'dict_values'):
            for x in list(b):
                if isinstance(x, Rest):
                    raise Unsupported('membership in a list of unknown length')
                if self.truth(vm, deq(a, x)):
                    return True
            return False
        if isinstance(b, Opaque):
            raise Unsupported(f'membership in {b}')
        if symbolic(a):
            raise Unsupported(f'membership in {type(b).__name__}')
        return a in b

    def binop(self, vm, op, a, b):
        a, b = un(a), un(b)
        if isinstance(a, Node):
            a = a.as_text() if kind_of(b) == 's' else a.as_list() if isinstance(b, list) else a
        if isinstance(b, Node):
            b = b.as_text() if kind_of(a) == 's' else b.as_list() if isinstance(a, list) else b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f'arithmetic on {a if isinstance(a, Opaque) else b}')
        if op == 'Add':
            if isinstance(a, (Rope, str, bytes)) and isinstance(b, (Rope, str, bytes)):
                return cat(a, b)
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            if isinstance(a, (str, Rope)):
                if symbolic(a) or symbolic(b):
                    raise Unsupported('% formatting')
                return a % b
            return a % b
        if op == 'Div':
            if isinstance(a, SInt) or isinstance(b, SInt):
                return SFrac(a, b)
            h = self.hooks.get('div')
            return a / b
        if symbolic(a) or symbolic(b):
            if op == 'BitOr' and isinstance(a, dict):
                return {**a, **b}
            raise Unsupported(f'operator {op}')
        import operator
        return {'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift,
                'Pow': operator.pow, 'MatMult': operator.matmul}[op](a, b)

    def format(self, vm, x, spec, conv):
        if isinstance(x, Node):
            x = x.as_text() if not x.decided() else x.get()
        if conv not in (-1, 115):
            if symbolic(x):
                used('repr')
                return term('s', 'repr', [x if not isinstance(x, (list, dict, tuple)) else str(x)], freshlen('repr'))
            x = repr(x)
        if not spec:
            return to_str(vm, x)
        if isinstance(x, SInt):
            m = re.fullmatch(r'0?(\d*)(x|X|d)?', spec)
            if m:
                return int_text(x, m.group(2) or 'd', int(m.group(1) or 0))
        if symbolic(x) or symbolic(spec):
            raise Unsupported(f'format {spec!r}')
        return format(x, spec)

    # ------------------------------------------------------------ items
    def getitem(self, vm, o, i):
        i = un(i)
        if isinstance(i, Node):
            i = i.as_text()
        if isinstance(o, Node):
            o = o.as_list() if not o.decided() else o.get()
        if isinstance(o, Rope):
            return o[i]
        if isinstance(o, (str, bytes)) and symbolic(i):
            if isinstance(i, slice):
                return sym.rslice(o, i)
            raise Unsupported('symbolic index into a text')
        if isinstance(o, dict):
            k = find_key(o, i)
            if k is None:
                if isinstance(o, collections.defaultdict):
                    return o[i]
                raise KeyError(i if not symbolic(i) else str(i))
            return dict_at(o, k)
        if isinstance(o, (list, tuple)):
            if isinstance(i, slice):
                if symbolic(i) and rest_at(o) is not None:
                    q = cut_at(o, i)
                    if q is not None:
                        return o[q]
                    raise Unsupported('slice of a list of unknown length')
                if symbolic(i):
                    i = slice(*(self.concrete(x, len(o) + 1) for x in (i.start, i.stop, i.step)))
                r = rest_at(o)
                if r is not None:
                    a, b = i.start or 0, i.stop
                    if i.step not in (None, 1):
                        raise Unsupported('slice of a list of unknown length')
                    if a < 0 or (b is not None and b < 0):
                        rs = [k for k, x in enumerate(o) if isinstance(x, Rest)]
                        need = max(-a, -(b or 0))
                        if need > len(o) - 1 - rs[-1] and not vm.truth(b_len(vm, o) >= need):
                            for _ in range(need + 2):     # a short list: all its elements
                                k = rest_at(o)
                                if k is None:
                                    break
                                materialize(o, k, True)
                            if rest_at(o) is not None:
                                raise Unsupported('slice of a list of unknown length')
                            return o[i]
                        while rs and need > len(o) - 1 - rs[-1]:
                            materialize(o, rs[-1], True)
                            rs = [k for k, x in enumerate(o) if isinstance(x, Rest)]
                        if a > 0 or not rs:
                            if rs and a > rs[0]:
                                raise Unsupported('slice of a list of unknown length')
                        return o[i]
                    while isinstance(o, list) and (a > r or (b is not None and b > r)):
                        if not materialize(o, r):
                            break
                        r = rest_at(o)
                        if r is None:
                            break
                return o[i]
            if isinstance(i, SInt):
                k = placed(o, i)
                if k is not None:
                    return o[k]
                if rest_at(o) is not None:
                    raise Unsupported('element of a list of unknown length')
                i = self.concrete(i, len(o))
            if not isinstance(i, int):
                return o[i]
            r = rest_at(o)
            if r is None:
                return o[i]
            if i < 0:
                if -i <= len(o) - 1 - r:
                    return o[i]
                rs = [k for k, x in enumerate(o) if isinstance(x, Rest)]
                while rs and -i > len(o) - 1 - rs[-1]:
                    if not isinstance(o, list):
                        raise Unsupported('index into a tuple of unknown length')
                    materialize(o, rs[-1], True)
                    rs = [k for k, x in enumerate(o) if isinstance(x, Rest)]
                return o[i]
            if r is not None and i >= r:
                k = placed(o, i)
                if k is not None:
                    return o[k]
            while r is not None and i >= r:
                if not isinstance(o, list):
                    raise Unsupported('index into a tuple of unknown length')
                if not materialize(o, r, must=True):
                    break
                r = rest_at(o)
            return o[i]
        if isinstance(o, Opaque):
            raise Unsupported(f'item of {o}')
        h = getattr(o, 'sym_getitem', None)
        if h:
            return h(vm, i)
        if symbolic(i):
            if isinstance(o, type) and issubclass(o, enum.Enum):
                for n, m in o.__members__.items():
                    if self.truth(vm, deq(n, i)):
                        return m
                raise KeyError('a name')
            raise Unsupported(f'symbolic index of {type(o).__name__}')
        return o[i]

    def concrete(self, i, n):
        """a symbolic index of a short list: all its values"""
        if i is None or isinstance(i, int):
            return i
        for k in range(-n, n + 1):
            if i == k:
                return k
        raise IndexError('list index out of range')

    def setitem(self, vm, o, i, v):
        i = un(i)
        if isinstance(i, Node):
            i = i.as_text()
        if isinstance(o, Node):
            o = o.as_list()
        if isinstance(o, dict):
            k = find_key(o, i)
            if k is None:
                o[SKey(i) if symbolic(i) else i] = v
            else:
                o[k[0]] = v
            return
        if isinstance(o, list):
            if rest_at(o) is not None:
                if isinstance(i, slice):
                    q = cut_at(o, i)
                    if q is None:
                        raise Unsupported('assignment into a list of unknown length')
                    o[q] = v if isinstance(v, list) else list(self.iterate(vm, v))
                    return
                if isinstance(i, SInt) or i > rest_at(o):
                    k = placed(o, i)
                    if k is not None:
                        o[k] = v
                        return
                    if isinstance(i, SInt):
                        raise Unsupported('assignment into a list of unknown length')
            if isinstance(i, SInt):
                i = self.concrete(i, len(o))
            if isinstance(i, slice) and symbolic(i):
                i = slice(*(self.concrete(x, len(o) + 1) for x in (i.start, i.stop, i.step)))
            r = rest_at(o)
            if r is not None and (not isinstance(i, int) or i < 0 or i >= r):
                if isinstance(i, int) and i < 0 and -i <= len(o) and not any(isinstance(x, Rest) for x in o[i:]):
                    o[i] = v
                    return
                if not isinstance(i, int) or i < 0:
                    raise Unsupported('assignment into a list of unknown length')
                self.getitem(vm, o, i)
            o[i] = v
            return
        if isinstance(o, Opaque):
            raise Unsupported(f'assignment into {o}')
        if symbolic(i):
            raise Unsupported('symbolic index')
        o[i] = v

    def delitem(self, vm, o, i):
        i = un(i)
        if isinstance(o, Node):
            o = o.as_list()
        if isinstance(o, dict):
            k = find_key(o, i)
            if k is None:
                raise KeyError(str(i))
            del o[k[0]]
            return
        if isinstance(o, list):
            r = rest_at(o)
            if r is not None:
                if isinstance(i, slice):
                    q = cut_at(o, i)
                    if q is not None:
                        del o[q]
                        return
                    if symbolic(i):
                        raise Unsupported('del in a list of unknown length')
                    if (i.start or 0) > r or (i.stop is not None and i.stop > r):
                        raise Unsupported('del in a list of unknown length')
                elif i < 0:
                    raise Unsupported('del in a list of unknown length')
                else:
                    self.getitem(vm, o, i)
        if symbolic(i):
            raise Unsupported('symbolic index')
        del o[i]

    def iterate(self, vm, it):
        if isinstance(it, Node):
            it = it.as_list() if not it.decided() else it.get()
        if isinstance(it, (list, tuple)):
            if rest_at(it) is not None:
                return self.iter_rest(it)
            return iter(it) if isinstance(it, list) else iter(it)
        if isinstance(it, dict):
            return iter([unkey(k) for k in it])
        h = getattr(it, 'sym_iter', None)
        if h:
            return h(vm)
        if isinstance(it, (Rope, Opaque, SInt)):
            raise Unsupported(f'iteration over {it}')
        return iter(it)

    def iter_rest(self, it):
        if not isinstance(it, list):
            raise Unsupported('loop over a tuple of unknown length needs an invariant')
        i = 0
        while True:
            r = rest_at(it)
            if r is not None and i >= r:
                raise Unsupported('loop over a list of unknown length needs an invariant')
            if i >= len(it):
                return
            yield it[i]
            i += 1

    def exact(self, vm, vs, n):
        """a list of unknown length that has to have n elements"""
        vs = list(vs)
        while True:
            r = rest_at(vs)
            if r is None or len(vs) - 1 > n:
                break
            if not materialize(vs, r):
                continue
        if rest_at(vs) is not None:
            raise ValueError('too many values to unpack')
        return vs

    def mapped(self, vm, n, env):
        return None

    # ------------------------------------------------------------ attributes
    def attribute(self, vm, o, name):
        if isinstance(o, Node):
            if not o.decided():
                if name in TEXT and name not in ('index', 'count'):
                    o.as_text()
                elif name in LIST:
                    o.as_list()
                else:
                    raise Unsupported(f'attribute {name} of {o!r}')
            o = o.get()
            if isinstance(o, (list, str)):
                return (getattr(o, name),)
        if isinstance(o, Rope):
            return (Bound(o, name),)
        if isinstance(o, SInt):
            raise Unsupported(f'int.{name}')
        if isinstance(o, Opaque):
            raise Unsupported(f'attribute {name} of {o}')
        return None


def bind3(m, o, vm, *a, **k):
    return m(vm, o, *a, **k)


class Obj:
    """base of model objects whose methods run natively"""
    def __getattr__(self, name):
        if name.startswith(('__', 'sym_')):
            raise AttributeError(name)
        raise Unsupported(f'attribute {name} of a {type(self).__name__}')


class Bound:
    def __init__(self, o, name):
        self.o, self.name = o, name

    def __call__(self, vm, *a, **k):
        used(f'{"str" if self.o.kind == "s" else "bytes"}.{self.name}')
        return text_method(vm, self.o, self.name, a, k)


class SKey:
    """a symbolic key of a dictionary"""
    def __init__(self, v):
        self.v = v


def unkey(k):
    return k.v if isinstance(k, SKey) else k


def find_key(d, k):
    """(native key,) of the entry, or None"""
    if not symbolic(k):
        try:
            if k in d:
                return (k,)
        except TypeError:
            raise
        for x in d:
            if isinstance(x, SKey) and truth(deq(x.v, k)):
                return (x,)
        return None
    for x in d:
        if truth(deq(unkey(x), k)):
            return (x,)
    return None


def dict_at(d, k):
    return dict.__getitem__(d, k[0])


def truth(x):
    return bool(x)


def deq(a, b):
    """equality of values, deep"""
    if a is b:
        return True
    if isinstance(a, Node) or isinstance(b, Node):
        if isinstance(a, Node) and isinstance(b, Node) and a.name == b.name and (a.value is None and b.value is None):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Node) and not x.decided():
                y = un(y)
                if isinstance(y, Node):
                    raise Unsupported(f'comparison of {x!r} and {y!r}')
                x.decide()
        return deq(un(a), un(b))
    if isinstance(a, SKey):
        a = a.v
    if isinstance(b, SKey):
        b = b.v
    if isinstance(a, Rest) or isinstance(b, Rest):
        if isinstance(a, Rest) and isinstance(b, Rest):
            if a.name == b.name:
                return True
            if a.text is not None and b.text is not None and a.sep == b.sep:
                return deq(a.text, b.text)
        raise Unsupported('comparison of unknown parts of lists')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a == b
    if isinstance(a, (Rope, str, bytes)) and isinstance(b, (Rope, str, bytes)):
        if not isinstance(a, Rope) and not isinstance(b, Rope):
            return a == b
        return eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if any(isinstance(x, Rest) and x.text is not None for x in list(a) + list(b)):
            sep = [x.sep for x in list(a) + list(b) if isinstance(x, Rest)][0]
            ts = []
            for l in (a, b):
                if not l:
                    return False
                for x in l:
                    if isinstance(x, Rest):
                        if x.sep != sep or x.text is None:
                            raise Unsupported('comparison of lists of unknown length')
                    elif kind_of(x) is None:
                        return False
                    elif any(not p.atom.lacks(sep) if isinstance(p, Seg) else sep in p for p in parts_of(x)):
                        raise Unsupported('comparison of lists of unknown length')
                ts.append(t_join(None, sep, list(l)))
            return deq(ts[0], ts[1])
        return deq_lists(list(a), list(b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            f = find_key(b, unkey(k))
            if f is None or not truth(deq(a[k], b[f[0]])):
                return False
        return True
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            return a == b
        return False
    if symbolic(a) or symbolic(b):
        return False
    return a == b


def deq_lists(a, b):
    i = 0
    while True:
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if i >= len(a) and i >= len(b):
            return True
        rx, ry = isinstance(x, Rest), isinstance(y, Rest)
        if rx and ry:
            if x is y or x.name == y.name:
                i += 1
                continue
            if x.link and not y.link or x.link:
                materialize(a, i)
                continue
            if y.link:
                materialize(b, i)
                continue
            # one of them must be empty, or both go on
            raise Unsupported(f'comparison of {x!r} and {y!r}')
        if rx:
            materialize(a, i)
            continue
        if ry:
            materialize(b, i)
            continue
        if i >= len(a) or i >= len(b):
            return False
        if not truth(deq(x, y)):
            return False
        i += 1


def placed(o, i):
    """where element i of a list with runs of unknown length stands, if that is certain"""
    if rest_at(o) is None:
        return None
    n = 0
    for k, x in enumerate(o):
        if not isinstance(x, Rest) and sym.CUR.valid(mkb(zi(i) == zi(n))) is True:
            return k
        n = n + (x.length if isinstance(x, Rest) else 1)
    return None


def between(o, i):
    """the elements of a list with runs of unknown length before which position i is, if that is certain"""
    n = 0
    for k in range(len(o) + 1):
        if sym.CUR.valid(mkb(zi(i) == zi(n))) is True:
            return k
        if k < len(o):
            n = n + (o[k].length if isinstance(o[k], Rest) else 1)
    return None


def cut_at(o, i):
    """a slice of such a list, by its elements"""
    if i.step not in (None, 1):
        return None
    a = 0 if i.start is None else between(o, i.start)
    b = len(o) if i.stop is None else between(o, i.stop)
    if a is None or b is None:
        return None
    if i.start is not None and i.stop is not None and sym.CUR.valid(mkb(zi(i.start) <= zi(i.stop))) is not True:
        return None
    return slice(a, b if b >= a else a)


def freshlen(name, lo=0):
    n = SInt(z3.Int(sym.CUR.fresh('len:' + name)))
    sym.CUR.assume(n >= lo)
    return n


DIGITS = frozenset('0123456789')


DIGLEN = {10: z3.Function('declen', z3.IntSort(), z3.IntSort()), 16: z3.Function('hexlen', z3.IntSort(), z3.IntSort())}


LENGTHS = {}     # what is known of the number of digits of a number


def int_text(x, code, width):
    """decimal or hexadecimal text of a non-negative integer"""
    neg = not (x >= 0)
    if neg:
        if code != 'd':
            raise Unsupported('hexadecimal text of a negative number')
        return cat('-', int_text(-x, 'd', 0)) if not width else term('s', 'dec-', [x], freshlen('dec'))
    base = 10 if code == 'd' else 16
    F = DIGLEN[base]
    c = sym.CUR
    n = mk(z3.If(F(zi(x)) > width, F(zi(x)), width)) if width > 1 else mk(F(zi(x)))
    key = ('digits', base, zi(x).sexpr())
    if key not in c.memo:
        c.memo[key] = True
        if key not in LENGTHS:
            LENGTHS[key] = SBool(z3.And(F(zi(x)) >= 1, *[(zi(x) < base ** k) == (F(zi(x)) <= k) for k in range(1, 21)]))
        c.assume(LENGTHS[key])
    only = DIGITS if code == 'd' else frozenset('0123456789abcdef' if code == 'x' else '0123456789ABCDEF')
    return term('s', f'{code}{width}', [x], n, only=only, info={'int': x, 'base': base, 'code': code, 'width': width, 'inj': (code, width), 'is': None})


def to_str(vm, x):
    if isinstance(x, Node):
        x = x.decide()
    if isinstance(x, (Rope, str)) and kind_of(x) == 's':
        return x
    if isinstance(x, SInt):
        return int_text(x, 'd', 0)
    if isinstance(x, Opaque):
        if x.type is str:
            raise Unsupported('opaque text')
        return term('s', 'str', [x], freshlen('str'))
    if symbolic(x):
        used('str of a container')
        return term('s', 'str', [Opaque(sym.CUR.fresh('container'))], freshlen('str'))
    if isinstance(x, BaseException):
        if vm is not None and vm.real_errors and type(x).__module__.startswith('v8unpack'):
            return vm.call(type(x).__str__, (x,), {})
        return exc_text(x)
    if type(x).__module__.startswith('v8unpack') and type(x).__str__ is not object.__str__ and not isinstance(x, enum.Enum):
        return vm.call(type(x).__str__, (x,), {})
    return str(x)


def exc_text(x):
    if getattr(x, 'ghost', None):
        return term('s', 'str', [Opaque(f'error {id(x)}')], freshlen('str'))
    if symbolic(list(x.args)):
        if len(x.args) == 1 and isinstance(x.args[0], (str, Rope)) and type(x).__str__ in (BaseException.__str__, OSError.__str__):
            return x.args[0]
        return term('s', 'str', [Opaque(f'error {id(x)}')], freshlen('str'))
    return str(x)


def text_method(vm, o, name, a, k):
    m = TEXT.get(name)
    if m is None:
        raise Unsupported(f'text method {name}')
    return m(vm, o, *a, **k)


def _strip_sides(chars, left, right):
    def f(vm, x, cs=None):
        ps = list(parts_of(x))
        k = kind_of(x)
        if symbolic(cs):
            raise Unsupported('strip of a symbolic set of characters')
        for back, on in ((False, left), (True, right)):
            while on and ps:
                i = -1 if back else 0
                p = ps[i]
                if isinstance(p, Seg):
                    if p.atom is ZERO:
                        if cs is not None and 0 in cs:
                            ps.pop(i)
                            continue
                        break
                    at = p.atom
                    cset = cs if cs is not None else ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
                    if at.only is not None and not any(ch in at.only for ch in cset):
                        if isinstance(p.length, int) or sym.CUR.valid(p.length > 0):
                            break
                        raise Unsupported('strip at a piece that may be empty')
                    if at.only is not None and cs is None and all(ch in cset for ch in at.only):
                        ps.pop(i)
                        continue
                    if cs is None and (
                            'stripped' in at.info or ('rstripped' if back else 'lstripped') in at.info or ('rstrip' if back else 'lstrip') == at.info.get('ctor')) and (
                            p.whole() or (back and same(p.start + p.length, at.length)) or (not back and same(p.start, 0))):
                        if sym.CUR.valid(p.length > 0) is True or p.length > 0:
                            break
                        ps.pop(i)
                        continue
                    if all(ch in at.no for ch in (cset if cs is not None else ' \t\n\r')) and cs is not None:
                        if p.length > 0:
                            break
                        ps.pop(i)
                        continue
                    if cs is None and k == 's' and p.whole():
                        how = 'rstrip' if back else 'lstrip'
                        n = sym.CUR.memo.setdefault(('stripped', how, at.key), SInt(z3.Int(sym.CUR.fresh('len:' + how))))
                        sym.CUR.assume((n >= 0) & (n <= p.length))
                        q = sym.term('s', how, (rope('s', [p]),), n, at.no, at.only, {'opaque': True} if at.info.get('opaque') else None)
                        ps[i:i + 1 if i >= 0 else None] = [] if not n > 0 else parts_of(q)
                        if not n > 0:
                            continue
                        break
                    raise Unsupported(f'strip of {p}')
                q = (p.rstrip(cs) if back else p.lstrip(cs))
                if q:
                    ps[i] = q
                    break
                ps.pop(i)
        return rope(k, ps)
    return f


def t_split(vm, x, sep=None, maxsplit=-1, back=False):
    if sep is None:
        raise Unsupported('split at blanks')
    if symbolic(sep):
        raise Unsupported('split at a symbolic text')
    h = vm.models.hooks.get('split') if vm else None
    if h:
        r = h(x, sep)
        if r is not None:
            return r
    if maxsplit < 0:
        return parts_list(x, sep)
    out = []
    n = 0
    while maxsplit < 0 or n < maxsplit:
        r = split_first(x, sep, back)
        if r is None:
            break
        n += 1
        if n > 40:
            raise Unsupported('split into many parts')
        if back:
            out.insert(0, r[1])
            x = r[0]
        else:
            out.append(r[0])
            x = r[1]
    if back:
        out.insert(0, x)
    else:
        out.append(x)
    return out


def t_partition(vm, x, sep):
    r = split_first(x, sep)
    e = '' if kind_of(x) == 's' else b''
    return (x, e, e) if r is None else (r[0], sep, r[1])


def t_rpartition(vm, x, sep):
    r = split_first(x, sep, True)
    e = '' if kind_of(x) == 's' else b''
    return (e, e, x) if r is None else (r[0], sep, r[1])


def t_find(vm, x, sub, start=0, *end, back=False, must=False):
    if end:
        raise Unsupported('find with an end')
    y = sym.rslice(x, slice(start, None)) if start is not 0 else x
    if isinstance(sub, Rope):
        if not contains(y, sub):
            r = None
        else:
            raise Unsupported('position of a symbolic text')
    else:
        r = split_first(y, sub, back)
    if r is None:
        if must:
            raise ValueError('substring not found')
        return -1
    return start + rlen(r[0])


def t_replace(vm, x, old, new, count=-1):
    if symbolic(old):
        if not contains(x, old):
            return x
        raise Unsupported('replace of a symbolic text')
    h = vm.models.hooks.get('replace')
    if h:
        r = h(x, old, new)
        if r is not None:
            return r
    out = []
    n = 0
    k = kind_of(x)
    ps = parts_of(x)
    # atoms in which old may occur any number of times become replace(atom)
    if sym.crossing(ps, old):
        raise Unsupported(f'{old!r} may occur across the pieces of {x!r}')
    for p in ps:
        if isinstance(p, Seg):
            if p.atom is ZERO or p.atom.lacks(old):
                out.append(p)
            elif count != -1:
                raise Unsupported('replace with a count')
            else:
                orig = rope(k, [p])
                inv = p.atom.info.get('unreplace')
                if inv and inv[0] == old and akey(inv[1]) == akey(new) and p.whole():
                    out += parts_of(inv[2])
                else:
                    no = set(p.atom.no)
                    if not symbolic(new) and old not in new and len(old) == 1:
                        no |= {old}
                    no = {s for s in no if symbolic(new) is False and s not in new and not overlap(s, new)}
                    if old not in new and not symbolic(new) and len(old) == 1:
                        no.add(old)
                    info = {'replaced': (old, new, orig)}
                    if not symbolic(new) and new == old * 2 and len(old) == 1:
                        info['unreplace'] = (new, old, orig)       # doubling a character is undone by halving the pairs
                    no.discard(old) if (not symbolic(new) and old in new) else None
                    size = freshlen('replace')
                    if not symbolic(new):
                        sym.CUR.assume(size >= p.length if len(new) >= len(old) else size <= p.length)
                    out += parts_of(term(k, 'replace', [orig, old, new], size, no=no, info=info))
        else:
            out += parts_of(p.replace(old, new, count) if not symbolic(new) else t_join(vm, new, p.split(old)))
            if count != -1:
                count = max(0, count - p.count(old))
    return rope(k, out)


def overlap(s, new):
    return any(c in new for c in s)


def t_join(vm, sep, it):
    xs = list(it) if isinstance(it, (list, tuple)) else list(vm.iterate(it))
    for i, x in enumerate(xs):
        if isinstance(x, Rest):
            if x.text is None or symbolic(sep) or x.sep != sep:
                raise Unsupported('join of a list of unknown length')
            xs[i] = x.text
    if not xs:
        return '' if kind_of(sep) == 's' else b''
    out = []
    for i, x in enumerate(xs):
        if kind_of(x) != kind_of(sep):
            if isinstance(x, Opaque):
                raise Unsupported('join of an opaque value')
            raise TypeError('sequence item: expected str instance')
        out += (parts_of(sep) if i else []) + parts_of(x)
    return rope(kind_of(sep), out)


ENC = {'utf-8': 'utf-8', 'utf8': 'utf-8', 'utf-16-le': 'utf-16-le', 'utf-16': 'utf-16-le', 'cp1251': 'cp1251', 'windows-1251': 'cp1251', 'ascii': 'ascii',
       'utf-16-be': 'utf-16-be'}


def t_encode(vm, x, encoding='utf-8', errors='strict'):
    if encoding is None:
        encoding = 'utf-8'
    e = encoding.lower()
    if errors != 'strict':
        raise Unsupported('encode with errors')
    out = []
    if e == 'utf-8-sig':
        out.append(b'\xef\xbb\xbf')
        e = 'utf-8'
    elif e == 'utf-16':
        out.append(b'\xff\xfe')
    elif e == 'utf-8-no':
        e = 'utf-8'
    if e not in ENC:
        raise Unsupported(f'encoding {encoding}')
    e = ENC[e]
    for p in parts_of(x):
        if isinstance(p, Seg):
            at = p.atom
            one = rope('s', [p])
            # the inverse of decoding the same bytes
            if p.whole() and at.info.get('decoded') and at.info['decoded'][0] == e:
                out += parts_of(at.info['decoded'][1])
                continue
            if at.only is not None and all(ord(c) < 128 for c in at.only) and e in ('utf-8', 'ascii', 'cp1251'):
                n = p.length
            elif e in ('cp1251', 'ascii'):
                if not sym.CUR.predicate(('encodes', e, repr(akey(one)))):
                    raise UnicodeEncodeError(e, 'symbolic', 0, 1, 'not in this encoding')
                n = p.length
            else:
                n = freshlen('enc')
                sym.CUR.assume(mkb(z3.And(zi(n) >= zi(p.length), zi(n) <= 4 * zi(p.length))))
            no = set()
            if e == 'utf-8':
                for s in at.no:
                    no.add(s.encode('utf-8', 'surrogatepass'))
            only = None
            if at.only is not None and e in ('utf-8', 'ascii', 'cp1251'):
                only = None
            out += parts_of(term('b', 'enc:' + e, [one], n, no=no, info={'text': one, 'encoding': e, 'inj': 'enc:' + e, 'ascii': at.only}))
        else:
            out.append(p.encode(e))
    return rope('b', out)


def t_decode(vm, x, encoding='utf-8', errors='strict'):
    e = (encoding or 'utf-8').lower()
    if errors != 'strict':
        raise Unsupported('decode with errors')
    if e == 'utf-8-sig':
        if starts(x, b'\xef\xbb\xbf'):
            x = cut(x, 3, None)
        e = 'utf-8'
    elif e == 'utf-16':
        if starts(x, b'\xff\xfe'):
            x = cut(x, 2, None)
        elif starts(x, b'\xfe\xff'):
            raise Unsupported('utf-16 of the other order')
    if e not in ENC:
        raise Unsupported(f'encoding {encoding}')
    e = ENC[e]
    out = []
    ps = parts_of(x)
    for p in ps:
        if isinstance(p, Seg):
            at = p.atom
            if at is ZERO:
                raise Unsupported('text of zeros')
            if p.whole() and at.info.get('encoding') == e:
                out += parts_of(at.info['text'])
            elif p.whole() and at.info.get('encoding') and at.info.get('ascii') is not None and all(ord(c) < 128 for c in at.info['ascii']) and e in ('utf-8', 'cp1251', 'ascii'):
                out += parts_of(at.info['text'])
            elif p.whole() and len(ps) == 1:
                if not sym.CUR.predicate(('decodes', e, at.key)):
                    raise UnicodeDecodeError(e, b'?', 0, 1, 'symbolic')
                one = rope('b', [p])
                no = {c.decode('latin-1') for c in at.no if isinstance(c, bytes) and len(c) == 1 and c < b'\x80'}
                if e in ('utf-8', 'utf-16-le'):
                    n = freshlen('dec')
                    sym.CUR.assume(mkb(z3.And(zi(n) * 4 >= zi(p.length), zi(n) <= zi(p.length))))
                else:
                    n = p.length
                    no.add('\ufeff')
                out += parts_of(term('s', 'dec:' + e, [one], n, no=no, info={'decoded': (e, one), 'inj': 'dec:' + e}))
            else:
                raise Unsupported(f'decoding {p} as {e}')
        else:
            out.append(p.decode(e))
    return rope('s', out)


def t_isdigit(vm, x):
    for p in parts_of(x):
        if isinstance(p, Seg):
            if p.atom.only is not None and p.atom.only <= DIGITS:
                continue
            return sym.CUR.predicate(('isdigit', repr(akey(x))), f'digits of {x!r} left open')
        elif not p.isdigit():
            return False
    return bool(rlen(x) > 0)


def t_rjust(vm, x, width, fill=' '):
    n = rlen(x)
    ps = parts_of(x)
    if len(ps) == 1 and isinstance(ps[0], Seg) and fill == '0' and ps[0].whole() and 'int' in ps[0].atom.info and isinstance(width, int):
        i = ps[0].atom.info
        if i['width'] < width:
            if i['int'] < i['base'] ** width:
                return fixed_int(i['int'], i['base'], i['code'], width)
            return x
    if n >= width:
        return x
    return cat(sym.repeat(fill, width - n), x) if isinstance(n, int) else _unsup('rjust')


def _unsup(what):
    raise Unsupported(what)


def fixed_int(v, base, code, width):
    only = DIGITS if code == 'd' else frozenset('0123456789abcdef' if code == 'x' else '0123456789ABCDEF')
    return term('s', f'{code}={width}', [v], width, only=only, info={'int': v, 'base': base, 'code': code, 'width': width, 'inj': (code, width)})


def t_case(which):
    def f(vm, x):
        out = []
        for p in parts_of(x):
            if isinstance(p, Seg):
                i = p.atom.info
                if 'int' in i and p.whole():
                    code = {'upper': 'X', 'lower': 'x'}.get(which) if i['base'] == 16 else i['code']
                    if isinstance(p.length, int) and p.length == i['width']:
                        out += parts_of(fixed_int(i['int'], i['base'], code, i['width']))
                    else:
                        out += parts_of(int_text(i['int'], code, i['width']))
                elif p.atom.only is not None and p.atom.only <= DIGITS:
                    out.append(p)
                else:
                    if which not in ('lower', 'upper'):
                        raise Unsupported(which)
                    out += parts_of(term('s', which, [rope('s', [p])], freshlen(which)))
            else:
                out.append(getattr(p, which)())
        return rope(kind_of(x), out)
    return f


def count_pairs(x, ps, c):
    """occurrences of cc, not overlapping, from the left: each run of r characters c gives r // 2 of them; runs within an atom of
    pairs are even, so the count is additive over pieces where no odd run goes on across a boundary"""
    n = 0
    for i, p in enumerate(ps):
        if i:
            o = ps[i - 1]
            clean = lambda q, end: q.atom.info.get('pairs') == c or q.atom.lacks(c) if isinstance(q, Seg) else q[end] != c
            if not clean(o, -1) and not clean(p, 0):
                raise Unsupported(f'count of {c * 2!r}')
        if not isinstance(p, Seg):
            n = n + p.count(c * 2)
        elif not p.whole():
            raise Unsupported('count in a part')
        elif not p.atom.lacks(c):
            q = sym.count_in(p.atom, c, kind_of(x))
            key = ('pairs', p.atom.key, c)
            if key not in sym.CUR.memo:
                d = SInt(z3.Int(sym.CUR.fresh('pairs')))
                sym.CUR.assume(mkb(z3.And(d.z >= 0, 2 * d.z <= zi(q))))
                if p.atom.info.get('pairs') == c:
                    sym.CUR.assume(mkb(2 * d.z == zi(q)))
                sym.CUR.memo[key] = d
            n = n + sym.CUR.memo[key]
    return n


def t_count(vm, x, sub):
    n = 0
    ps = parts_of(x)
    if isinstance(sub, str) and len(sub) == 2 and sub[0] == sub[1] and any(isinstance(p, Seg) and p.atom.info.get('pairs') == sub[0] for p in ps):
        return count_pairs(x, ps, sub[0])
    if sym.crossing(ps, sub):
        raise Unsupported('count')
    for p in ps:
        if isinstance(p, Seg):
            if not p.atom.lacks(sub):
                if not p.whole():
                    raise Unsupported('count in a part')
                n = n + sym.count_in(p.atom, sub, kind_of(x))
        else:
            n = n + p.count(sub)
    return n


TEXT = {
    'split': t_split, 'rsplit': lambda vm, x, sep=None, maxsplit=-1: t_split(vm, x, sep, maxsplit, True), 'partition': t_partition, 'rpartition': t_rpartition,
    'find': t_find, 'index': lambda vm, x, *a: t_find(vm, x, *a, must=True), 'rfind': lambda vm, x, *a: t_find(vm, x, *a, back=True),
    'rindex': lambda vm, x, *a: t_find(vm, x, *a, back=True, must=True),
    'startswith': lambda vm, x, p, *a: starts(x, p) if not a else starts(sym.rslice(x, slice(a[0], None)), p),
    'endswith': lambda vm, x, p: starts(x, p, True),
    'replace': t_replace, 'join': t_join, 'encode': t_encode, 'decode': t_decode, 'isdigit': t_isdigit, 'isdecimal': t_isdigit, 'isnumeric': t_isdigit,
    'strip': _strip_sides(None, True, True), 'lstrip': _strip_sides(None, True, False), 'rstrip': _strip_sides(None, False, True),
    'rjust': t_rjust, 'upper': t_case('upper'), 'lower': t_case('lower'), 'count': t_count,
    'zfill': lambda vm, x, w: t_rjust(vm, x, w, '0'),
    'format': lambda vm, x, *a, **k: _unsup('str.format'),
    'splitlines': lambda vm, x, *a, **k: _unsup('splitlines'),
    '__len__': lambda vm, x: rlen(x),
    'removeprefix': lambda vm, x, p: sym.rslice(x, slice(rlen(p), None)) if starts(x, p) else x,
    'removesuffix': lambda vm, x, p: (sym.rslice(x, slice(0, rlen(x) - rlen(p))) if starts(x, p, True) else x),
}


# ---------------------------------------------------------------- list and dict methods
def l_extend(vm, l, it):
    l.extend(it if isinstance(it, (list, tuple)) else vm.iterate(it))


def l_index(vm, l, x, *a):
    if a:
        raise Unsupported('index with bounds')
    for i, y in enumerate(l):
        if isinstance(y, Rest):
            raise Unsupported('index in a list of unknown length')
        if truth(deq(x, y)):
            return i
    raise ValueError('not in list')


def l_pop(vm, l, i=-1):
    r = rest_at(l)
    if r is not None and not (0 <= i < r):
        if i < 0 and -i <= len(l) - 1 - r:
            return l.pop(i)
        if i >= 0:
            vm.models.getitem(vm, l, i)
        else:
            raise Unsupported('pop from a list of unknown length')
    return l.pop(i)


def l_insert(vm, l, i, x):
    r = rest_at(l)
    if r is not None and isinstance(i, int) and i < 0:
        rs = [k for k, y in enumerate(l) if isinstance(y, Rest)]
        if -i <= len(l) - 1 - rs[-1]:
            l.insert(i, x)
            return
    if r is not None and not (isinstance(i, int) and 0 <= i <= r):
        raise Unsupported('insert into a list of unknown length')
    l.insert(i, x)


def l_sort(vm, l, *, key=None, reverse=False):
    l[:] = b_sorted(vm, l, key=key, reverse=reverse)


def l_remove(vm, l, x):
    del l[l_index(vm, l, x)]


LIST = {'append': lambda vm, l, x: l.append(x), 'extend': l_extend, 'index': l_index, 'pop': l_pop, 'insert': l_insert, 'sort': l_sort, 'remove': l_remove,
        'copy': lambda vm, l: l[:], 'clear': lambda vm, l: l.clear(),
        'count': lambda vm, l, x: sum(1 for y in l if truth(deq(x, y))), 'reverse': lambda vm, l: l.reverse() if rest_at(l) is None else _unsup('reverse')}


def d_get(vm, d, k, default=None):
    f = find_key(d, k)
    return default if f is None else dict_at(d, f)


def d_pop(vm, d, k, *default):
    f = find_key(d, k)
    if f is None:
        if default:
            return default[0]
        raise KeyError(str(k))
    return d.pop(f[0])


def d_setdefault(vm, d, k, default=None):
    f = find_key(d, k)
    if f is None:
        vm.models.setitem(vm, d, k, default)
        return default
    return dict_at(d, f)


def d_update(vm, d, other=(), **kw):
    for k, v in (other.items() if isinstance(other, dict) else other):
        vm.models.setitem(vm, d, unkey(k), v)
    for k, v in kw.items():
        vm.models.setitem(vm, d, k, v)


DICT = {'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update, 'items': lambda vm, d: [(unkey(k), v) for k, v in d.items()],
        'keys': lambda vm, d: [unkey(k) for k in d], 'values': lambda vm, d: list(d.values()), 'copy': lambda vm, d: dict(d), 'clear': lambda vm, d: d.clear()}


# ---------------------------------------------------------------- builtins
@model(len)
def b_len(vm, x):
    if isinstance(x, Node):
        x = x.decide()
    if isinstance(x, Rope):
        return rlen(x)
    if isinstance(x, (list, tuple)):
        n = 0
        for y in x:
            n = n + (y.length if isinstance(y, Rest) else 1)
        return n
    if isinstance(x, Opaque):
        if x.type in (str, list, bytes, dict):
            return freshlen(x.name)
        raise Unsupported(f'len of {x!r}')
    if isinstance(x, SInt):
        raise TypeError("object of type 'int' has no len()")
    h = getattr(x, 'sym_len', None)
    if h:
        return h()
    return len(x)


@model(isinstance)
def b_isinstance(vm, x, t):
    if isinstance(x, Node):
        x = x.decide()
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Rope):
        return any(issubclass(str if x.kind == 's' else bytes, c) for c in ts)
    if isinstance(x, SInt):
        return any(issubclass(int, c) for c in ts)
    if isinstance(x, SBool):
        return any(issubclass(bool, c) for c in ts)
    if isinstance(x, Opaque):
        if x.type is not None:
            return any(issubclass(x.type, c) for c in ts)
        for c in ts:
            if sym.CUR.predicate(('isinstance', x.name, c.__name__)):
                return True
        return False
    if isinstance(x, Rest):
        raise Unsupported('element of unknown kind')
    return isinstance(x, ts)


@model(type)
def b_type(vm, x, *a):
    if isinstance(x, Node):
        x = x.decide()
    if a:
        raise Unsupported('type()')
    if isinstance(x, Rope):
        return str if x.kind == 's' else bytes
    if isinstance(x, SInt):
        return int
    if isinstance(x, (SBool,)):
        return bool
    if isinstance(x, Opaque):
        if x.type:
            return x.type
        raise Unsupported(f'type of {x!r}')
    return type(x)


@model(int)
def b_int(vm, x=0, base=10):
    if isinstance(x, Node):
        x = x.as_text() if not x.decided() else x.get()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk(z3.If(x.z, 1, 0))
    if isinstance(x, SFrac):
        if x.a >= 0 and x.b > 0:
            return mk(zi(x.a) / zi(x.b))
        raise Unsupported('int of a quotient')
    if isinstance(x, Rope):
        ps = parts_of(x)
        if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].whole():
            i = ps[0].atom.info
            if 'text' in i:
                return b_int(vm, i['text'], base)
            if 'int' in i:
                if i['base'] == base:
                    return i['int']
                raise Unsupported('number in another base')
        if len(ps) == 2 and ps[0] in ('-', b'-') and isinstance(ps[1], Seg) and 'int' in ps[1].atom.info and ps[1].atom.info['base'] == base:
            return -ps[1].atom.info['int']
        for p in sorted(ps, key=lambda p: isinstance(p, Seg)):
            if isinstance(p, Seg):
                if not (p.atom.only is not None and p.atom.only <= DIGITS):
                    # some text: a number or not
                    if total_text(x) or sym.CUR.predicate(('isint', repr(akey(x)), base)):
                        n = SInt(z3.Int(sym.CUR.fresh('int')))
                        key = ('intof', repr(akey(x)), base)
                        return sym.CUR.memo.setdefault(key, n)
                    raise ValueError('invalid literal for int()')
            elif any(not ch.isdigit() and ch not in ' \n\t\r_+-' for ch in (p if isinstance(p, str) else p.decode('latin-1'))) and base == 10:
                raise ValueError('invalid literal for int()')
        if all(not isinstance(p, Seg) and p.isdigit() or isinstance(p, Seg) and p.atom.only is not None and p.atom.only <= DIGITS for p in ps):
            if not rlen(x) > 0:
                raise ValueError('invalid literal for int()')
            n = SInt(z3.Int(sym.CUR.fresh('int')))
            sym.CUR.assume(n >= 0)
            return sym.CUR.memo.setdefault(('intof', repr(akey(x)), base), n)
        raise Unsupported(f"int of {x!r}"[:90])
    if isinstance(x, Opaque):
        if x.type is None or x.type is str:
            raise Unsupported(f"int of {x!r}"[:90])
    if isinstance(x, (list, dict)):
        raise TypeError('int() argument must be a string or a number')
    return int(x, base) if base != 10 and isinstance(x, (str, bytes)) else int(x)


@model(str)
def b_str(vm, x='', *a, **k):
    if a or k:
        if isinstance(x, Rope):
            return t_decode(vm, x, *a, **k)
        return str(x, *a, **k)
    return to_str(vm, x)


@model(repr)
def b_repr(vm, x):
    if symbolic(x):
        return term('s', 'repr', [Opaque(sym.CUR.fresh('value'))], freshlen('repr'))
    return repr(x)


@model(uuid.UUID)
def m_uuid(vm, x=None, **k):
    if isinstance(x, Node):
        x = x.as_text() if not x.decided() else x.get()
    if isinstance(x, Rope):
        if not total_text(x) and not sym.CUR.predicate(('uuid', repr(akey(x)))):
            raise ValueError('badly formed hexadecimal UUID string')
        return Opaque(sym.CUR.fresh('UUID'))
    return uuid.UUID(x, **k)


@model(bool)
def b_bool(vm, x=False):
    return vm.truth(x)


@model(bytes)
def b_bytes(vm, x=b'', *a):
    if isinstance(x, SInt):
        return sym.repeat(b'\0', x)
    if isinstance(x, Rope):
        return x if x.kind == 'b' else t_encode(vm, x, *a)
    return bytes(x, *a)


@model(min)
def b_min(vm, *a, key=None, default=None):
    return _minmax(vm, a, key, lambda x, y: vm.models.compare(vm, 'Lt', x, y))


@model(max)
def b_max(vm, *a, key=None, default=None):
    return _minmax(vm, a, key, lambda x, y: vm.models.compare(vm, 'Gt', x, y))


def _minmax(vm, a, key, better):
    xs = list(vm.iterate(a[0])) if len(a) == 1 else list(a)
    if not xs:
        raise ValueError('arg is an empty sequence')
    best = xs[0]
    for x in xs[1:]:
        k = (lambda v: vm.call(key, (v,), {})) if key else (lambda v: v)
        if vm.truth(better(k(x), k(best))):
            best = x
    return best


@model(sum)
def b_sum(vm, it, start=0):
    for x in vm.iterate(it):
        start = start + x
    return start


@model(any)
def b_any(vm, it):
    for x in vm.iterate(it):
        if vm.truth(x):
            return True
    return False


@model(all)
def b_all(vm, it):
    for x in vm.iterate(it):
        if not vm.truth(x):
            return False
    return True


@model(sorted)
def b_sorted(vm, it, *, key=None, reverse=False):
    xs = list(it) if isinstance(it, (list, tuple)) else list(vm.iterate(it))
    if vm.models.hooks.get('sorted'):
        return vm.models.hooks['sorted'](xs)
    if rest_at(xs) is not None:
        return sorted_rest(vm, xs, key, reverse)
    ks = [vm.call(key, (x,), {}) if key else x for x in xs]
    if not symbolic(ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]
    if vm.truth(reverse):
        # stable in reverse too
        out = []
        for i in range(len(xs)):
            j = len(out)
            while j > 0 and vm.truth(vm.models.compare(vm, 'Gt', ks[i], ks[out[j - 1]])):
                j -= 1
            out.insert(j, i)
    else:
        out = []
        for i in range(len(xs)):
            j = len(out)
            while j > 0 and vm.truth(vm.models.compare(vm, 'Lt', ks[i], ks[out[j - 1]])):
                j -= 1
            out.insert(j, i)
    return [xs[i] for i in out]


def sorted_rest(vm, xs, key, reverse):
    """documented order of sorted: the first element is one of the list, and no element comes before it. Facts are stated for
    the elements the theorem watches (arbitrary ones)"""
    if len(xs) != 1 or not hasattr(xs[0], 'watch'):
        raise Unsupported('sorting a list of unknown length')
    r = xs[0]
    if not r.length > 0:
        return []
    first = r.element(sym.CUR.fresh(r.name + '.first'))
    k = (lambda v: vm.call(key, (v,), {})) if key else (lambda v: v)
    f = k(first)
    for w in r.watch:
        c = vm.models.compare(vm, 'LtE' if vm.truth(reverse) else 'GtE', k(w), f)
        sym.CUR.assume(c)
    r.first = first
    return [first, Rest(sym.CUR.fresh(r.name + '.sorted'), r.length - 1, r.element)]


@model(list)
def b_list(vm, it=()):
    return list(it) if isinstance(it, (list, tuple)) else list(vm.iterate(it))


@model(tuple)
def b_tuple(vm, it=()):
    return tuple(it) if isinstance(it, (list, tuple)) else tuple(vm.iterate(it))


@model(dict)
def b_dict(vm, it=(), **kw):
    d = {}
    d_update(vm, d, it, **kw)
    return d


@model(set)
def b_set(vm, it=()):
    xs = list(vm.iterate(it))
    if symbolic(xs):
        raise Unsupported('set of symbolic values')
    return set(xs)


class Enumerated:
    """enumerate, and what it is over"""
    def __init__(self, gen, over):
        self.gen, self.over = gen, over

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)


@model(enumerate)
def b_enumerate(vm, it, start=0):
    h = getattr(it, 'sym_enumerate', None)
    if h:
        return h(start)
    if isinstance(it, Rope):
        import interp
        return interp.Chars(it, start)
    return Enumerated(((start + i, x) for i, x in enumerate(vm.iterate(it))), it)


@model(zip)
def b_zip(vm, *its):
    return zip(*[vm.iterate(i) for i in its])


@model(reversed)
def b_reversed(vm, x):
    if isinstance(x, (list, tuple)) and rest_at(x) is not None:
        raise Unsupported('reversed')
    return reversed(x if isinstance(x, (list, tuple, range)) else list(x))


@model(map)
def b_map(vm, f, *its):
    return (vm.call(f, a, {}) for a in zip(*[vm.iterate(i) for i in its]))


@model(filter)
def b_filter(vm, f, it):
    return (x for x in vm.iterate(it) if vm.truth(vm.call(f, (x,), {}) if f else x))


@model(iter)
def b_iter(vm, x, *end):
    if end:
        def until():
            while True:
                v = vm.call(x, (), {})
                if vm.truth(deq(v, end[0])):
                    return
                yield v
        return until()
    return vm.iterate(x)


@model(next)
def b_next(vm, it, *default):
    return next(it, *default)


class SRange:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def sym_len(self):
        if self.step != 1:
            raise Unsupported('length of a range')
        return self.b - self.a

    def sym_iter(self, vm):
        if not isinstance(self.step, int):
            raise Unsupported('range')
        i = self.a
        n = 0
        while (i < self.b) if self.step > 0 else (i > self.b):
            yield i
            i = i + self.step
            n += 1
            if n > 60:
                raise Unsupported('range of unknown length needs an invariant')


@model(range)
def b_range(vm, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if symbolic((a, b, step)):
        return SRange(a, b, step)
    return range(a, b, step)


@model(getattr)
def b_getattr(vm, o, n, *d):
    try:
        return vm.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr)
def b_setattr(vm, o, n, v):
    vm.setattr(o, n, v)


@model(hasattr)
def b_hasattr(vm, o, n):
    try:
        vm.getattr(o, n)
        return True
    except AttributeError:
        return False


@model(callable)
def b_callable(vm, o):
    return callable(o)


@model(print)
def b_print(vm, *a, **k):
    return None


@model(abs)
def b_abs(vm, x):
    return abs(x)


@model(_copy.deepcopy)
def m_deepcopy(vm, x, memo=None):
    return dcopy(x)


def dcopy(x):
    if isinstance(x, Node):
        n = Node(x.name)
        if x.value is not None:
            n.value = dcopy(x.value)
        return n
    if isinstance(x, list):
        return [dcopy(y) for y in x]
    if isinstance(x, tuple):
        return tuple(dcopy(y) for y in x)
    if isinstance(x, dict):
        return {k: dcopy(v) for k, v in x.items()}
    if symbolic(x) or isinstance(x, (str, bytes, int, type(None), bool, float, SKey)):
        return x
    return _copy.deepcopy(x)


@model(_copy.copy)
def m_copy(vm, x):
    if isinstance(x, (list, dict, tuple)):
        return type(x)(x)
    return x if symbolic(x) else _copy.copy(x)


@model(math.ceil)
def m_ceil(vm, x):
    return x.ceil() if isinstance(x, SFrac) else x if isinstance(x, SInt) else math.ceil(x)


# ---------------------------------------------------------------- errors of v8unpack
def ext_exception(vm, cls, *a, **k):
    """assumed contract of ExtException.__init__: it always makes an exception that keeps what it is given (its text is
    checked by the bounded search of C18)"""
    used('contract ext_exception:ExtException.__init__')
    e = cls.__new__(cls)
    names = ['message', 'detail', 'action', 'parent', 'dump', 'skip_traceback']
    try:
        import inspect
        names = [p for p in inspect.signature(cls.__init__).parameters if p != 'self']
    except (ValueError, TypeError):
        pass
    g = dict(zip(names, a))
    g.update(k)
    e.ghost = g
    for n in ('message', 'detail', 'action', 'dump'):
        try:
            setattr(e, n, g.get(n))
        except AttributeError:
            pass
    e.stack = []
    return e


# ---------------------------------------------------------------- struct
def fields(fmt):
    """[(offset, code, count)] of a native-order format"""
    m = re.fullmatch(r'([@=<>!]?)((?:\d*[a-zA-Z?])*)', fmt)
    if not m:
        raise Unsupported(f'struct format {fmt}')
    pre = m.group(1)
    if pre in ('>', '!'):
        raise Unsupported('big endian')
    out, sofar = [], pre
    for cnt, code in re.findall(r'(\d*)([a-zA-Z?])', m.group(2)):
        n = int(cnt) if cnt else 1
        if code == 's':
            off = struct.calcsize(sofar)
            sofar += f'{n}s'
            out.append((off, 's', n))
        else:
            for _ in range(n):
                sofar += code
                out.append((struct.calcsize(sofar) - struct.calcsize(code), code, struct.calcsize(code)))
    return out, struct.calcsize(sofar)


RANGES = {'i': (-2 ** 31, 2 ** 31), 'I': (0, 2 ** 32), 'q': (-2 ** 63, 2 ** 63), 'Q': (0, 2 ** 64), 'l': (-2 ** 63, 2 ** 63), 'L': (0, 2 ** 64), 'h': (-2 ** 15, 2 ** 15),
          'H': (0, 2 ** 16), 'B': (0, 256), 'b': (-128, 128)}


def le(v, code):
    lo, hi = RANGES[code]
    n = struct.calcsize(code)
    if isinstance(v, int):
        return struct.pack(code, v)
    if isinstance(v, Opaque):
        raise Unsupported(f'pack of {v}')
    if not (v >= lo) or not (v < hi):
        raise struct.error('argument out of range')
    return term('b', f'le{n}', [v], n, info={'le': v, 'signed': lo < 0, 'inj': f'le{n}'})


@model(struct.pack)
def m_pack(vm, fmt, *vals):
    fs, total = fields(fmt)
    if len(fs) != len(vals):
        raise struct.error(f'pack expected {len(fs)} items for packing (got {len(vals)})')
    out = []
    pos = 0
    for (off, code, n), v in zip(fs, vals):
        if off > pos:
            out.append(bytes(off - pos))
        if code == 's':
            l = rlen(v)
            if l >= n:
                out += parts_of(cut(v, 0, n)) if not same(l, n) else parts_of(v)
            else:
                out += parts_of(v) + parts_of(sym.repeat(b'\0', n - l))
        else:
            if not isinstance(v, (int, SInt)):
                raise struct.error('required argument is not an integer')
            out += parts_of(le(v, code))
        pos = off + n
    if total > pos:
        out.append(bytes(total - pos))
    return rope('b', out)


@model(struct.unpack)
def m_unpack(vm, fmt, data):
    fs, total = fmt_fields(fmt)
    if not rlen(data) == total:
        raise struct.error('unpack requires a buffer of another size')
    out = []
    for off, code, n in fs:
        p = cut(data, off, off + n)
        out.append(p if code == 's' else from_le(p, code))
    return tuple(out)


def fmt_fields(fmt):
    if isinstance(fmt, Rope):
        # 'QQi' + length + 's': fields before a text of symbolic length
        ps = parts_of(fmt)
        if len(ps) == 3 and isinstance(ps[0], str) and isinstance(ps[1], Seg) and 'int' in ps[1].atom.info and ps[2] == 's' and ps[0][-1].isalpha():
            fs, off = fields(ps[0])
            n = ps[1].atom.info['int']
            return fs + [(off, 's', n)], off + n
        raise Unsupported(f'struct format {fmt}')
    return fields(fmt)


def from_le(p, code):
    lo, hi = RANGES[code]
    n = struct.calcsize(code)
    if isinstance(p, bytes):
        return struct.unpack(code, p)[0]
    ps = parts_of(p)
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].whole() and 'le' in ps[0].atom.info:
        a = ps[0].atom
        v = a.info['le']
        if a.info['signed'] == (lo < 0):
            return v
        if lo == 0:
            return v if v >= 0 else v + hi
        return v if v < hi else v - 2 * hi
    key = ('from_le', code, repr(akey(p)))
    if key not in sym.CUR.memo:
        v = SInt(z3.Int(sym.CUR.fresh('le')))
        sym.CUR.assume(mkb(z3.And(v.z >= lo, v.z < hi)))
        sym.CUR.memo[key] = v
        sym.CUR.imprecise.append(f'number in {p}')
    return sym.CUR.memo[key]


# ---------------------------------------------------------------- files
class FS:
    """the files of the run: exactly those named; nothing else exists"""
    def __init__(self):
        self.files = []      # [path, SData]
        self.dirs = []
        self.log = []        # (operation, path)
        self.lazy = []       # what decides on the first look at a path whether it exists
        self.looked = set()

    def look(self, path):
        k = repr(akey(path))
        if self.lazy and k not in self.looked:
            self.looked.add(k)
            for f in self.lazy:
                f(path)

    def find(self, path):
        for e in self.files:
            if akey(e[0]) == akey(path):
                return e
        self.look(path)
        for e in self.files:
            if truth(deq(e[0], path)):
                return e
        return None

    def isdir(self, path):
        if any(akey(d) == akey(path) for d in self.dirs):
            return True
        self.look(path)
        return any(truth(deq(d, path)) for d in self.dirs)

    def add(self, path, content):
        e = self.find(path)
        if e is None:
            self.files.append([path, SData(content)])
        else:
            e[1].content = content

    def get(self, path):
        e = self.find(path)
        return None if e is None else e[1].content

    def remove(self, path):
        e = self.find(path)
        if e is None:
            raise FileNotFoundError(2, 'No such file or directory')
        self.files.remove(e)


class SData:
    def __init__(self, content):
        self.content = content


class SFile(Obj):
    """a file object: content, position"""
    def __init__(self, vm, data, mode='r+b', encoding=None, newline=None, path=None):
        self.vm, self.data, self.mode, self.path = vm, data, mode, path
        self.binary = 'b' in mode
        self.encoding = (encoding or 'utf-8').lower()
        self.newline = newline
        self.pos = 0
        self.closed = False
        self.left = None
        self.name = path

    def _fault(self, op):
        self.vm.models.maybe_fail(op, self.path)

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self.pos + off
        else:
            self.pos = rlen(self.data.content) + off
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        return self

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def truncate(self, n=None):
        self.data.content = cut(self.data.content, 0, self.pos if n is None else n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def getvalue(self):
        return self.data.content

    def read(self, n=None):
        if 'r' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        self._fault('read')
        c = self.data.content
        if self.left is not None:
            t, self.left = self.left, ''
            return t
        if not self.binary:
            if n is not None and not (isinstance(n, int) and n < 0):
                raise Unsupported('reading some characters')
            rest = cut(c, self.pos, None) if not (isinstance(self.pos, int) and self.pos == 0) else c
            self.pos = rlen(c)
            return self.text(rest)
        total = rlen(c)
        if n is None or isinstance(n, int) and n < 0:
            if self.pos >= total:
                return b''
            r = cut(c, self.pos, None)
            self.pos = total
            return r
        if self.pos >= total:
            return b''
        if not (n > 0):
            if n < 0:
                raise Unsupported('read of a negative size')
            return b''
        end = self.pos + n
        if end >= total:
            r = cut(c, self.pos, None) if not (isinstance(self.pos, int) and self.pos == 0) else c
            self.pos = total
        else:
            r = cut(c, self.pos, end)
            self.pos = end
        return r

    def text(self, b):
        t = t_decode(self.vm, b, self.encoding)
        if self.newline is None:
            if contains(t, '\r'):
                raise Unsupported('translation of line ends')
        return t

    def readline(self, *a):
        if self.binary or a:
            raise Unsupported('a line of bytes')
        self._fault('read')
        h = self.vm.models.hooks.get('readline')
        if h:
            return h(self)
        if self.left is None:
            self.left = self.text(cut(self.data.content, self.pos, None) if not (isinstance(self.pos, int) and self.pos == 0) else self.data.content)
            self.pos = rlen(self.data.content)
        t = self.left
        if not (rlen(t) > 0):
            return ''
        if any(isinstance(p, Seg) and not p.atom.lacks('\n') for p in parts_of(t)):
            raise Unsupported('lines of a symbolic file')
        r = split_first(t, '\n')
        self.left = '' if r is None else r[1]
        return t if r is None else cat(r[0], '\n')

    def readlines(self):
        return list(self.sym_iter(self.vm))

    def sym_iter(self, vm):
        while True:
            t = self.readline()
            if not (rlen(t) > 0):
                return
            yield t

    def write(self, x):
        if not set(self.mode) & set('wax+'):
            raise io.UnsupportedOperation('not writable')
        self._fault('write')
        if self.binary:
            if kind_of(x) != 'b':
                if isinstance(x, Opaque):
                    raise Unsupported(f'writing {x!r}')
                raise TypeError('a bytes-like object is required')
            b = x
        else:
            if kind_of(x) != 's':
                if isinstance(x, Opaque):
                    raise Unsupported(f'writing {x!r}')
                raise TypeError('write() argument must be str')
            enc = self.encoding
            if enc in ('utf-8-sig', 'utf-16') and not (isinstance(self.pos, int) and self.pos == 0):
                enc = 'utf-8-no' if enc == 'utf-8-sig' else 'utf-16-le'
            if self.newline not in (None, '', '\n') and contains(x, '\n'):
                raise Unsupported('translation of line ends')
            b = t_encode(self.vm, x, enc)
        n = rlen(b)
        if isinstance(n, int) and n == 0:
            return n
        c = self.data.content
        total = rlen(c)
        if 'a' in self.mode:
            self.pos = total
        if same(self.pos, total) or self.pos == total:
            self.data.content = cat(c, b) if rlen(c) is not 0 else b
        elif self.pos > total:
            self.data.content = cat(c, sym.repeat(b'\0', self.pos - total), b)
        else:
            end = self.pos + n
            tail = cut(c, end, None) if end < total else b''
            self.data.content = cat(cut(c, 0, self.pos), b, tail)
        self.pos = self.pos + n
        return n

    def sym_getitem(self, vm, i):
        raise Unsupported('file item')


def maybe_fail(self, op, path):
    """fault injection: any one operation on files may fail"""
    f = self.fault
    if f is None or not f.get('on', True):
        return
    if f.get('hit'):
        if f.get('lasting') and f['hit'][0] == op and f['at'] is not None and path is not None and deq(f['at'], npath(path)) is True:
            f['times'] = f.get('times', 0) + 1
            raise f['lasting'](13, 'injected')
        return
    if f.get('only') and op not in f['only']:
        return
    if sym.CUR.fork(z3.Bool(sym.CUR.fresh('fault'))):
        f['hit'] = (op, str(path))
        f['at'] = npath(path) if path is not None else None
        if f.get('lasting') and sym.CUR.fork(z3.Bool(sym.CUR.fresh('lasting'))):
            raise f['lasting'](13, 'injected')
        f.pop('lasting', None)
        raise f['err'](5, 'injected')


Models.maybe_fail = maybe_fail


def npath(p):
    """a path without redundant parts"""
    if isinstance(p, (str, Rope)):
        if sym.CUR.cwd and not starts(p, '/'):
            p = cat(sym.CUR.cwd, '/', p)
        if isinstance(p, str):
            return os.path.normpath(p) if p else p
        return p_normpath(None, p)
    if isinstance(p, Opaque):
        raise Unsupported(f'path {p}')
    return os.fspath(p)


@model(open, io.open)
def b_open(vm, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **k):
    fs = vm.models.fs
    if fs is None:
        raise Unsupported('files are not modelled in this theorem')
    path = npath(file)
    vm.models.maybe_fail('open', path)
    fs.log.append(('open ' + mode, path))
    if errors not in (None, 'strict'):
        raise Unsupported('open with errors')
    if fs.isdir(path):
        raise IsADirectoryError(21, 'Is a directory')
    e = fs.find(path)
    if 'r' in mode:
        if e is None:
            raise FileNotFoundError(2, 'No such file or directory')
        return SFile(vm, e[1], mode, encoding, newline, path)
    if 'x' in mode and e is not None:
        raise FileExistsError(17, 'File exists')
    d = p_dirname(vm, path)
    if fs_strict(fs) and not (d == '' or fs.isdir(d)):
        raise FileNotFoundError(2, 'No such file or directory')
    if e is None:
        fs.files.append([path, SData(b'')])
        e = fs.files[-1]
    elif 'w' in mode:
        e[1].content = b''
    f = SFile(vm, e[1], mode, encoding, newline, path)
    return f


def fs_strict(fs):
    return getattr(fs, 'strict', False)


@model(io.BytesIO)
def b_bytesio(vm, b=b''):
    return SFile(vm, SData(b), 'r+b')


@model(tempfile.TemporaryFile)
def m_tmp(vm, *a, **k):
    vm.models.maybe_fail('tempfile', None)
    return SFile(vm, SData(b''), 'w+b')


class SStat:
    def __init__(self):
        c = sym.CUR
        self.st_mtime = Opaque(c.fresh('mtime'))
        self.st_ctime = Opaque(c.fresh('ctime'))


@model(os.stat, os.fstat)
def m_stat(vm, f, **k):
    if isinstance(f, SFile):
        s = SStat()
        s.st_size = rlen(f.data.content)
        return s
    e = vm.models.fs.find(npath(f))
    if e is None:
        raise FileNotFoundError(2, 'No such file')
    s = SStat()
    s.st_size = rlen(e[1].content)
    return s


@model(os.path.getsize)
def m_getsize(vm, p):
    p = npath(p)
    vm.models.maybe_fail('stat', p)
    e = vm.models.fs.find(p)
    if e is None:
        if vm.models.fs.isdir(p):
            return 4096
        raise FileNotFoundError(2, 'No such file')
    return rlen(e[1].content)


@model(shutil.copytree)
def m_copytree(vm, src, dst, *a, **k):
    fs = vm.models.fs
    src, dst = npath(src), npath(dst)
    vm.models.maybe_fail('copy', src)
    if not fs.isdir(src):
        raise FileNotFoundError(2, 'No such file or directory')
    if fs.isdir(dst) or fs.find(dst) is not None:
        raise FileExistsError(17, 'File exists')
    pre = cat(src, '/')
    m_makedirs(vm, dst)
    for d in list(fs.dirs):
        if starts(d, pre):
            m_makedirs(vm, cat(dst, '/', cut(d, rlen(pre), None)), exist_ok=True)
    for e in list(fs.files):
        if starts(e[0], pre):
            fs.add(cat(dst, '/', cut(e[0], rlen(pre), None)), e[1].content)
    return dst


@model(shutil.copy2, shutil.copy, shutil.copyfile)
def m_copyfile(vm, src, dst, **k):
    fs = vm.models.fs
    src, dst = npath(src), npath(dst)
    vm.models.maybe_fail('copy', src)
    fs.log.append(('copy', src))
    fs.log.append(('open wb', dst))
    e = fs.find(src)
    if e is None:
        raise FileNotFoundError(2, 'No such file or directory')
    fs.add(dst, e[1].content)
    return dst


@model(os.makedirs, os.mkdir)
def m_makedirs(vm, p, mode=0o777, exist_ok=False):
    vm.models.maybe_fail('mkdir', p)
    p = npath(p)
    fs = vm.models.fs
    if fs.isdir(p):
        if not exist_ok:
            raise FileExistsError(17, 'File exists')
        return
    while True:
        fs.dirs.append(p)
        d = p_dirname(vm, p)
        if d in ('', '/') or d is p or fs.isdir(d):
            break
        p = d


@model(os.remove, os.unlink)
def m_remove(vm, p):
    vm.models.maybe_fail('remove', p)
    vm.models.fs.log.append(('remove', npath(p)))
    vm.models.fs.remove(npath(p))


@model(os.rename, os.replace)
def m_rename(vm, a, b):
    vm.models.maybe_fail('rename', a)
    fs = vm.models.fs
    c = fs.get(npath(a))
    if c is None:
        raise FileNotFoundError(2, 'No such file')
    fs.remove(npath(a))
    fs.add(npath(b), c)


@model(shutil.rmtree)
def m_rmtree(vm, p, ignore_errors=False, **k):
    fs = vm.models.fs
    p = npath(p)
    pre = cat(p, '/')
    fs.files = [e for e in fs.files if not starts(e[0], pre)]
    fs.dirs = [d for d in fs.dirs if not truth(deq(d, p)) and not starts(d, pre)]


@model(os.path.exists, os.path.lexists)
def m_exists(vm, p):
    p = npath(p)
    return vm.models.fs.find(p) is not None or vm.models.fs.isdir(p)


@model(os.path.isfile)
def m_isfile(vm, p):
    return vm.models.fs.find(npath(p)) is not None


@model(os.path.isdir)
def m_isdir(vm, p):
    return vm.models.fs.isdir(npath(p))


@model(os.listdir)
def m_listdir(vm, p='.'):
    fs = vm.models.fs
    vm.models.maybe_fail('listdir', p)
    h = vm.models.hooks.get('listdir')
    if h:
        r = h(vm, p)
        if r is not None:
            return r
    p = npath(p)
    if not fs.isdir(p):
        raise FileNotFoundError(2, 'No such file or directory')
    out = []
    for path in [e[0] for e in fs.files] + fs.dirs:
        d, b = p_split(vm, path)
        if truth(deq(d, p)):
            out.append(b)
    return out


@model(os.path.join)
def p_join(vm, a, *ps):
    r = a
    for p in ps:
        if isinstance(p, Opaque) or isinstance(r, Opaque):
            raise Unsupported(f'path of {p} and {r}')
        if kind_of(p) is None or kind_of(r) is None:
            raise TypeError('join() argument must be str')
        if starts(p, '/'):
            r = p
        elif not vm.truth(r) or starts(r, '/', True):
            r = cat(r, p)
        else:
            r = cat(r, '/', p)
    return r


@model(os.path.split)
def p_split(vm, p):
    r = split_first(p, '/', True)
    if r is None:
        return ('', p)
    h, t = r
    if not (h == ''):
        if isinstance(h, str):
            h = h.rstrip('/') or h
    else:
        h = '/'
    return (h, t)


@model(os.path.dirname)
def p_dirname(vm, p):
    return p_split(vm, p)[0]


@model(os.path.basename)
def p_basename(vm, p):
    return p_split(vm, p)[1]


@model(os.path.splitext)
def p_splitext(vm, p):
    d, b = p_split(vm, p)
    r = split_first(b, '.', True)
    if r is None or not (rlen(r[0]) > 0):
        return (p, '')
    # leading dots are no extension
    if isinstance(r[0], str) and not r[0].strip('.'):
        return (p, '')
    if not isinstance(r[0], str) and starts(r[0], '.'):
        raise Unsupported('name with a leading dot')
    head = cut(p, 0, rlen(p) - rlen(r[1]) - 1)
    return (head, cat('.', r[1]))


@model(os.path.normpath)
def p_normpath(vm, p):
    if isinstance(p, str):
        return os.path.normpath(p)
    lead = starts(p, '/')
    comps = t_split(None, p, '/')
    out = []
    for c in comps:
        if isinstance(c, str):
            if c in ('', '.'):
                continue
            if c == '..':
                if out and out[-1] != '..':
                    out.pop()
                    continue
                if lead:
                    continue
        elif not (rlen(c) > 0):
            continue
        out.append(c)
    r = ('/' if lead else '')
    for i, c in enumerate(out):
        r = cat(r, '/', c) if i else cat(r, c)
    return r if r != '' else '.'


@model(os.path.normcase)
def p_normcase(vm, p):
    return p        # on POSIX


@model(os.path.abspath)
def p_abspath(vm, p):
    if starts(p, '/'):
        return p_normpath(vm, p)
    return p_normpath(vm, cat(sym.CUR.cwd or '/CWD', '/', p))


@model(os.getcwd)
def m_getcwd(vm):
    return sym.CUR.cwd or '/CWD'


@model(os.path.relpath)
def p_relpath(vm, p, start='.'):
    p, start = p_abspath(vm, p), p_abspath(vm, start)
    if truth(deq(p, start)):
        return '.'
    if starts(p, cat(start, '/')):
        return cut(p, rlen(start) + 1, None)
    raise Unsupported('relpath outside')


@model(os.fspath)
def m_fspath(vm, p):
    return p


# ---------------------------------------------------------------- json, base64, hashes, zlib
@model(json.dumps)
def m_json_dumps(vm, data, **k):
    return term('s', 'json', [Opaque(sym.CUR.fresh('json'))], freshlen('json', 1), no=('\r',), info={'json': dcopy(data)})


@model(json.dump)
def m_json_dump(vm, data, f, **k):
    f.write(m_json_dumps(vm, data, **k))


@model(json.loads)
def m_json_loads(vm, s, **k):
    if isinstance(s, str):
        return json.loads(s, **k)
    ps = parts_of(s)
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].whole() and 'json' in ps[0].atom.info:
        return dcopy(ps[0].atom.info['json'])
    raise Unsupported('json of symbolic text')


@model(json.load)
def m_json_load(vm, f, **k):
    return m_json_loads(vm, f.read(), **k)


@model(_b64.b64encode)
def m_b64encode(vm, x, **k):
    if isinstance(x, bytes):
        return _b64.b64encode(x)
    n = rlen(x)
    t = term('s', 'b64', [x], mk(4 * ((zi(n) + 2) / 3)), only=frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='),
             info={'b64': x, 'inj': 'b64'})
    return t_encode(vm, t, 'ascii')


@model(_b64.b64decode)
def m_b64decode(vm, x, *a, **k):
    if isinstance(x, (str, bytes)):
        return _b64.b64decode(x, *a, **k)
    ps = parts_of(x)
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].whole():
        i = ps[0].atom.info
        if 'text' in i:
            return m_b64decode(vm, i['text'])
        if 'b64' in i:
            return i['b64']
    if k.get('validate') is True and kind_of(x) == 's' and not a:
        good = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')
        if any(isinstance(p, str) and set(p) - good for p in ps) or not sym.CUR.predicate(('base64', repr(akey(x)))):
            import binascii
            raise binascii.Error('not base64')
        return term('b', 'b64decode', [x], freshlen('b64decode'))
    raise Unsupported(f'base64 of {x!r}')


class SHash(Obj):
    def __init__(self, data):
        self.data = data

    def update(self, b):
        self.data = cat(self.data, b)

    def digest(self):
        if isinstance(self.data, Rope) and sym.CUR.valid(rlen(self.data) == 0) is True:
            self.data = b''
        if isinstance(self.data, bytes):
            return hashlib.sha1(self.data).digest()
        return term('b', 'sha1', [self.data], 20, info={'inj': None})

    def hexdigest(self):
        raise Unsupported('hexdigest')


@model(hashlib.sha1)
def m_sha1(vm, data=b'', **k):
    return SHash(data)


_POS = z3.Function('outpos', z3.IntSort(), z3.IntSort(), z3.IntSort())
STREAMS = {}


class SCompress(Obj):
    """zlib.compressobj(wbits=-15): what compress and flush return, put together, is the raw deflate stream of what was fed"""
    def __init__(self, vm, wbits=-15):
        c = sym.CUR
        self.id = len(c.memo) + 1
        name = c.fresh('deflated')
        self.n = freshlen('deflated', 1)
        self.atom = Atom('b', name, self.n, info={'deflate': None, 'wbits': wbits})
        self.fed = b''
        self.done = False
        self.sid = z3.IntVal(zlib.crc32(name.encode()))

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return 0
        v = SInt(_POS(self.sid, zi(k)))
        sym.CUR.assume(mkb(z3.And(v.z >= 0, v.z <= zi(self.n), z3.Implies(zi(k) == 0, v.z == 0))))
        return v

    def compress(self, b):
        if self.done:
            raise Unsupported('compress after flush')
        a = rlen(self.fed)
        self.fed = cat(self.fed, b)
        p, q = self.at(a), self.at(rlen(self.fed))
        sym.CUR.assume(q >= p)
        return rope('b', [Seg(self.atom, p, q - p)])

    def flush(self, *a):
        if a:
            raise Unsupported('flush mode')
        self.done = True
        self.atom.info['deflate'] = self.fed
        p = self.at(rlen(self.fed))
        return rope('b', [Seg(self.atom, p, self.n - p)])


@model(zlib.compressobj)
def m_compressobj(vm, level=-1, method=8, wbits=15, *a, **k):
    return SCompress(vm, wbits)


class SDecompress(Obj):
    """zlib.decompressobj(-15): fed a raw deflate stream piece by piece it gives out what was deflated, in pieces, all of it
    once the whole stream was fed"""
    def __init__(self, vm, wbits):
        self.vm = vm
        self.wbits = wbits
        self.fed = b''
        self.given = 0
        self.unconsumed_tail = b''
        self.unused_data = b''
        self.eof = False
        self.stream = None

    def decompress(self, b, *a):
        if a:
            raise Unsupported('decompress with a limit')
        used('zlib.decompressobj')
        self.fed = cat(self.fed, b)
        ps = parts_of(self.fed)
        if len(ps) != 1 or not isinstance(ps[0], Seg) or ps[0].atom.info.get('deflate') is None:
            if not (rlen(self.fed) > 0):
                return b''
            raise Unsupported('not a deflate stream')
        s = ps[0]
        if s.atom.info['wbits'] != self.wbits:
            raise zlib.error('incorrect header check')
        x = s.atom.info['deflate']
        total = rlen(x)
        if s.length == s.atom.length:
            self.eof = True
            r = cut(x, self.given, None) if self.given < total else b''
            self.given = total
            return r
        n = SInt(z3.Int(sym.CUR.fresh('inflated')))
        sym.CUR.assume(mkb(z3.And(n.z >= zi(self.given), n.z <= zi(total))))
        least = self.vm.models.hooks.get('inflate-least')
        if least:
            sym.CUR.assume(mkb(z3.Implies(zi(rlen(b)) >= 8192, n.z >= zi(self.given) + least)))
        r = cut(x, self.given, n) if n > self.given else b''
        self.given = n
        return r

    def flush(self, *a):
        return b''


@model(zlib.decompressobj)
def m_decompressobj(vm, wbits=15, *a, **k):
    return SDecompress(vm, wbits)


def m_now(vm, *a):
    used('datetime.datetime.now')
    return datetime.datetime(2020, 1, 1)


# ---------------------------------------------------------------- regular expressions: only on native text
