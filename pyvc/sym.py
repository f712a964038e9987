"""Symbolic values for the verifier: integers, booleans, ropes (strings and bytes made of literals and atoms), opaque values.

A path of the program under proof is one run of the theorem with these values. Every question the program asks about them
(a branch) goes through Ctx.fork, which asks z3 which answers are possible and explores each of them (in separate runs).
Nothing is sampled: a value stands for all values that satisfy the facts collected on its path.
"""
import z3


class Unsupported(BaseException):
    """the engine cannot follow the code here: the obligations of this theorem are undecided"""


class Infeasible(BaseException):
    """the facts of this path contradict each other"""


class PathEnd(BaseException):
    """the rest of this path is covered by another one (end of an arbitrary loop iteration)"""


CUR = None   # the Ctx of the running path


def ctx():
    return CUR


class Ctx:
    TIMEOUT = 4000

    def __init__(self, decisions):
        self.decisions = list(decisions)
        self.idx = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.TIMEOUT)
        self.alts = []            # decision prefixes still to be explored
        self.defs = {}            # atom name -> rope
        self.memo = {}            # undetermined predicates
        self.names = {}
        self.vals = {}            # inputs of the theorem by name
        self.imprecise = []       # why this path may not stand for a real run
        self.solver_s = 0.0
        self.queries = 0
        self.log = []
        self.distinct = set()     # pairs of atoms that are different texts
        self.cwd = None           # where relative paths begin, when the theorem says so
        self.total = set()        # names of trees that have every part the code looks for

    # -- solver
    def _check(self, *conds):
        import time
        t = time.perf_counter()
        r = self.solver.check(*conds)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        return r

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.z
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.solver.add(c)

    def feasible(self):
        return self._check() != z3.unsat

    def valid(self, c):
        """True / False / None (unknown)"""
        if isinstance(c, SBool):
            c = c.z
        if isinstance(c, bool):
            return c
        r = self._check(z3.Not(c))
        return True if r == z3.unsat else False if r == z3.sat else None

    def fork(self, c):
        """the truth of c on this path"""
        if isinstance(c, SBool):
            c = c.z
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.idx < len(self.decisions):
            v = self.decisions[self.idx]
            self.idx += 1
            self.solver.add(c if v else z3.Not(c))
            return v
        t = self._check(c) != z3.unsat
        f = self._check(z3.Not(c)) != z3.unsat
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.alts.append(self.decisions + [False])
        v = t
        self.decisions.append(v)
        self.idx += 1
        self.solver.add(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """one of n alternatives, all explored"""
        for i in range(n - 1):
            if self.fork(z3.Bool(self.fresh('choice'))):
                return i
        return n - 1

    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return f'{name}#{k}' if k else name

    def predicate(self, key, why=None):
        """an undetermined fact: the same question has the same answer on a path"""
        k = ('pred', key)
        if k not in self.memo:
            self.memo[k] = z3.Bool(self.fresh('p:' + str(key)[:80]))
        known = k in self.log
        v = self.fork(self.memo[k])
        if why and not known:
            self.imprecise.append(why)
        self.log.append(k)
        return v


# ---------------------------------------------------------------- integers
def zi(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported(f'not an integer: {type(x).__name__}')


def mk(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SInt(z)


def mkb(z):
    z = z3.simplify(z)
    return True if z3.is_true(z) else False if z3.is_false(z) else SBool(z)


class SBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CUR.fork(self.z)

    def __and__(self, o):
        return mkb(z3.And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.z, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.z))

    def __eq__(self, o):
        return mkb(self.z == zb(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic truth value')


def zb(x):
    return x.z if isinstance(x, SBool) else z3.BoolVal(bool(x))


class SInt:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'<{self.z}>'

    def __add__(self, o): return mk(self.z + zi(o)) if isinstance(o, (int, SInt)) else NotImplemented
    def __radd__(self, o): return mk(zi(o) + self.z) if isinstance(o, (int, SInt)) else NotImplemented
    def __sub__(self, o): return mk(self.z - zi(o)) if isinstance(o, (int, SInt)) else NotImplemented
    def __rsub__(self, o): return mk(zi(o) - self.z) if isinstance(o, (int, SInt)) else NotImplemented
    def __neg__(self): return mk(-self.z)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, (int, SInt)):
            return mk(self.z * zi(o))
        if isinstance(o, (bytes, str, Rope)):
            return repeat(o, self)
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 or isinstance(o, SInt) and o > 0:
            return mk(self.z / zi(o))
        raise Unsupported('division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 or isinstance(o, SInt) and o > 0:
            return mk(self.z % zi(o))
        raise Unsupported('remainder')

    def __truediv__(self, o):
        return SFrac(self, o)

    def __rtruediv__(self, o):
        return SFrac(o, self)

    def __eq__(self, o):
        return mkb(self.z == zi(o)) if isinstance(o, (int, SInt)) else False

    def __ne__(self, o):
        return mkb(self.z != zi(o)) if isinstance(o, (int, SInt)) else True

    def __lt__(self, o): return mkb(self.z < zi(o))
    def __le__(self, o): return mkb(self.z <= zi(o))
    def __gt__(self, o): return mkb(self.z > zi(o))
    def __ge__(self, o): return mkb(self.z >= zi(o))

    def __bool__(self):
        return CUR.fork(self.z != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        raise Unsupported('symbolic integer used by native code')
    __int__ = __float__ = __index__


class SFrac:
    """the quotient of two integers (real arithmetic; sizes stay far below 2**53)"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def ceil(self):
        if not self.b > 0:
            raise ZeroDivisionError('division by zero') if self.b == 0 else Unsupported('negative quotient')
        return mk(-((-zi(self.a)) / zi(self.b)))


# ---------------------------------------------------------------- ropes
class Atom:
    """a piece of text or bytes of which only some facts are known. key: structural identity (two atoms of one key are the
    same value); no: characters or substrings that do not occur in it"""
    __slots__ = ('name', 'kind', 'length', 'no', 'key', 'info', 'only')

    def __init__(self, kind, name, length, no=(), key=None, info=None, only=None):
        self.kind, self.name, self.length, self.no, self.info, self.only = kind, name, length, frozenset(no), info or {}, only
        self.key = key or ('atom', name)

    def __repr__(self):
        return self.name

    def lacks(self, sub):
        if self.only is not None:
            return any(c not in self.only for c in sub)
        return any(x in sub for x in self.no)


class Seg:
    __slots__ = ('atom', 'start', 'length')

    def __init__(self, atom, start=0, length=None):
        self.atom, self.start = atom, start
        self.length = atom.length if length is None else length

    def whole(self):
        return isinstance(self.start, int) and self.start == 0 and same(self.length, self.atom.length)

    def __repr__(self):
        return f'{self.atom}' if self.whole() else f'{self.atom}[{self.start}:+{self.length}]'


ZERO = Atom('b', 'zeros', None, key=('zeros',))


def same(a, b):
    """syntactically equal"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SInt) and isinstance(b, SInt):
        return z3.eq(a.z, b.z) or z3.is_true(z3.simplify(a.z == b.z))
    return False


def plen(p):
    return p.length if isinstance(p, Seg) else len(p)


def norm(parts, kind):
    out = []
    for p in parts:
        if isinstance(p, Seg):
            if isinstance(p.length, int) and p.length == 0:
                continue
            if p.atom is ZERO and isinstance(p.length, int) and p.length <= 4096:
                p = bytes(p.length)
        elif isinstance(p, bytes) and len(p) > 4096 and not any(p):
            p = Seg(ZERO, 0, len(p))
        if isinstance(p, (str, bytes)):
            if not p:
                continue
            if out and isinstance(out[-1], type(p)):
                out[-1] = out[-1] + p
                continue
        elif out and isinstance(out[-1], Seg) and out[-1].atom.key == p.atom.key and p.atom is not ZERO and same(out[-1].start + out[-1].length, p.start):
            out[-1] = Seg(p.atom, out[-1].start, out[-1].length + p.length)
            continue
        elif out and isinstance(out[-1], Seg) and out[-1].atom is ZERO and p.atom is ZERO:
            out[-1] = Seg(ZERO, 0, out[-1].length + p.length)
            continue
        out.append(p)
    return out


def rope(kind, parts):
    """a rope, or a native string when nothing in it is symbolic"""
    parts = norm(parts, kind)
    if not parts:
        return '' if kind == 's' else b''
    if len(parts) == 1 and isinstance(parts[0], (str, bytes)):
        return parts[0]
    return Rope(kind, parts)


def parts_of(x):
    if isinstance(x, Rope):
        return x.resolve()
    if isinstance(x, (str, bytes)):
        return [x] if x else []
    if isinstance(x, bytearray):
        return [bytes(x)] if x else []
    raise Unsupported(f'text expected, not {type(x).__name__}')


def kind_of(x):
    return x.kind if isinstance(x, Rope) else 's' if isinstance(x, str) else 'b' if isinstance(x, (bytes, bytearray)) else None


def cat(*xs):
    k = kind_of(xs[0])
    out = []
    for x in xs:
        if kind_of(x) != k:
            raise TypeError('cannot concatenate text and bytes')
        out += parts_of(x)
    return rope(k, out)


def rlen(x):
    n = 0
    for p in parts_of(x):
        n = n + plen(p)
    return n


def repeat(x, n):
    if isinstance(n, int):
        return rope(kind_of(x), parts_of(x) * max(0, n))
    if isinstance(x, bytes) and x == b'\0':
        if n > 0:
            return rope('b', [Seg(ZERO, 0, n)])
        return b''
    raise Unsupported('repetition')


def cut(x, a, b):
    """x[a:b] with 0 <= a; what lies behind the end is dropped"""
    k = kind_of(x)
    out = []
    pos = 0
    ps = parts_of(x)
    if k == 'b' and not (isinstance(a, int) and (b is None or isinstance(b, int))):
        ps = [q for p in ps for q in (zero_runs(p) if isinstance(p, bytes) and len(p) > 64 else (p,))]
    for p in ps:
        n = plen(p)
        end = pos + n
        # part covers [pos, end)
        if b is not None and b <= pos:
            break
        if a >= end:
            pos = end
            continue
        lo = a - pos if a > pos else 0
        hi = n if b is None or b >= end else b - pos
        out.append(piece(p, lo, hi))
        pos = end
    return rope(k, out)


def zero_runs(p):
    import re
    return [q for q in re.split(rb'(\0{32,})', p) if q]


def piece(p, lo, hi):
    if isinstance(p, Seg):
        if isinstance(lo, int) and lo == 0 and same(hi, p.length):
            return p
        if p.atom is ZERO:
            return Seg(ZERO, 0, hi - lo)
        return Seg(p.atom, p.start + lo, hi - lo)
    if isinstance(lo, int) and isinstance(hi, int):
        return p[lo:hi]
    if isinstance(p, bytes) and not any(p):
        return Seg(ZERO, 0, hi - lo)
    # a symbolic cut inside a literal: enumerate
    if not isinstance(lo, int):
        for i in range(len(p) + 1):
            if lo == i:
                lo = i
                break
        else:
            raise Infeasible()
    if not isinstance(hi, int):
        for i in range(lo, len(p) + 1):
            if hi == i:
                hi = i
                break
        else:
            raise Infeasible()
    return p[lo:hi]


def clip(i, n, default):
    if i is None:
        return default
    if i < 0:
        i = i + n
        return i if i >= 0 else 0
    return i


def rslice(x, sl):
    if sl.step not in (None, 1):
        raise Unsupported('slice with a step')
    # x[len(p):] of something that starts with p
    n = rlen(x)
    a = clip(sl.start, n, 0)
    b = None if sl.stop is None else clip(sl.stop, n, n)
    if b is not None and not b >= a:
        return '' if kind_of(x) == 's' else b''
    return cut(x, a, b)


def term(kind, ctor, args, length, no=(), only=None, info=None):
    """a piece that is a function of args: equal arguments, equal pieces"""
    key = (ctor,) + tuple(akey(a) for a in args)
    k = ('term', kind, key)
    if k not in CUR.memo:
        CUR.memo[k] = Atom(kind, f'{ctor}({", ".join(map(str, args))})'[:120], length, no, key, dict(info or {}, ctor=ctor, args=args), only)
    return rope(kind, [Seg(CUR.memo[k])])


def akey(a):
    if isinstance(a, SInt):
        return ('z', z3.simplify(a.z).sexpr())
    if isinstance(a, Rope):
        return ('r',) + tuple(('l', p) if not isinstance(p, Seg) else ('s', p.atom.key, akey(p.start), akey(p.length)) for p in a.resolve())
    if isinstance(a, Opaque):
        return ('o', a.name)
    return ('c', repr(a))


def eq(x, y):
    """equality of two texts; forks where it must"""
    if kind_of(x) != kind_of(y):
        return False
    a, b = list(parts_of(x)), list(parts_of(y))
    if told_apart(a, b):
        return False
    for u, v in ((a, b), (b, a)):
        if len(u) == len(v) == 1 and isinstance(u[0], Seg) and u[0].whole() and u[0].atom.info.get('code') == 'd' and u[0].atom.info.get('width') in (0, 1) and isinstance(v[0], str):
            # the text of a number and some text
            if not (v[0].isascii() and v[0].isdigit() and str(int(v[0])) == v[0]):
                return False
            return bool(u[0].atom.info['int'] == int(v[0]))
    for u, v in ((a, b), (b, a)):
        if len(v) == 1 and isinstance(v[0], (str, bytes)) and begun(u, v[0]):
            return False
    if a and b and not isinstance(a[0], Seg) and not isinstance(b[0], Seg):
        n = min(len(a[0]), len(b[0]))
        if a[0][:n] != b[0][:n]:
            return False
    if a and b and not isinstance(a[-1], Seg) and not isinstance(b[-1], Seg):
        n = min(len(a[-1]), len(b[-1]))
        if a[-1][-n:] != b[-1][-n:]:
            return False
    if kind_of(x) == 's' and (isinstance(x, Rope) or isinstance(y, Rope)) and (hasslash(a) or hasslash(b)):
        ca, cb = components(x), components(y)
        if ca and cb:
            return len(ca) == len(cb) and all(eq(u, v) for u, v in zip(reversed(ca), reversed(cb)))
    if not (rlen(x) == rlen(y)):
        return False
    for back in (False, True):
        while a and b:
            i = -1 if back else 0
            p, q = a[i], b[i]
            r = head(p, q, back)
            if r is None:
                break
            if r is False:
                return False
            p, q = r
            a.pop(i), b.pop(i)
            if p is not None:
                a.append(p) if back else a.insert(0, p)
            if q is not None:
                b.append(q) if back else b.insert(0, q)
    if not a and not b:
        return True
    k = kind_of(x)
    a, b = rope(k, a), rope(k, b)
    if not a or not b:          # the lengths are equal, so the rest is empty
        if not (rlen(a) == rlen(b)):
            return False
        for p in parts_of(a) + parts_of(b):
            if isinstance(p, Seg) and p.whole() and p.atom.key[0] == 'atom':
                CUR.defs[p.atom.name] = '' if k == 's' else b''
        return True
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Rope) and len(u.parts) == 1 and lacks_any(u.parts[0].atom, v):
            return False
        if lacks_one(u, v):
            return False
        if isinstance(u, Rope) and isinstance(v, (str, bytes)) and any(isinstance(p, (str, bytes)) and p not in v for p in u.parts):
            return False
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Rope) and isinstance(v, (str, bytes)):
            q = u.parts[0]
            if len(u.parts) == 1 and q.atom.key[0] == 'atom' and isinstance(q.start, int) and q.start == 0 and not q.whole():
                return starts(rope(k, [Seg(q.atom)]), v)
    if told_apart(parts_of(a), parts_of(b)):
        return False
    ka, kb = akey(a), akey(b)
    why = None
    single = None
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Rope) and len(u.parts) == 1 and u.parts[0].whole() and u.parts[0].atom.key[0] == 'atom':
            single = (u.parts[0].atom, v)
            break
    if single is not None and isinstance(single[1], (str, bytes)) and known_not(*single):
        return False
    if single is not None:
        for back in (False, True):
            m = CUR.memo.get(('pred', ('pre', back, single[0].name, repr(akey(single[1])))))
            if m is not None and CUR._check(m) == z3.unsat:
                return False
    if single is None and k == 's':
        ca, cb = separated(a, '_'), separated(b, '_')
        if ca and cb and len(ca) + len(cb) > 2:
            return len(ca) == len(cb) and all(eq(u, v) for u, v in zip(ca, cb))
        ca, cb = components(a), components(b)
        if ca and cb and len(ca) + len(cb) > 2:
            return len(ca) == len(cb) and all(eq(u, v) for u, v in zip(ca, cb))
    if single is None:
        why = f'equality of {a!r} and {b!r} left open'
    r = CUR.predicate(('eq',) + tuple(sorted((repr(ka), repr(kb)))), why)
    if r and single:
        define(single[0], single[1])
    return r


def told_apart(a, b):
    """texts the theorem says are different"""
    if len(a) != 1 or not isinstance(a[0], Seg):
        a, b = b, a
    if len(a) == 1 and isinstance(a[0], Seg) and a[0].whole():
        at = a[0].atom
        if len(b) == 1 and isinstance(b[0], Seg):
            return b[0].whole() and frozenset((at.name, b[0].atom.name)) in CUR.distinct
        if len(b) <= 1 and at.info.get('isnt'):
            return (b[0] if b else '') in at.info['isnt']
    return False


def lacks_any(atom, v):
    """the rope v certainly holds something that atom does not"""
    for p in parts_of(v):
        if isinstance(p, str):
            if atom.only is not None and any(c not in atom.only for c in p):
                return True
            if any(x in p for x in atom.no):
                return True
    return False


def hasslash(ps):
    return any(isinstance(p, str) and '/' in p for p in ps)


def separated(x, c):
    """the texts between the c of a text in which no atom has one"""
    out, cur = [], []
    for p in parts_of(x):
        if isinstance(p, Seg):
            if p.atom is ZERO or not p.atom.lacks(c):
                return None
            cur.append(p)
        else:
            for i, q in enumerate(p.split(c)):
                if i:
                    out.append(rope('s', cur))
                    cur = []
                if q:
                    cur.append(q)
    return out + [rope('s', cur)]


def components(x):
    """the parts of a path between its separators; None when a symbolic part may hold one"""
    out = [[]]
    for p in parts_of(x):
        if isinstance(p, Seg):
            if not p.atom.lacks('/'):
                return None
            out[-1].append(p)
        else:
            first, *rest = p.split('/')
            out[-1].append(first)
            out += [[r] for r in rest]
    return [rope('s', [q for q in c if isinstance(q, Seg) or q]) for c in out]


def lacks_one(u, v):
    """v certainly holds a character that no part of u does"""
    us = parts_of(u)
    for c in {c for p in parts_of(v) if isinstance(p, str) for c in p if not c.isalnum()}:
        if all(p.atom.lacks(c) if isinstance(p, Seg) else c not in p for p in us):
            return True
    return False


def define(atom, v):
    for p in parts_of(v):
        if isinstance(p, Seg) and p.atom.name == atom.name:
            raise Unsupported('cyclic definition')
    CUR.defs[atom.name] = v
    CUR.assume(rlen(v) == atom.length)


def minus(p, n, back):
    """part p without n at its front (back: end); None when nothing is left"""
    ln = plen(p)
    if same(ln, n) or (isinstance(ln, int) and isinstance(n, int) and ln == n):
        return None
    if isinstance(p, Seg):
        rest = ln - n
        if not rest > 0:
            return None
        if p.atom is ZERO:
            return Seg(ZERO, 0, rest)
        return Seg(p.atom, p.start, rest) if back else Seg(p.atom, p.start + n, rest)
    return p[:-n] if back else p[n:]


def head(p, q, back):
    """compare the first (last) parts: None unknown, False different, else the two remainders"""
    ps, qs = isinstance(p, Seg), isinstance(q, Seg)
    if not ps and not qs:
        n = min(len(p), len(q))
        if (p[-n:] != q[-n:]) if back else (p[:n] != q[:n]):
            return False
        return minus(p, n, back), minus(q, n, back)
    if ps and qs:
        if p.atom is ZERO and q.atom is ZERO:
            n = p.length if p.length <= q.length else q.length
            return minus(p, n, back), minus(q, n, back)
        if p.atom.key == q.atom.key and p.atom is not ZERO:
            if back:
                ok = p.start + p.length == q.start + q.length
            else:
                ok = p.start == q.start
            if ok is True or (not isinstance(ok, bool) and CUR.valid(ok)):
                n = p.length if p.length <= q.length else q.length
                return minus(p, n, back), minus(q, n, back)
            return None
        if p.whole() and q.whole() and p.atom.key[0] == q.atom.key[0] and p.atom.info.get('inj') and q.atom.info.get('inj'):
            # injective constructors of one width: equal iff the arguments are
            if p.atom.info['inj'] == q.atom.info['inj']:
                for u, v in zip(p.atom.info['args'], q.atom.info['args']):
                    if isinstance(u, (int, SInt)) and isinstance(v, (int, SInt)):
                        if not u == v:
                            return False
                    elif isinstance(u, (str, bytes, Rope)):
                        if not eq(u, v):
                            return False
                    elif akey(u) != akey(v):
                        return None
                return None, None
        return None
    lit, seg = (q, p) if ps else (p, q)
    if seg.atom is ZERO:
        n = len(lit) if seg.length >= len(lit) else None
        if n is None:
            return None
        if any(lit):
            return False
        r = minus(seg, n, back)
        return (r, None) if ps else (None, r)
    if isinstance(seg.length, int) and seg.length <= len(lit) and seg.whole():
        n = seg.length
        part = lit[-n:] if back else lit[:n]
        inv = seg.atom.info.get('is')
        if inv is not None:
            if not inv(part):
                return False
            r = minus(lit, n, back)
            return (None, r) if ps else (r, None)
        if lacks_any(seg.atom, part):
            return False
    return None




class Rope:
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts

    def resolve(self):
        if CUR is None or not CUR.defs:
            return self.parts
        out = []
        for p in self.parts:
            if isinstance(p, Seg) and p.atom.name in CUR.defs and p.atom.key[0] == 'atom':
                d = CUR.defs[p.atom.name]
                if p.whole():
                    out += parts_of(d)
                else:
                    out += parts_of(cut(d, p.start, p.start + p.length))
            else:
                out.append(p)
        return norm(out, self.kind)

    def __repr__(self):
        return '+'.join(repr(p) for p in self.resolve())

    def __hash__(self):
        raise Unsupported('hash of a symbolic text')

    def __eq__(self, o):
        if not isinstance(o, (str, bytes, Rope)):
            return False
        return eq(self, o)

    def __ne__(self, o):
        return not (self == o)

    def __bool__(self):
        n = rlen(self)
        return n > 0 if isinstance(n, int) else bool(n > 0)

    def __len__(self):
        raise Unsupported('native len of a symbolic text')

    def __add__(self, o):
        return cat(self, o) if isinstance(o, (str, bytes, Rope)) else NotImplemented

    def __radd__(self, o):
        return cat(o, self) if isinstance(o, (str, bytes, Rope)) else NotImplemented

    def __mul__(self, n):
        return repeat(self, n)
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return rslice(self, i)
        n = rlen(self)
        if i < 0:
            i = i + n
        if not (i >= 0) or not (i < n):
            raise IndexError('string index out of range')
        c = cut(self, i, i + 1)
        if self.kind == 'b':
            if isinstance(c, bytes):
                return c[0]
            raise Unsupported('value of a symbolic byte')
        return c

    def __iter__(self):
        raise Unsupported('iteration over a symbolic text')

    def __contains__(self, sub):
        return contains(self, sub)

    def __lt__(self, o):
        raise Unsupported('order of symbolic texts')
    __le__ = __gt__ = __ge__ = __lt__

    def __format__(self, spec):
        raise Unsupported('native formatting of a symbolic text')

    def __str__(self):
        return repr(self)


def starts(x, pre, back=False):
    """does x start (end) with pre; a True answer refines an atom at that end"""
    if isinstance(pre, tuple):
        for p in pre:
            if starts(x, p, back):
                return True
        return False
    if kind_of(pre) != kind_of(x):
        raise TypeError('startswith: text and bytes')
    a, b = list(parts_of(x)), list(parts_of(pre))
    i = -1 if back else 0
    if not back and len(b) == 1 and isinstance(b[0], (str, bytes)) and begun(a, b[0]):
        return False
    while b:
        if not a:
            return bool(rlen(rope(kind_of(x), b)) == 0)
        p, q = a[i], b[i]
        ps, qs = isinstance(p, Seg), isinstance(q, Seg)
        if ps and back and isinstance(q, str) and p.atom.info.get('pairs') and p.whole() and p.atom.key[0] == 'atom':
            c = p.atom.info['pairs']
            n = len(q) - len(q.rstrip(c))
            if n % 2 and n < len(q):
                return False       # no odd run of c in it
        if ps and p.atom.info.get('opaque'):
            return CUR.predicate(('starts', back, p.atom.name, repr(akey(rope(kind_of(x), b)))))      # either answer is followed
        if not ps and not qs:
            n = min(len(p), len(q))
            if (p[-n:] != q[-n:]) if back else (p[:n] != q[:n]):
                return False
            r = minus(p, n, back), minus(q, n, back)
        elif ps and qs and p.atom.key == q.atom.key:
            r = head(p, q, back)
        elif ps and not qs and not back and isinstance(q, bytes) and (len(a) == 1 or p.length >= len(q)) and (any(x in q for x in p.atom.no) or (
                p.atom.info.get('encoding') == 'utf-8' and any(x > 0xf4 or x in (0xc0, 0xc1) for x in q))):
            return False           # the atom has no such bytes anywhere
        elif ps and not qs and p.atom.key[0] == 'atom' and p.whole():
            if lacks_any(p.atom, q[-1:] if back else q[:1]):
                if p.length == 0:      # the atom is empty: look at the next part
                    a.pop(i)
                    continue
                return False
            r = path_starts(a, b, back)
            if r is not None:
                return r
            return refine(p.atom, a, q, b, i, back, kind_of(x))
        elif ps and not qs and not back and 'encoding' in p.atom.info and p.whole() and p.atom.kind == 'b' and (decoded(q, p.atom.info['encoding']) is not None):
            t, u = p.atom.info['text'], decoded(q, p.atom.info['encoding'])
            if rlen(t) >= len(u):
                return starts(t, u) if len(b) == 1 else _open(x, pre, back)
            if rlen(t) == 0:
                a.pop(i)
                continue
            r = False if not starts(t, u[:1]) else None
        elif ps and qs and p.atom.key[0] == 'atom' and p.whole() and len(b) == 1:
            return refine(p.atom, a, rope(kind_of(x), [q]), b, i, back, kind_of(x))
        else:
            r = None
        if r is None and any(any(isinstance(t, str) and c in t for t in b) and all(
                (c not in t if isinstance(t, str) else isinstance(t, Seg) and lacks_any(t.atom, c)) for t in a) for c in './'):
            return False           # a separator that is nowhere in x
        if r is None:
            return CUR.predicate(('starts', back, repr(akey(x)), repr(akey(pre))), f'whether {x!r} starts with {pre!r} left open')
        if r is False:
            return False
        a.pop(i), b.pop(i)
        p, q = r
        if p is not None:
            a.append(p) if back else a.insert(0, p)
        if q is not None:
            b.append(q) if back else b.insert(0, q)
    return True


def path_starts(a, b, back):
    """starts, part by part of a path; None when that says nothing"""
    if back or (a and not isinstance(a[0], str) and a[0].atom.kind != 's'):
        return None
    ca, cb = components(rope('s', a)), components(rope('s', b))
    if not ca or not cb or len(cb) < 2:
        return None
    if len(ca) < len(cb):
        return False
    n = len(cb) - 1
    return all(eq(u, v) for u, v in zip(ca[:n], cb[:n])) and (cb[n] == '' or starts(ca[n], cb[n]))


def decoded(b, encoding):
    try:
        return b.decode(encoding)
    except (UnicodeDecodeError, LookupError):
        return None


def _open(x, pre, back):
    return CUR.predicate(('starts', back, repr(akey(x)), repr(akey(pre))), f'whether {x!r} starts with {pre!r} left open')


def known_not(atom, lit):
    """is it known, of the text this one is the rest of, that lit does not come next"""
    while 'from' in atom.info:
        atom, lit = atom.info['from'][0], atom.info['from'][1] + lit
        m = CUR.memo.get(('pred', ('pre', False, atom.name, repr(akey(lit)))))
        if m is not None and CUR._check(m) == z3.unsat:
            return True
    return False


def known_not_prefix(atom, lit):
    m = CUR.memo.get(('pred', ('pre', False, atom.name, repr(akey(lit)))))
    return (m is not None and CUR._check(m) == z3.unsat) or known_not(atom, lit)


def begun(a, lit):
    """the text a is the beginning of one that is known not to start with lit"""
    if not a or not isinstance(a[0], Seg) or not isinstance(lit, (str, bytes)) or not isinstance(a[0].start, int) or a[0].start != 0:
        return False
    at = a[0].atom
    if 'begins' not in at.info:
        return False
    parent, sep, v = at.info['begins']
    if len(a) > 1:
        if not a[0].whole():
            return False
        if isinstance(a[1], Seg) or not sep.startswith(a[1]):
            return False
        if len(a) > 2 and not (a[1] == sep and len(a) == 3 and isinstance(a[2], Seg) and a[2].atom.key == v.key and isinstance(a[2].start, int) and a[2].start == 0):
            return False
    return known_not_prefix(parent, lit) or begun([Seg(parent)], lit)


def refine(atom, a, q, b, i, back, kind):
    if len(b) != 1:
        return CUR.predicate(('starts2', back, atom.name, repr(akey(rope(kind, b)))), f'prefix of {atom} left open')
    if not back and isinstance(q, (str, bytes)) and known_not(atom, q):
        return False
    if not CUR.predicate(('pre', back, atom.name, repr(akey(q)))):
        # not so within the atom; a shorter atom may still be completed by what follows it
        n = rlen(q)
        if len(a) > 1 and CUR.valid(atom.length >= n) is not True:
            CUR.imprecise.append(f'prefix of {atom} across its end')
        return False
    CUR.assume(atom.length >= rlen(q))
    rest = Atom(kind, CUR.fresh(atom.name + ("'" if not back else '`')), atom.length - rlen(q), atom.no, only=atom.only, info={k: v for k, v in atom.info.items() if k == 'type'})
    if atom.info.get('stripped') or atom.info.get('lstripped' if back else 'rstripped'):
        rest.info['lstripped' if back else 'rstripped'] = True
    if not back and isinstance(q, (str, bytes)):
        rest.info['from'] = (atom, q)
    r = rope(kind, [Seg(rest)])
    define(atom, cat(r, q) if back else cat(q, r))
    return True


def contains(x, sub):
    if isinstance(sub, Rope):
        if akey(sub) == akey(x):
            return True
        ps = parts_of(x)
        for p in ps:
            if isinstance(p, Seg) and len(sub.parts) == 1 and isinstance(sub.parts[0], Seg) and p.atom.key == sub.parts[0].atom.key:
                return True
        return CUR.predicate(('contains', repr(akey(x)), repr(akey(sub))), f'whether {x!r} holds {sub!r} left open')
    if sub == '' or sub == b'':
        return True
    ps = parts_of(x)
    for p in ps:
        if not isinstance(p, Seg) and sub in p:
            return True
    for p in ps:
        if isinstance(p, Seg) and p.atom is not ZERO and not p.atom.lacks(sub):
            if p.atom.kind == 's' and CUR.predicate(('contains', p.atom.key, sub)):
                return True
            elif p.atom.kind == 'b':
                raise Unsupported('search in symbolic bytes')
    if crossing(ps, sub):
        return CUR.predicate(('contains', repr(akey(x)), sub), f'whether {x!r} holds {sub!r} left open')
    return False


def fixed_find(x, sep):
    """positions of the occurrences of sep, left to right and not overlapping, in bytes made of literals and of numbers of
    fixed width; None when x is not of that form"""
    cells = []
    for p in parts_of(x):
        if not isinstance(p, Seg):
            cells += list(p)
            continue
        i = p.atom.info
        if not (p.whole() and 'le' in i and isinstance(p.length, int)):
            return None
        n = p.length
        v = zi(i['le'])
        if i['signed'] and CUR.valid(v >= 0) is not True:
            v = v % z3.IntVal(256 ** n)
        for k in range(n):
            cells.append((v, k, n))
    out = []
    i = 0
    while i + len(sep) <= len(cells):
        conds = []
        for c, b in sorted(zip(cells[i:i + len(sep)], sep), key=lambda t: -(t[0][1] if isinstance(t[0], tuple) else 99)):
            if isinstance(c, int):
                if c != b:
                    conds = None
                    break
            else:
                v, k, n = c
                conds.append((v / z3.IntVal(256 ** k)) % 256 == b if k < n - 1 else v / z3.IntVal(256 ** k) == b)
        if conds is not None:
            hit = True
            if conds:
                # the most telling byte first
                if any(CUR._check(q) == z3.unsat for q in conds[:2]):
                    hit = False
                else:
                    hit = CUR.fork(z3.And(*conds))
            if hit:
                out.append(i)
                i += len(sep)
                continue
        i += 1
    return out


def crossing(ps, sub):
    """may sub occur across the boundary of an atom"""
    n = len(sub)
    if n == 1:
        return False
    if not any(isinstance(p, Seg) for p in ps):
        return False
    if any(isinstance(p, Seg) and p.atom is ZERO for p in ps):
        return True

    def empty(p):
        if isinstance(p.length, int):
            return p.length == 0
        return CUR.valid(p.length > 0) is not True

    def run(p, k):
        """how many characters from sub[k:] on the atom may hold in a row"""
        m = 0
        while k + m < n and not p.atom.lacks(sub[k + m:k + m + 1]) and not (m and p.atom.lacks(sub[k:k + m + 1])):
            m += 1
        return m

    def goes_on(i, k):
        """may sub[k:] follow at the beginning of piece i"""
        if k == n:
            return True
        if i == len(ps):
            return False
        p = ps[i]
        if not isinstance(p, Seg):
            m = min(len(p), n - k)
            return p[:m] == sub[k:k + m] and goes_on(i + 1, k + m)
        m = run(p, k)
        if k + m == n:
            return True
        return any(goes_on(i + 1, k + j) for j in range(1, m + 1)) or (empty(p) and goes_on(i + 1, k))

    for i, p in enumerate(ps[:-1]):
        if isinstance(p, Seg):
            for k in range(1, min(run(p, 0), n - 1) + 1):
                if goes_on(i + 1, k):
                    return True
        else:
            for k in range(1, min(len(p), n - 1) + 1):
                if p.endswith(sub[:k]) and goes_on(i + 1, k):
                    return True
    return False


def count_in(atom, sub, kind):
    """how many times sub occurs in an atom (an unknown number, the same on every question)"""
    c = CUR
    key = ('count', atom.key, sub)
    if key not in c.memo:
        if atom.lacks(sub):
            return 0
        n = SInt(z3.Int(c.fresh('count')))
        c.assume(n >= 0)
        k = ('pred', ('contains', atom.key, sub))
        if k not in c.memo:
            c.memo[k] = z3.Bool(c.fresh('p:contains'))
        c.assume(mkb(c.memo[k] == (n.z > 0)))
        c.memo[key] = n
    return c.memo[key]


def split_first(x, sep, back=False):
    """(before, after) of the first (last) occurrence, or None"""
    ps = parts_of(x)
    k = kind_of(x)
    if k == 'b' and ps:
        at = fixed_find(x, sep)
        if at is not None:
            if back and len(at) > 1:
                raise Unsupported('last of several')
            return (cut(x, 0, at[0]), cut(x, at[0] + len(sep), None)) if at else None
    if crossing(ps, sep):
        raise Unsupported(f'{sep!r} may occur across the pieces of {x!r}')
    order = range(len(ps) - 1, -1, -1) if back else range(len(ps))
    for i in order:
        p = ps[i]
        if isinstance(p, Seg):
            if p.atom is ZERO or p.atom.lacks(sep):
                continue
            if not p.whole() or p.atom.key[0] != 'atom':
                raise Unsupported(f'{sep!r} in a part of {p}')
            if CUR.predicate(('contains', p.atom.key, sep)):
                la, lb = SInt(z3.Int(CUR.fresh(p.atom.name + '.l'))), SInt(z3.Int(CUR.fresh(p.atom.name + '.r')))
                CUR.assume(mkb(z3.And(la.z >= 0, lb.z >= 0)))
                free, bound = p.atom.no, p.atom.no | {sep}
                u = Atom(k, CUR.fresh(p.atom.name + '<'), la, free if back else bound, only=p.atom.only)
                v = Atom(k, CUR.fresh(p.atom.name + '>'), lb, bound if back else free, only=p.atom.only)
                if len(sep) == 1:
                    CUR.assume(mkb(zi(count_in(p.atom, sep, k)) == 1 + zi(count_in(u, sep, k)) + zi(count_in(v, sep, k))))
                if not back:
                    if known_not_prefix(p.atom, sep):
                        CUR.assume(la >= 1)
                u.info = dict(u.info, begins=(p.atom, sep, v))
                define(p.atom, rope(k, [Seg(u), sep, Seg(v)]))
                return rope(k, ps[:i] + [Seg(u)]), rope(k, [Seg(v)] + ps[i + 1:])
            continue
        j = p.rfind(sep) if back else p.find(sep)
        if j >= 0:
            return rope(k, ps[:i] + [p[:j]]), rope(k, [p[j + len(sep):]] + ps[i + 1:])
    return None


class Opaque:
    """a value the code may only pass on"""
    def __init__(self, name, type=None):
        self.name, self.type = name, type

    def __repr__(self):
        return f'<{self.name}>'

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return self.name == o.name or CUR.predicate(('opq', *sorted((self.name, o.name))), f'equality of {self} and {o} left open')
        return CUR.predicate(('opq', self.name, repr(o)[:200]), f'equality of {self} and {o!r:.40} left open')

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return CUR.predicate(('truth', self.name))

    def _no(self, *a):
        raise Unsupported(f'the code looks into {self}')
    __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = __index__ = __call__ = __contains__ = _no

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'attribute {n} of {self}')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Node(Opaque):
    """a part of a tree of lists and texts, of which nothing is known until the code looks into it; copies of it agree"""
    def __init__(self, seed):
        super().__init__(seed)
        self.value = None

    @staticmethod
    def kind(seed):
        return CUR.memo.get(('node', seed))

    def decided(self):
        return self.value is not None or ('node', self.name) in CUR.memo

    def get(self):
        """the list or text this node is (its kind is decided)"""
        if self.value is None:
            k, v = CUR.memo[('node', self.name)]
            self.value = [v] if k == 'list' else v
        return self.value

    def as_list(self):
        if not self.decided():
            n = SInt(z3.Int(CUR.fresh('len:' + self.name)))
            CUR.assume(n >= 0)
            CUR.memo[('node', self.name)] = ('list', Rest(self.name + '[]', n, lambda nm: Node(nm)))
        return self.get()

    def as_text(self):
        if not self.decided():
            n = SInt(z3.Int(CUR.fresh('len:' + self.name)))
            CUR.assume(n >= 0)
            CUR.memo[('node', self.name)] = ('text', rope('s', [Seg(Atom('s', self.name, n))]))
        return self.get()

    def decide(self):
        if not self.decided():
            if CUR.fork(z3.Bool(CUR.fresh('islist:' + self.name))):
                self.as_list()
            else:
                self.as_text()
        return self.get()

    def __eq__(self, o):
        raise Unsupported(f'comparison of {self!r} outside the models')

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'<{self.name}>' if self.value is None else f'<{self.name}={self.value!r}>'


def un(x):
    return x.get() if isinstance(x, Node) and x.decided() else x


class Rest:
    """the rest of a list: any number of further elements"""
    def __init__(self, name, length, element=None, text=None, sep=None):
        self.name, self.length, self.element = name, length, element
        self.text, self.sep = text, sep       # the parts of text between sep
        self.link = None                      # (first element, further rest) once looked at

    def __repr__(self):
        return f'*{self.name}'

    def __deepcopy__(self, memo):
        return self


SYMBOLIC = (SInt, SBool, SFrac, Rope, Opaque, Rest)


def symbolic(x, depth=6):
    if isinstance(x, SYMBOLIC):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(symbolic(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(symbolic(k, depth - 1) or symbolic(v, depth - 1) for k, v in x.items())
    if isinstance(x, slice):
        return symbolic((x.start, x.stop, x.step))
    return False
