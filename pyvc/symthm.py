"""Symbolic half of the theorems: every path, every obligation, z3 decides."""
import os
import sys
import time
import traceback

import z3

import sym
import models
import interp
import thm
from sym import (Ctx, SInt, SBool, Rope, Opaque, Rest, Atom, Seg, rope, cat, rlen, Unsupported, Infeasible, PathEnd, parts_of, mkb, zi)


class Obl:
    __slots__ = ('label', 'status', 'detail', 'inputs')

    def __init__(self, label, status, detail='', inputs=None):
        self.label, self.status, self.detail, self.inputs = label, status, detail, inputs


class SymS:
    symbolic = True

    def __init__(self, ctx, vm):
        self.ctx, self.vm = ctx, vm
        self.obls = []
        self.root = '/G'
        self.seq = {}

    # inputs
    def _name(self, name, v):
        k = self.seq.get(name, 0)
        self.seq[name] = k + 1
        self.ctx.vals[f'{name}#{k}' if k else name] = v
        return v

    def int(self, name, lo=None, hi=None, hints=()):
        v = SInt(z3.Int(self.ctx.fresh(name)))
        if lo is not None:
            self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        return self._name(name, v)

    def _atom(self, kind, name, length, min, max, no, only=None, isnt=()):
        if length is None:
            n = SInt(z3.Int(self.ctx.fresh('len:' + name)))
            self.ctx.assume(n >= min)
            if max is not None:
                self.ctx.assume(n <= max)
        else:
            n = length
        return self._name(name, rope(kind, [Seg(Atom(kind, self.ctx.fresh(name), n, no=no, only=frozenset(only) if only is not None else None, info={'isnt': frozenset(isnt)} if isnt else None))]))

    def bytes(self, name, length=None, min=0, max=None, no=()):
        return self._atom('b', name, length, min, max, no)

    def text(self, name, only=None, no=(), min=0, max=None, isnt=()):
        return self._atom('s', name, None, min, max, no, only, isnt)

    def distinct(self, *texts):
        for i, a in enumerate(texts):
            for b in texts[:i]:
                self.ctx.distinct.add(frozenset((a.parts[0].atom.name, b.parts[0].atom.name)))

    def opaque(self, name, type=None):
        return self._name(name, Opaque(self.ctx.fresh(name), type))

    def rest(self, name, element=None, min=0, only=None):
        n = SInt(z3.Int(self.ctx.fresh('len:' + name)))
        self.ctx.assume(n >= min)
        self._name(name + '.len', n)
        return [Rest(self.ctx.fresh(name), n, element)]

    def choose(self, name, n):
        return self._name(name, self.ctx.choose(n))

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, c):
        if isinstance(c, (SBool, bool)):
            self.ctx.assume(c)
            if not self.ctx.feasible():
                raise Infeasible()
        elif not self.vm.truth(c):
            raise Infeasible()

    # obligations
    def _add(self, label, status, detail='', model=None):
        inputs = None
        if status == 'refuted':
            inputs = concretize(self.ctx, model)
            if self.ctx.imprecise:
                status = 'undecided'
                detail = f'{detail} (open on this path: {"; ".join(self.ctx.imprecise[:2])})'
        self.obls.append(Obl(label, status, str(detail)[:400], inputs))

    def check(self, label, c, detail=''):
        if isinstance(c, (SBool, bool)):
            r = self.ctx.valid(c)
            if r is True:
                self._add(label, 'discharged')
            elif r is None:
                self._add(label, 'undecided', 'the solver gives no answer')
            else:
                m = None
                if isinstance(c, SBool):
                    self.ctx._check(z3.Not(c.z))
                    m = self.ctx.solver.model()
                elif self.ctx._check() == z3.sat:
                    m = self.ctx.solver.model()
                else:
                    raise Infeasible()
                self._add(label, 'refuted', f'{c} {detail}', m)
            if isinstance(c, SBool):
                self.ctx.assume(c)
            elif not c:
                raise PathEnd()
            return True
        return self.check(label, self.vm.truth(c), detail)

    def eq(self, label, a, b):
        r = models.deq(a, b)
        if isinstance(r, SBool):
            return self.check(label, r, f'{a!r:.150} is not {b!r:.150}')
        if r:
            self._add(label, 'discharged')
            return True
        if self.ctx._check() != z3.sat:
            if self.ctx._check() == z3.unsat:
                raise Infeasible()
            self._add(label, 'undecided', 'the solver gives no answer')
        else:
            self._add(label, 'refuted', f'{a!r:.150} is not {b!r:.150}', self.ctx.solver.model())
        raise PathEnd()

    def end(self):
        raise PathEnd()

    def hook(self, name, f):
        """a model for this theorem only"""
        mod, fn = name.rsplit('.', 1)
        o = sys.modules[mod] if mod in sys.modules else __import__(mod)
        self.vm.models.hooks[id(getattr(o, fn))] = f

    def loops(self, fn, *specs):
        """the loops of a function, in the order of the text"""
        self.loop(fn, lambda vm, s, env: specs[s.order] if s.order < len(specs) else None)

    def loop(self, fn, spec):
        self.vm.loops[fn] = spec

    def contract(self, fn, c):
        self.vm.contracts[fn] = c

    # running the code
    def call(self, f, *a, **k):
        if isinstance(f, str):
            g = thm.fn_of(f)
            if g is None:
                raise Unsupported(f'the code has no {f}')
            f = g
        return self.vm.call(f, a, k)

    def raises(self, f, *a, **k):
        try:
            r = self.call(f, *a, **k)
            if hasattr(r, '__next__'):
                list(r)
        except Exception as e:
            return e
        return None

    def attempt(self, f, *a, **k):
        """the result and the error"""
        try:
            return self.call(f, *a, **k), None
        except Exception as e:
            return None, e

    def listed(self, it):
        return self.vm.listed(it)

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def len(self, x):
        return models.b_len(self.vm, x)

    def lower(self, t):
        return models.text_method(self.vm, t, 'lower', (), {})

    def strip(self, t):
        return models.text_method(self.vm, t, 'strip', (), {})

    def less(self, a, b):
        return self.truth(self.vm.models.compare(self.vm, 'Lt', a, b))

    def truth(self, c):
        return self.vm.truth(c)

    def starts(self, t, p):
        return sym.starts(t, p)

    def ite(self, c, a, b):
        return a if self.vm.truth(c) else b

    def copy(self, x):
        return models.dcopy(x)

    # files
    def path(self, *parts):
        return models.p_join(self.vm, self.root, *parts)

    def file(self, path, content):
        fs = self.vm.models.fs
        fs.add(models.npath(path), content)
        self.dir(models.p_dirname(self.vm, path))

    def dir(self, path):
        fs, f = self.vm.models.fs, self.vm.models.fault
        self.vm.models.fault = None
        models.m_makedirs(self.vm, path, exist_ok=True)
        self.vm.models.fault = f

    def read(self, path):
        return self.vm.models.fs.get(models.npath(path))

    def paths(self):
        return [e[0] for e in self.vm.models.fs.files]

    def bytesio(self, b=b''):
        return models.SFile(self.vm, models.SData(b), 'r+b')

    def content(self, f):
        return f.data.content

    def utf8(self, t):
        return models.t_encode(self.vm, t, 'utf-8')

    def encode(self, t, enc):
        return models.t_encode(self.vm, t, enc)

    def inflate(self, b):
        if not isinstance(b, Rope):
            return None if not isinstance(b, bytes) else thm.NatS.inflate(self, b)
        ps = b.resolve()
        if ps and all(isinstance(p, Seg) and p.atom is ps[0].atom for p in ps) and ps[0].atom.info.get('deflate') is not None and ps[0].atom.info['wbits'] == -15:
            at = 0
            for p in ps:
                if not self.ctx.valid(p.start == at):
                    return None
                at = at + p.length
            if not self.ctx.valid(at == ps[0].atom.length):
                return None
            return ps[0].atom.info['deflate']
        return None

    def deflated(self, name, x):
        n = self.int(name + '.n', 1)
        return rope('b', [Seg(Atom('b', self.ctx.fresh(name), n, info={'deflate': x, 'wbits': -15}))])

    def sha1(self, b):
        d = models.m_b64encode(self.vm, models.SHash(b).digest())
        return models.t_decode(self.vm, d, 'utf-8') if isinstance(d, Rope) else d.decode()

    def contains(self, t, sub):
        return sym.contains(t, sub)

    def decimal(self, n):
        return models.to_str(self.vm, n)


# ---------------------------------------------------------------- from a model of the solver to inputs
def ival(m, v):
    if isinstance(v, int):
        return v
    x = m.eval(v.z, model_completion=True) if m is not None else z3.IntVal(0)
    return x.as_long()


def filler(atom, n):
    if atom.kind == 'b':
        seed = sum(ord(c) * (i + 7) for i, c in enumerate(atom.name)) or 1
        return bytes((seed * (i + 3) + 131 * i * i) % 251 for i in range(n))
    src = sorted(atom.only) if atom.only is not None else [c for c in 'qwertyuiop' if c not in atom.no]
    if not src:
        src = ['~']
    k = sum(map(ord, atom.name))
    return ''.join(src[(k + i) % len(src)] for i in range(n))


def cval(ctx, m, x):
    if isinstance(x, (SInt,)):
        return ival(m, x)
    if isinstance(x, SBool):
        return z3.is_true(m.eval(x.z, model_completion=True))
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, Rope):
        out = '' if x.kind == 's' else b''
        for p in x.resolve():
            if not isinstance(p, Seg):
                out += p
            else:
                full = filler_of(ctx, m, p.atom, None if p.atom is not sym.ZERO else ival(m, p.length))
                a = 0 if p.atom is sym.ZERO else ival(m, p.start)
                out += full[a:a + ival(m, p.length)]
        return out
    if isinstance(x, Opaque):
        return {str: 'opq', int: 3, list: ['opq'], dict: {'opq': 1}}.get(x.type, ['opq ' + x.name])
    if isinstance(x, (list, tuple)):
        return [cval(ctx, m, y) for y in x]
    return x


def filler_of(ctx, m, atom, n):
    if atom is sym.ZERO:
        return bytes(n)
    i = atom.info
    if 'int' in i:
        v = ival(m, i['int'])
        return format(v, f'0{i["width"]}{i["code"]}')
    if 'le' in i:
        return (ival(m, i['le']) % (256 ** atom.length)).to_bytes(atom.length, 'little')
    if 'text' in i:
        return cval(ctx, m, i['text']).encode(i['encoding'])
    n = ival(m, atom.length)
    if n > 5_000_000:
        raise OverflowError
    return filler(atom, n)


def concretize(ctx, m):
    try:
        return {k: thm.tojson(cval(ctx, m, v)) for k, v in ctx.vals.items()}
    except Exception:
        return None


def told(e):
    """an exception and what it was made of"""
    g = getattr(e, 'ghost', None)
    if g is None:
        try:
            return f'{type(e).__name__}: {str(e)[:150]}'
        except Exception:
            return type(e).__name__
    inner = g.get('parent')
    return f'{type(e).__name__}({g.get("message")!r:.80}, {g.get("detail")!r:.80})' + (f' < {told(inner)}' if isinstance(inner, BaseException) and inner is not e else '')


# ---------------------------------------------------------------- exploration
def run(th, budget_s, names=None):
    """prove one theorem: {obls: [...], paths, undecided: [...], ...}"""
    t0 = time.time()
    work = [[]]
    res = {'name': th.name, 'title': th.title, 'top': th.top, 'inner': th.inner, 'obls': {}, 'paths': 0, 'dead': 0, 'undecided': [], 'refuted': [], 'solver_s': 0.0, 'queries': 0,
           'entered': {}, 'contracted': {}, 'discharged': 0, 'obligations': 0, 'bounded': th.bounded}
    seen = set()

    def undecided(label, why):
        if (label, why[:60]) not in seen and len(res['undecided']) < 12:
            seen.add((label, why[:60]))
            res['undecided'].append({'theorem': th.name, 'label': label, 'why': why[:400]})
    while work:
        dec = work.pop()
        if res['paths'] + res['dead'] >= th.paths:
            undecided('*', f'more than {th.paths} paths')
            break
        if time.time() - t0 > budget_s:
            undecided('*', f'no end within {budget_s:.0f} s')
            break
        ctx = Ctx(dec)
        sym.CUR = ctx
        mods = models.Models(fs=models.FS())
        vm = interp.VM(mods, dict(th.contracts), dict(th.loops))
        s = SymS(ctx, vm)
        if th.replace:
            th.replace(s, vm, mods)
        ended = True
        try:
            if th.setup:
                with th.setup(s):
                    th.fn(s)
            else:
                th.fn(s)
        except PathEnd:
            pass
        except Infeasible:
            ended = bool(s.obls)
        except Unsupported as e:
            undecided('*', f'out of reach: {e}')
            if os.environ.get('PYVC_TB'):
                traceback.print_exc()
        except RecursionError:
            undecided('*', 'out of reach: recursion')
        except (interp.Return, interp.Break, interp.Continue) as e:
            undecided('*', 'engine: stray control flow')
        except z3.Z3Exception as e:
            undecided('*', f'engine: {e}')
        except Exception as e:
            r = ctx._check()
            if r == z3.unsat:
                ended = bool(s.obls)
            else:
                tb = traceback.extract_tb(e.__traceback__)
                inside = tb[-1].filename
                where = f'{os.path.basename(inside)}:{tb[-1].lineno}'
                s._add('no unexpected error', 'refuted' if r == z3.sat else 'undecided', f'{told(e)} ({where})', ctx.solver.model() if r == z3.sat else None)
        finally:
            sym.CUR = None
        work += ctx.alts
        res['paths' if ended else 'dead'] += 1
        res['solver_s'] += ctx.solver_s
        res['queries'] += ctx.queries
        for k, v in vm.entered.items():
            res['entered'][k] = res['entered'].get(k, 0) + v
        for k, v in vm.contracted.items():
            res['contracted'][k] = res['contracted'].get(k, 0) + v
        for o in s.obls:
            res['obligations'] += 1
            d = res['obls'].setdefault(o.label, {'discharged': 0, 'refuted': 0, 'undecided': 0})
            d[o.status] += 1
            if o.status == 'discharged':
                res['discharged'] += 1
            elif o.status == 'refuted':
                if len(res['refuted']) < 5:
                    res['refuted'].append({'theorem': th.name, 'label': o.label, 'detail': o.detail, 'inputs': o.inputs})
            else:
                undecided(o.label, o.detail)
    res['wall_s'] = time.time() - t0
    res['used'] = dict(models.USED)
    return res
