"""Interpreter of the real source of v8unpack over symbolic values.

The code that is run is the AST of the files in /repo at the time of the run; nothing is rewritten or left out.
Functions of v8unpack are entered, or replaced by their contract where one is registered; other functions have a model
(models.py) or are run natively when nothing symbolic reaches them."""
import ast
import builtins
import inspect
import types

import sym
from sym import Unsupported, PathEnd, Rope, SInt, SBool, Opaque, Rest, symbolic

TREES = {}


def loops_of(fn):
    """the loops of a function, in the order of the text, those of functions inside it left out"""
    out, todo = [], list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            out.append(n)
        todo += ast.iter_child_nodes(n)
    return sorted(out, key=lambda n: (n.lineno, n.col_offset))


def tree_of(filename):
    if filename not in TREES:
        with open(filename, encoding='utf-8') as f:
            t = ast.parse(f.read())
        idx = {}
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(n.name, first)] = n
                for k, loop in enumerate(loops_of(n)):
                    loop.order = k
            elif isinstance(n, ast.Lambda):
                idx.setdefault(('<lambda>', n.lineno), []).append(n)
        TREES[filename] = idx
    return TREES[filename]


def ast_of(fn):
    c = fn.__code__
    n = tree_of(c.co_filename).get((c.co_name, c.co_firstlineno))
    if n is None or isinstance(n, list) and len(n) != 1:
        raise Unsupported(f'source of {fn.__qualname__} not found')
    return n[0] if isinstance(n, list) else n


class Return(BaseException):
    pass


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


POISON = object()     # value of a local variable after an unknown number of iterations


class Env:
    __slots__ = ('vars', 'up', 'globals', 'cls', 'self', 'fn', 'nonlocals', 'globs', 'loopno', 'exc')

    def __init__(self, globals, up=None, cls=None, fn=None):
        self.vars, self.up, self.globals, self.cls, self.fn = {}, up, globals, cls, fn
        self.self = None
        self.nonlocals, self.globs = set(), set()
        self.exc = None

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is POISON:
                    raise Unsupported(f'{name} keeps a value from an earlier iteration')
                return v
            e = e.up
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def set(self, name, v):
        if name in self.globs:
            self.globals[name] = v
            return
        if name in self.nonlocals:
            e = self.up
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.up
        self.vars[name] = v


class Fn:
    """a function or lambda defined while interpreting"""
    def __init__(self, vm, node, env, defaults, kwdefaults, name):
        self.vm, self.node, self.env, self.defaults, self.kwdefaults = vm, node, env, defaults, kwdefaults
        self.__name__ = name
        self.__qualname__ = name

    def __call__(self, *a, **k):
        return self.vm.apply(self, a, k)

    def __get__(self, obj, typ=None):
        return self


def is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


class VM:
    MAXSTEPS = 400000
    MAXLOOP = 400

    def __init__(self, models, contracts=None, loops=None):
        self.models = models
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.steps = 0
        self.entered = {}
        self.contracted = {}
        self.native = {}
        self.depth = 0
        self.on_loop = None
        self.chars = None
        self.real_errors = False

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        args = [sym.un(a) for a in args]
        if kw:
            kw = {k: sym.un(v) for k, v in kw.items()}
        if isinstance(f, Fn):
            return self.apply(f, args, kw)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, Fn):
                return self.apply(fn, (f.__self__,) + tuple(args), kw)
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                return self.function(fn, (f.__self__,) + tuple(args), kw)
        if isinstance(f, types.FunctionType) and self.ours(f):
            return self.function(f, args, kw)
        m = self.models.lookup(f)
        if m is not None:
            try:
                return m(self, *args, **kw)
            except TypeError as e:
                # a way of calling it that the model does not have
                if e.__traceback__.tb_next is None:
                    raise Unsupported(f'call of {getattr(f, "__name__", f)}: {e}')
                raise
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        return self.models.native_call(self, f, args, kw)

    def ours(self, fn):
        m = getattr(fn, '__module__', '') or ''
        return m == 'v8unpack' or m.startswith('v8unpack.')

    def instantiate(self, cls, args, kw):
        if self.ours(cls):
            m = self.models.constructor(cls)
            if m is not None:
                return m(self, cls, *args, **kw)
            if issubclass(cls, BaseException):
                if not self.real_errors:
                    raise Unsupported(f'exception class {cls.__name__}')
                o = cls.__new__(cls, *args, **kw)       # looks only at the classes of its arguments
                self.call(cls.__init__, (o,) + tuple(args), kw)
                return o
            import enum
            if not issubclass(cls, (tuple, enum.Enum)):
                o = cls.__new__(cls)
                init = cls.__init__
                if isinstance(init, types.FunctionType):
                    self.call(init, (o,) + tuple(args), kw)
                elif args or kw:
                    raise TypeError(f'{cls.__name__}() takes no arguments')
                return o
        return self.models.native_call(self, cls, args, kw)

    def function(self, fn, args, kw):
        q = f'{fn.__module__[9:] or "v8unpack"}:{fn.__qualname__}'
        c = self.contracts.get(q)
        if c is not None:
            self.contracted[q] = self.contracted.get(q, 0) + 1
            return c(self, *args, **kw)
        wrapped = getattr(fn, '__wrapped__', None)
        node = ast_of(fn)
        self.entered[q] = self.entered.get(q, 0) + 1
        env = Env(fn.__globals__, fn=q)
        if fn.__closure__:
            up = Env(fn.__globals__)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    up.vars[n] = c.cell_contents
                except ValueError:
                    pass
            env.up = up
            env.cls = up.vars.get('__class__')
        self.bind(env, node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kw, fn.__name__)
        return self.run(env, node)

    def apply(self, f, args, kw):
        env = Env(f.env.globals, up=f.env, fn=(f.env.fn or '') + '.' + f.__name__)
        env.cls = f.env.cls
        env.self = f.env.self
        self.bind(env, f.node.args, f.defaults, f.kwdefaults, args, kw, f.__name__)
        return self.run(env, f.node)

    def bind(self, env, a, defaults, kwdefaults, args, kw, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        v = env.vars
        args = list(args)
        if any(isinstance(x, Rest) for x in args):
            raise Unsupported('arguments of unknown number')
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kw:
                    raise TypeError(f'{name}() got multiple values for argument {p!r}')
                v[p] = args[i]
            elif p in kw:
                v[p] = kw.pop(p)
            elif i >= len(pos) - len(defaults):
                v[p] = defaults[i - (len(pos) - len(defaults))]
            else:
                raise TypeError(f'{name}() missing argument {p!r}')
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise TypeError(f'{name}() takes {len(pos)} arguments, {len(args)} given')
        for x in a.kwonlyargs:
            if x.arg in kw:
                v[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                v[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError(f'{name}() missing keyword argument {x.arg!r}')
        if a.kwarg:
            v[a.kwarg.arg] = kw
        elif kw:
            raise TypeError(f'{name}() got an unexpected keyword argument {next(iter(kw))!r}')
        if pos:
            env.self = v.get(pos[0])

    def run(self, env, node):
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, env)
        if is_gen(node):
            return self.generator(env, node)
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported('recursion too deep')
        g = self.block(node.body, env)
        try:
            for _ in g:
                raise Unsupported('yield outside a generator')
        except Return as r:
            return r.args[0]
        finally:
            self.depth -= 1
        return None

    def generator(self, env, node):
        try:
            yield from self.block(node.body, env)
        except Return as r:
            return r.args[0]

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            yield from self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('path too long')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        r = m(s, env)
        if r is not None:
            yield from r

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, env)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yield_from(s.value, env)
        self.eval(s.value, env)

    def do_yield(self, n, env):
        yield self.eval(n.value, env) if n.value else None

    def do_yield_from(self, n, env):
        for x in self.iterate(self.eval(n.value, env)):
            yield x

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globs |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]:
                    m = getattr(m, p)
            env.set(a.asname or a.name.split('.')[0], m)

    def s_ImportFrom(self, s, env):
        m = __import__(s.module or '', env.globals, None, [a.name for a in s.names], s.level)
        for a in s.names:
            env.set(a.asname or a.name, getattr(m, a.name))

    def s_Assign(self, s, env):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported('value of yield')
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()), ast.Attribute: lambda: None, ast.Subscript: lambda: None}[type(t)](), t) \
            if isinstance(t, ast.Name) else None
        if isinstance(t, ast.Name):
            old = self.eval(load, env)
            new = self.inplace(s.op, old, self.eval(s.value, env))
            env.set(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.eval(s.value, env)))
        else:
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            old = self.models.getitem(self, o, i)
            self.models.setitem(self, o, i, self.inplace(s.op, old, self.eval(s.value, env)))

    def inplace(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list):
            a.extend(self.listed(b))
            return a
        return self.models.binop(self, type(op).__name__, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vs = self.listed(v)
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if any(isinstance(x, Rest) for x in vs[:i] + (vs[len(vs) - (n - i):] if n > i else [])):
                    raise Unsupported('unpacking a list of unknown length')
                if len(vs) < n:
                    raise ValueError('not enough values to unpack')
                k = len(vs) - (n - i)
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:k], env)
                for e, x in zip(t.elts[i + 1:], vs[k:]):
                    self.assign(e, x, env)
            else:
                vs = self.models.exact(self, vs, len(t.elts))
                if len(vs) != len(t.elts):
                    raise ValueError('not enough values to unpack' if len(vs) < len(t.elts) else 'too many values to unpack')
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, n, v):
        if isinstance(o, (Rope, SInt, SBool, Opaque)):
            raise Unsupported(f'attribute of {o}')
        p = inspect.getattr_static(type(o), n, None)
        if isinstance(p, property):
            if p.fset is None:
                raise AttributeError(n)
            self.call(p.fset, (o, v), {})
            return
        if isinstance(o, types.ModuleType):
            raise Unsupported('assignment to a module')
        if isinstance(o, type) and self.ours(o):
            raise Unsupported('assignment to a class')
        setattr(o, n, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            else:
                raise Unsupported('del')

    def s_Return(self, s, env):
        raise Return(self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_If(self, s, env):
        return self.block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AssertionError()

    def truth(self, v):
        return self.models.truth(self, v)

    def loop_spec(self, s, env):
        if not self.loops or env.fn is None:
            return None
        spec = self.loops.get(env.fn)
        if spec is None:
            return None
        if isinstance(spec, Loop):
            return spec
        return spec(self, s, env)

    def s_While(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is not None:
            return self.cut_while(spec, s, env)
        return self.plain_while(s, env)

    def plain_while(self, s, env):
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > self.MAXLOOP:
                raise Unsupported(f'loop without an invariant in {env.fn}')
            try:
                yield from self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        yield from self.block(s.orelse, env)

    def cut_while(self, spec, s, env):
        """loop contract: holds on entry; an arbitrary iteration keeps it; afterwards only it is known"""
        spec.entry(env)
        spec.havoc(env, assigned(s.body))
        if self.truth(self.eval(s.test, env)):
            before = spec.measure(env)
            broke = False
            try:
                yield from self.block(s.body, env)
            except Continue:
                pass
            except Break:
                broke = True
            if broke:
                return      # what follows a break is followed from the state of this iteration
            spec.step(env, before)
            raise PathEnd()
        spec.leave(env)
        yield from self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        spec = self.loop_spec(s, env)
        if spec is not None:
            return self.cut_for(spec, s, env, it)
        return self.plain_for(s, env, it)

    def text_for(self, s, env, it):
        """character by character; a run of unknown characters keeps the invariant of the theorem (vm.chars)"""
        text, n = (it.text, it.start) if isinstance(it, Chars) else (it, None)
        numbered = n is not None
        n = n or 0
        targets = set(assigned([s]))
        for p in list(sym.parts_of(text)):
            act = None if isinstance(p, str) else self.chars.at(p) if self.chars is not None else 'unknown'
            if act == 'skip':
                n = n + p.length
                continue
            if act == 'stop':
                raise StopText()
            if act == 'unknown':
                raise Unsupported(f'loop over the characters of {text!r} needs an invariant')
            if act is None or act == 'one':
                for c in (p if act is None else [sym.rope('s', [p])]):
                    self.assign(s.target, (n, c) if numbered else c, env)
                    try:
                        yield from self.block(s.body, env)
                    except Break:
                        return
                    except Continue:
                        pass
                    n = n + 1
                continue
            if sym.CUR.choose(2) == 0:
                c, k = self.chars.arbitrary(p)
                for v in targets:
                    env.set(v, POISON)
                self.assign(s.target, (n + k, c) if numbered else c, env)
                try:
                    yield from self.block(s.body, env)
                except Break:
                    return
                except Continue:
                    pass
                self.chars.step(p)
                raise PathEnd()
            self.chars.leave(p)
            for v in targets:
                env.set(v, POISON)
            n = n + p.length
        yield from self.block(s.orelse, env)

    def plain_for(self, s, env, it):
        if isinstance(it, (Chars, sym.Rope)):
            yield from self.text_for(s, env, it)
            return
        n = 0
        for x in self.iterate(it):
            n += 1
            if n > 20000:
                raise Unsupported('long loop')
            self.assign(s.target, x, env)
            try:
                yield from self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        yield from self.block(s.orelse, env)

    def cut_for(self, spec, s, env, it):
        spec.entry(env, it)
        spec.havoc(env, assigned(s.body))
        if sym.CUR.choose(2) == 0:
            x = spec.element(env)
            self.assign(s.target, x, env)
            broke = False
            try:
                yield from self.block(s.body, env)
            except Continue:
                pass
            except Break:
                broke = True
            except Return:
                self.left_early(spec)
                raise
            if broke:
                self.left_early(spec)
                return
            spec.step(env, None)
            raise PathEnd()
        spec.leave(env)
        yield from self.block(s.orelse, env)

    def left_early(self, spec):
        """the elements after this one are not seen: what the contract says of an arbitrary one does not hold of them"""
        if not getattr(spec, 'early', False):
            spec.S.check('inv: every element is come to', False, 'the loop ends before the last')

    def iterate(self, it):
        return self.models.iterate(self, it)

    def listed(self, v):
        return list(v) if type(v) in (list, tuple) else list(self.iterate(v))

    def s_FunctionDef(self, s, env):
        f = self.mkfn(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, env), (f,), {})
        env.set(s.name, f)

    def mkfn(self, n, env, name):
        return Fn(self, n, env, tuple(self.eval(d, env) for d in n.args.defaults),
                  {a.arg: self.eval(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, name)

    def s_With(self, s, env):
        return self.with_(s.items, s.body, env)

    def with_(self, items, body, env):
        if not items:
            yield from self.block(body, env)
            return
        m = self.eval(items[0].context_expr, env)
        v = self.call(self.getattr(m, '__enter__'), (), {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        exit_ = self.getattr(m, '__exit__')
        try:
            yield from self.with_(items[1:], body, env)
        except Exception as e:
            if not self.truth(self.call(exit_, (type(e), e, None), {})):
                raise
            return
        except (Return, Break, Continue):
            self.call(exit_, (None, None, None), {})
            raise
        self.call(exit_, (None, None, None), {})

    def s_Raise(self, s, env):
        if s.exc is None:
            e = env
            while e is not None and e.exc is None:
                e = e.up
            raise (e.exc if e is not None else RuntimeError('No active exception to reraise'))
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        raise e

    def s_Try(self, s, env):
        try:
            try:
                yield from self.block(s.body, env)
            except Exception as e:
                self.models.caught(self, e)
                for h in s.handlers:
                    if h.type is None or self.matches(e, self.eval(h.type, env)):
                        saved = env.exc
                        env.exc = e
                        if h.name:
                            env.set(h.name, e)
                        try:
                            yield from self.block(h.body, env)
                        finally:
                            env.exc = saved
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                yield from self.block(s.orelse, env)
        except (Exception, Return, Break, Continue):
            yield from self.block(s.finalbody, env)
            raise
        yield from self.block(s.finalbody, env)

    def matches(self, e, t):
        return isinstance(e, t)

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return env.get(n.id)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def getattr(self, o, name):
        m = self.models.attribute(self, o, name)
        if m is not None:
            return m[0]
        if isinstance(o, Super):
            return o.get(self, name)
        t = type(o)
        if not isinstance(o, type):
            p = inspect.getattr_static(t, name, None)
            if isinstance(p, property) and self.ours(t):
                return self.call(p.fget, (o,), {})
        elif name not in ('__name__', '__qualname__', '__module__', '__dict__', '__class__', '__mro__', '__bases__'):
            p = inspect.getattr_static(o, name, None)
            if isinstance(p, property):
                return p
        return getattr(o, name)

    def e_Subscript(self, n, env):
        return self.models.getitem(self, self.eval(n.value, env), self.eval(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, env):
        return self.eval(n.value, env)

    def e_Tuple(self, n, env):
        return tuple(self.elems(n.elts, env))

    def e_List(self, n, env):
        return self.elems(n.elts, env)

    def e_Set(self, n, env):
        r = self.elems(n.elts, env)
        if symbolic(r):
            raise Unsupported('set of symbolic values')
        return set(r)

    def elems(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env)
                out.extend(v if type(v) in (list, tuple) else self.listed(v))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in self.eval(v, env).items():
                    self.models.setitem(self, d, a, b)
            else:
                self.models.setitem(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def e_BoolOp(self, n, env):
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else t

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        if symbolic(v):
            raise Unsupported('~')
        return ~v

    def e_BinOp(self, n, env):
        return self.models.binop(self, type(n.op).__name__, self.eval(n.left, env), self.eval(n.right, env))

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        r = True
        for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(x, env)
            r = self.models.compare(self, type(op).__name__, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return False
            left = right
        return r

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Lambda(self, n, env):
        return self.mkfn(n, env, '<lambda>')

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        env.set(n.target.id, v)
        return v

    def e_JoinedStr(self, n, env):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                p = v.value
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec else ''
                p = self.models.format(self, x, spec, v.conversion)
            out = sym.cat(out, p)
        return out

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and (e.cls is None or e.self is None):
                e = e.up
            if e is None:
                raise Unsupported('super()')
            return Super(e.cls, e.self)
        f = self.eval(n.func, env)
        args = self.elems(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def comp(self, gens, env, leaf):
        e = Env(env.globals, up=env, fn=env.fn)
        e.cls, e.self = None, None

        def go(i):
            if i == len(gens):
                leaf(e)
                return
            g = gens[i]
            for x in self.iterate(self.eval(g.iter, e if i else env)):
                self.assign(g.target, x, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, n, env):
        m = self.models.mapped(self, n, env)
        if m is not None:
            return m
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def e_GeneratorExp(self, n, env):
        m = self.models.mapped(self, n, env)
        if m is not None:
            return m
        e = Env(env.globals, up=env, fn=env.fn)
        e.cls, e.self = None, None
        first = self.iterate(self.eval(n.generators[0].iter, env))

        def go(i):
            if i == len(n.generators):
                yield self.eval(n.elt, e)
                return
            g = n.generators[i]
            for x in self.iterate(self.eval(g.iter, e)) if i else first:
                self.assign(g.target, x, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    yield from go(i + 1)
        return go(0)

    def e_SetComp(self, n, env):
        r = self.e_ListComp(n, env)
        if symbolic(r):
            raise Unsupported('set of symbolic values')
        return set(r)

    def e_DictComp(self, n, env):
        d = {}
        self.comp(n.generators, env, lambda e: self.models.setitem(self, d, self.eval(n.key, e), self.eval(n.value, e)))
        return d

    def e_Starred(self, n, env):
        raise Unsupported('starred')


class Chars:
    """enumerate(text)"""
    def __init__(self, text, start):
        self.text, self.start = text, start


class StopText(BaseException):
    """the part of a text that the theorem is about has been read"""


class Loop:
    """contract of a loop, by its variables. keep: {name: (at_entry(value), arbitrary() -> value, after_iteration(old, new))};
    element(): an arbitrary element the loop runs over. Other variables set in the body have no value across iterations.
    early: the loop may end before its last element"""
    def __init__(self, S, keep=None, element=None, leave=None, before=None, after=None, state=None, at_entry=None, early=False):
        self.S, self.keep, self.element_, self.leave_ = S, keep or {}, element, leave
        self.before, self.after_, self.at_entry, self.early = before, after, at_entry, early

    def entry(self, env, it=None):
        self.it = it
        if self.at_entry:
            self.at_entry(env, it)
        for n, (e, _, _) in self.keep.items():
            v = env.get(n)
            if e:
                e(v)

    def havoc(self, env, names):
        for n in names:
            if n not in self.keep:
                env.set(n, POISON)
        self.old = {}
        for n, (_, h, _) in self.keep.items():
            v = h()
            env.set(n, v)
            self.old[n] = self.S.copy(v) if isinstance(v, (list, dict)) else v
        if self.before:
            self.before(env)

    def measure(self, env):
        return None

    def element(self, env):
        return self.element_() if self.element_ else None

    def step(self, env, before):
        for n, (_, _, st) in self.keep.items():
            if st:
                st(self.old[n], env.get(n))
        if self.after_:
            self.after_(env)

    def leave(self, env):
        if self.leave_:
            self.leave_(env)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, vm, name):
        return getattr(super(self.cls, self.obj), name)
