"""Symbolic interpreter over the AST of the real source files.

Classes and functions of the verified modules become ordinary Python classes and functions
(so descriptors, inheritance, `super`, properties keep CPython's own semantics); function
bodies are executed by this interpreter, which forks on symbolic conditions and summarises
loops over symbolic sequences.  Annotations and docstrings are the only parts of a function
that are dropped.
"""
from __future__ import annotations

import ast
import collections
import builtins
import functools
import operator
import os
import sys
import types

from .core import Engine, Unsupported, Infeasible, Ctx, Mut, ctx
from .scal import SymBool, SymInt, SymReal, mkbool
import z3

REPO = os.environ.get("PYVC_REPO", "/repo")
SRC = os.path.join(REPO, "src", "mpllayout")


_absent = object()


class _Return(Engine):
    def __init__(self, v):
        self.v = v


class _Break(Engine):
    pass


class _Continue(Engine):
    pass


class StarSeq:
    """`*seq` with a symbolic sequence in a call."""

    def __init__(self, seq):
        self.seq = seq


class FInfo:
    def __init__(self, node, parent, glob, qualname, module, defaults, kwdefaults, kind):
        self.node = node
        self.parent = parent           # enclosing function frame (lexical)
        self.globals = glob
        self.qualname = qualname
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.kind = kind               # 'def' | 'lambda'
        self.defclass = None
        self.fn = None
        self.is_gen = False
        self.locals, self.nonlocals, self.globs = scope_names(node)

    @property
    def label(self):
        return f"{self.module}:{self.qualname}"


class Frame:
    __slots__ = ("vars", "parent", "fi", "globals", "locals", "nonlocals", "globs",
                 "kind", "first", "yields")

    def __init__(self, parent, fi, glob, locs, nonlocals=(), globs=(), kind="func"):
        self.vars = {}
        self.parent = parent
        self.fi = fi
        self.globals = glob
        self.locals = locs
        self.nonlocals = nonlocals
        self.globs = globs
        self.kind = kind
        self.first = None
        self.yields = None


def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            target_names(e, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.locals, self.nonlocals, self.globs = set(), set(), set()
        self.gen = False

    def visit_FunctionDef(self, n):
        self.locals.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.locals.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)

    def _comp(self, n):
        # only the first iterable is evaluated in this scope, plus walrus targets
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.locals.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.locals.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.gen = True
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        self.visit(n.target)
        if n.value:
            self.visit(n.value)


@functools.lru_cache(maxsize=None)
def _scope(node):
    v = _Names()
    body = [node.body] if isinstance(node, ast.Lambda) else node.body
    for s in body:
        v.visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        v.locals.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            v.locals.add(x.arg)
    locs = frozenset(v.locals - v.nonlocals - v.globs)
    return locs, frozenset(v.nonlocals), frozenset(v.globs), v.gen


def scope_names(node):
    return _scope(node)[:3]


def _signature(a):
    import inspect
    P = inspect.Parameter
    pos = a.posonlyargs + a.args
    nd = len(pos) - len(a.defaults)
    ps = []
    for i, p in enumerate(pos):
        kind = P.POSITIONAL_ONLY if i < len(a.posonlyargs) else P.POSITIONAL_OR_KEYWORD
        ps.append(P(p.arg, kind, default=None if i >= nd else P.empty))
    if a.vararg:
        ps.append(P(a.vararg.arg, P.VAR_POSITIONAL))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append(P(p.arg, P.KEYWORD_ONLY, default=None if d is not None else P.empty))
    if a.kwarg:
        ps.append(P(a.kwarg.arg, P.VAR_KEYWORD))
    return inspect.Signature(ps)


def is_interp(fn):
    # functools.wraps copies __dict__, so a wrapper of an interpreted function is not one
    fi = getattr(fn, "__pyvc__", None)
    return fi is not None and fi.fn is fn


_BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
}
_IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
    ast.Pow: operator.ipow, ast.MatMult: operator.imatmul, ast.BitAnd: operator.iand,
    ast.BitOr: operator.ior, ast.BitXor: operator.ixor, ast.LShift: operator.ilshift,
    ast.RShift: operator.irshift,
}
_CMPS = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
    ast.Gt: operator.gt, ast.GtE: operator.ge,
}


class Interp:
    def __init__(self, overrides=None, src=None):
        from . import models
        self.src = src or SRC
        self.modules = {}
        self.overrides = overrides or {}      # module name -> replacement object
        self.models = models.table(self)      # id(callable) -> model
        self._keep = []                       # keep model keys alive
        self.contracts = {}                   # label -> handler(interp, fi, args, kwargs)
        self.pytrees = {}                     # class -> (flatten, unflatten)
        self.depth = 0
        from .loops import opaque_loop
        self.opaque_loop = opaque_loop        # summary of a loop over an opaque sequence
        self.fallback_modules = models.module_proxies(self)
        self.max_depth = 60

    # ------------------------------------------------------------------ modules
    def load(self, name):
        """Interpret the module `mpllayout.<name>` from source."""
        short = name.split(".")[-1]
        if short in self.modules:
            return self.modules[short]
        path = os.path.join(self.src, short + ".py")
        with open(path) as f:
            text = f.read()
        tree = ast.parse(text, path)
        ns = types.SimpleNamespace()
        g = ns.__dict__
        g["__name__"] = f"mpllayout.{short}"
        g["__file__"] = path
        self.modules[short] = ns
        fr = Frame(None, None, g, frozenset(), kind="module")
        fr.vars = g
        self.exec_block(tree.body, fr)
        return ns

    def import_module(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.fallback_modules:
            return self.fallback_modules[name]
        if name.split(".")[0] == "mpllayout":
            return self.load(name) if "." in name else types.SimpleNamespace()
        __import__(name)
        return sys.modules[name]

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        if name in f.globs:
            return self._global(name, f)
        if f.kind == "class":
            if name in f.vars:
                return f.vars[name]
        elif f.kind == "module":
            return self._global(name, f)
        elif name in f.locals:
            if name in f.vars:
                return f.vars[name]
            if f.kind != "comp":
                raise UnboundLocalError(
                    f"cannot access local variable '{name}' where it is not associated with a value")
        f = f.parent
        while f is not None:
            if f.kind not in ("class", "module") and name in f.locals:
                if name in f.vars:
                    return f.vars[name]
                raise NameError(f"free variable '{name}' referenced before assignment")
            f = f.parent
        return self._global(name, fr)

    def _global(self, name, fr):
        g = fr.globals
        if name in g:
            return g[name]
        try:
            return getattr(builtins, name)
        except AttributeError:
            raise NameError(f"name '{name}' is not defined") from None

    def store(self, name, v, fr):
        if name in fr.globs:
            fr.globals[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.kind == "func" and name in f.locals:
                    f.vars[name] = v
                    return
                f = f.parent
            raise Unsupported(f"nonlocal {name}")
        fr.vars[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise _Return(self.eval(s.value, fr) if s.value else None)

    def x_Break(self, s, fr):
        raise _Break()

    def x_Continue(self, s, fr):
        raise _Continue()

    def x_Global(self, s, fr):
        pass
    x_Nonlocal = x_Global

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if fr.kind == "class" and isinstance(s.target, ast.Name):
            fr.vars.setdefault("__annotations__", {})[s.target.id] = object
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = _IBINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            self.store(t.id, self.binop(op, old, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            setattr(o, t.attr, self.binop(op, old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, old, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise NameError(t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Attribute):
                delattr(self.eval(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                o, i = self.eval(t.value, fr), self.eval(t.slice, fr)
                del o[i]
            else:
                raise Unsupported("del")

    def x_If(self, s, fr):
        self.exec_block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError(self.eval(s.msg, fr) if s.msg else "")

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = self._handling[-1] if getattr(self, "_handling", None) else None
            if e is None:
                raise RuntimeError("No active exception to reraise")
            raise e
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = e()
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            raise e from (c() if isinstance(c, type) else c)
        raise e

    def x_Try(self, s, fr):
        if not hasattr(self, "_handling"):
            self._handling = []
        try:
            try:
                self.exec_block(s.body, fr)
            except Exception as e:
                from .core import internal_error
                if Ctx.current is not None and internal_error(e):
                    raise Unsupported("internal error: " + internal_error(e))
                for h in s.handlers:
                    if h.type is None or isinstance(e, self.eval(h.type, fr)):
                        if h.name:
                            self.store(h.name, e, fr)
                        self._handling.append(e)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self._handling.pop()
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (_Return, _Break, _Continue, Exception):
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        self._with(list(s.items), s.body, fr)

    def _with(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        v = type(cm).__enter__(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self._with(items[1:], body, fr)
        except (_Return, _Break, _Continue):
            type(cm).__exit__(cm, None, None, None)
            raise
        except Exception as e:
            if not type(cm).__exit__(cm, type(e), e, e.__traceback__):
                raise
        except BaseException:
            # engine exception: leave the block without running user code
            try:
                type(cm).__exit__(cm, None, None, None)
            except BaseException:
                pass
            raise
        else:
            type(cm).__exit__(cm, None, None, None)

    def x_While(self, s, fr):
        from .loops import while_loop
        while_loop(self, s, fr)

    def x_For(self, s, fr):
        from .loops import for_loop
        for_loop(self, s, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                fr.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                fr.vars[top] = self.import_module(top)

    def x_ImportFrom(self, s, fr):
        if s.level:
            base = "mpllayout" + ("." + s.module if s.module else "")
        else:
            base = s.module
        for a in s.names:
            if a.name == "*":
                m = self.import_module(base)
                for k, v in vars(m).items():
                    if not k.startswith("_"):
                        fr.vars[k] = v
                continue
            if base == "mpllayout":
                v = self.load(a.name)
            else:
                m = self.import_module(base)
                try:
                    v = getattr(m, a.name)
                except AttributeError:
                    v = self.import_module(base + "." + a.name)
            fr.vars[a.asname or a.name] = v

    def x_FunctionDef(self, s, fr):
        fn = self.make_function(s, fr)
        for d in reversed(s.decorator_list):
            fn = self.call(self.eval(d, fr), [fn], {})
        self.store(s.name, fn, fr)

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        kw = {k.arg: self.eval(k.value, fr) for k in s.keywords}
        qual = self._qual(fr, s.name)
        made = []

        def body(ns):
            cf = Frame(fr, fr.fi, fr.globals, frozenset(), kind="class")
            cf.vars = ns
            ns["__module__"] = fr.globals.get("__name__", "?")
            ns["__qualname__"] = qual
            self._classstack = getattr(self, "_classstack", [])
            self._classstack.append((qual, made))
            try:
                self.exec_block(s.body, cf)
            finally:
                self._classstack.pop()
        cls = types.new_class(s.name, tuple(bases), kw, body) if not _needs_resolve(bases) \
            else _new_class(s.name, bases, kw, body)
        if Ctx.current is not None:
            Ctx.current.made(cls)
        for fi in made:
            fi.defclass = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, fr), [cls], {})
        self.store(s.name, cls, fr)

    def _qual(self, fr, name):
        if fr.kind == "class":
            return fr.vars["__qualname__"] + "." + name
        if fr.kind in ("func", "comp") and fr.fi is not None:
            return fr.fi.qualname + ".<locals>." + name
        return name

    def make_function(self, s, fr):
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr)
               for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = s.name if isinstance(s, ast.FunctionDef) else "<lambda>"
        parent = fr
        fi = FInfo(s, parent if parent.kind != "module" else None, fr.globals,
                   self._qual(fr, name), fr.globals.get("__name__", "?"), defaults, kwd,
                   "def" if isinstance(s, ast.FunctionDef) else "lambda")
        fi.is_gen = _scope(s)[3]
        if fr.kind == "class" and getattr(self, "_classstack", None):
            self._classstack[-1][1].append(fi)
        interp = self

        def fn(*args, **kwargs):
            return interp.call_function(fi, list(args), kwargs)
        fn.__name__ = name
        fn.__qualname__ = fi.qualname
        fn.__module__ = fi.module
        fn.__doc__ = ast.get_docstring(s) if isinstance(s, ast.FunctionDef) else None
        fn.__pyvc__ = fi
        fi.fn = fn
        fn.__signature__ = _signature(a)
        return fn

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if not stars:
                vs = self.unpack(v, n)
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, fr)
            else:
                i = stars[0]
                head, mid, tail = self.unpack_star(v, i, n - i - 1)
                for e, x in zip(t.elts[:i], head):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, mid, fr)
                for e, x in zip(t.elts[i + 1:], tail):
                    self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        from .seq import as_vseq, VSeq
        sv = as_vseq(v, self, native_ok=False)
        if sv is not None:
            ln = sv.length()
            if self.truth(mkcmp(ln, n, "<")):
                raise ValueError(f"not enough values to unpack (expected {n})")
            if self.truth(mkcmp(ln, n, ">")):
                raise ValueError(f"too many values to unpack (expected {n})")
            return [sv.at(i) for i in range(n)]
        it = list(self.iterate(v))
        if len(it) < n:
            raise ValueError(f"not enough values to unpack (expected {n}, got {len(it)})")
        if len(it) > n:
            raise ValueError(f"too many values to unpack (expected {n})")
        return it

    def unpack_star(self, v, a, b):
        from .seq import as_vseq
        h = getattr(v, "__pyvc_unpack_star__", None)
        if h is not None:
            return h(a, b)
        sv = as_vseq(v, self, native_ok=False)
        if sv is not None:
            ln = sv.length()
            if self.truth(mkcmp(ln, a + b, "<")):
                raise ValueError("not enough values to unpack")
            return ([sv.at(i) for i in range(a)], sv.slice(a, ln - b if b else None).kindly("list"),
                    [sv.at(ln - b + i) for i in range(b)])
        from .seq import PyList
        it = list(self.iterate(v))
        if len(it) < a + b:
            raise ValueError(f"not enough values to unpack (expected at least {a + b}, got {len(it)})")
        return it[:a], PyList(it[a:len(it) - b]), it[len(it) - b:]

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    symbolic_pi = False

    def getattr(self, o, name):
        if name == "__name__" and isinstance(o, type) and "__pyvc_name__" in o.__dict__:
            return o.__dict__["__pyvc_name__"]
        if name == "pi" and self.symbolic_pi and Ctx.current is not None and \
                getattr(o, "__name__", "") in ("numpy", "math", "jax.numpy"):
            from .scal import pi
            return pi()
        return getattr(o, name)

    def to_str(self, x, spec=None):
        if isinstance(x, (SymReal, SymInt, SymBool)) or getattr(type(x), "__pyvc_sym__", False):
            return opaque_text(x)
        if spec:
            return format(x, spec)
        m = getattr(type(x), "__str__", None)
        if m is not None and is_interp(m):
            return self.call_function(m.__pyvc__, [x], {})
        return str(x) if not _has_sym(x) else opaque_text(x)

    def to_repr(self, x):
        if isinstance(x, (SymReal, SymInt, SymBool)) or getattr(type(x), "__pyvc_sym__", False):
            return opaque_text(x)
        m = getattr(type(x), "__repr__", None)
        if m is not None and is_interp(m):
            return self.call_function(m.__pyvc__, [x], {})
        return repr(x) if not _has_sym(x) else opaque_text(x)

    def setattr(self, o, name, v):
        h = getattr(type(o), "__pyvc_setattr__", None)
        if h is not None:
            return h(o, name, v)
        c = Ctx.current
        from .strs import SymStr
        if name == "__name__" and isinstance(o, type):
            name = "__pyvc_name__" if isinstance(v, SymStr) else name
        if c is not None and isinstance(o, type):
            def snap():
                return o.__dict__.get(name, _absent)

            def restore(st):
                if st is not _absent:
                    type.__setattr__(o, name, st)
                elif name in o.__dict__:
                    type.__delattr__(o, name)
            c.mutations.append(Mut(o, snap, restore, name))
        elif c is not None:
            def snap():
                return getattr(o, "__dict__", {}).get(name, _absent)

            def restore(st):
                if st is _absent:
                    getattr(o, "__dict__", {}).pop(name, None)
                else:
                    object.__setattr__(o, name, st)
            if hasattr(o, "__dict__"):
                c.mutations.append(Mut(o, snap, restore, name))
        setattr(o, name, v)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*(self.eval(x, fr) if x is not None else None
                       for x in (e.lower, e.upper, e.step)))

    def getitem(self, o, i):
        from .seq import as_vseq, symbolic_index, dict_to_sym
        from .strs import SymStr
        if isinstance(o, (list, tuple, range, str)) and symbolic_index(i):
            if isinstance(o, str):
                return SymStr.of(o)[i]
            return as_vseq(o, self)[i]
        if type(o) is dict and not _hashable(i):
            return dict_to_sym(o)[i]
        if type(o) is tuple and isinstance(i, slice):
            return o[i]
        m = getattr(type(o), "__getitem__", None)
        if m is not None and is_interp(m):
            return self.call_function(m.__pyvc__, [o, i], {})
        return o[i]

    def setitem(self, o, i, v):
        if type(o) is dict and not _hashable(i):
            raise Unsupported("symbolic key stored in a concrete dict")
        import numpy as np
        c = Ctx.current
        if c is not None and isinstance(o, np.ndarray):
            def snap():
                return o.copy()

            def restore(st):
                o[...] = st
            c.mutations.append(Mut(o, snap, restore))
            if o.dtype != object and _has_sym(v):
                raise Unsupported("symbolic value stored in a float array")
        elif c is not None and type(o) in (list, dict):
            c.mutations.append(Mut(o, o.copy, lambda st: (o.clear(), o.update(st)) if isinstance(o, dict)
                                   else o.__setitem__(slice(None), st)))
        o[i] = v

    def e_Tuple(self, e, fr):
        return self._display(e.elts, fr, "tuple")

    def e_List(self, e, fr):
        return self._display(e.elts, fr, "list")

    def _display(self, elts, fr, kind):
        from .seq import VSeq, as_vseq, PyList
        out = []
        sym = False
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                sv = as_vseq(v, self, native_ok=False)
                if sv is not None:
                    sym = True
                    out.append(sv)
                else:
                    out.extend(("u", y) for y in self.iterate(v))
            else:
                out.append(("u", self.eval(x, fr)))
        if sym:
            r = VSeq.empty(kind)
            for o in out:
                r = r.concat(o if isinstance(o, VSeq) else VSeq.unit(o[1], kind))
            return r.kindly(kind)
        vals = [o[1] for o in out]
        if kind == "tuple":
            return tuple(vals)
        return PyList(vals) if Ctx.current is not None else vals

    def e_Set(self, e, fr):
        return self.build_set([self.eval(x, fr) for x in e.elts])

    def build_set(self, vals):
        if all(_hashable(v) for v in vals):
            return set(vals)
        from .loops import SetOf
        from .seq import VSeq
        return SetOf(VSeq.of(vals))

    def e_Dict(self, e, fr):
        from .seq import PyDict, to_content
        d = PyDict() if Ctx.current is not None else {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, fr)
                if isinstance(m, dict):
                    d.update(m)
                else:
                    for kk in self.iterate(m):
                        d[kk] = self.getitem(m, kk)
            else:
                kk = self.eval(k, fr)
                d[kk] = self.eval(v, fr)
        return d

    def build_dict(self, items):
        from .seq import PyDict
        d = PyDict() if Ctx.current is not None else {}
        for k, v in items:
            d[k] = v
        return d

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, e, fr):
        return self.binop(_BINOPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        from .strs import SymStr
        if op in (operator.truediv, operator.itruediv) and isinstance(a, int) and isinstance(b, int) \
                and not isinstance(a, bool) and b != 0 and (a % b) and (b & (b - 1)):
            from .scal import realval
            from fractions import Fraction
            if Ctx.current is not None:
                return SymReal(realval(Fraction(a, b)))
        if op in (operator.add, operator.iadd) and isinstance(a, str) and isinstance(b, SymStr):
            return SymStr.of(a) + b
        if op in (operator.mod, operator.imod) and type(a) is str and _has_sym(b):
            from .strs import str_percent
            return str_percent(a, b, self)
        if op in (operator.add, operator.iadd) and isinstance(a, tuple):
            from .seq import VSeq
            if isinstance(b, VSeq):
                return b.__radd__(a)
        if op in (operator.mul, operator.imul):
            from .seq import is_seqlike, repeat
            if is_seqlike(a) and isinstance(b, (int, SymInt)) or is_seqlike(b) and isinstance(a, (int, SymInt)):
                return repeat(a, b) if is_seqlike(a) else repeat(b, a)
        # dispatch interpreted dunders through the interpreter so that NotImplemented works
        return op(a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return v
            res = v
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            v = self.identical(a, b)
            return mkbool(z3.Not(v.t)) if isinstance(v, SymBool) else not v
        if isinstance(op, (ast.In, ast.NotIn)):
            v = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return mkbool(z3.Not(v.t)) if isinstance(v, SymBool) else not v
            return v
        return _CMPS[type(op)](a, b)

    def identical(self, a, b):
        h = getattr(a, "__pyvc_is__", None)
        if h is not None:
            r = h(b)
            if r is not NotImplemented:
                return r
        h = getattr(b, "__pyvc_is__", None)
        if h is not None:
            r = h(a)
            if r is not NotImplemented:
                return r
        if a is not b and hasattr(a, "__dict__") and hasattr(b, "__dict__"):
            # two nodes of one symbolic tree may be one object
            ta, tb = a.__dict__.get("__pyvc_term__"), b.__dict__.get("__pyvc_term__")
            if ta is not None and tb is not None \
                    and a.__dict__.get("__pyvc_trees__") is b.__dict__.get("__pyvc_trees__") is not None:
                return mkbool(ta == tb)
        return a is b

    def contains(self, c, x):
        from .strs import SymStr
        from .seq import PyDict, VSeq, PyList
        h = getattr(type(c), "__pyvc_contains__", None)
        if h is not None:
            return h(c, self, x)
        if isinstance(c, PyDict):
            return x in c
        if isinstance(c, VSeq) or isinstance(c, PyList) and c._sym is not None:
            from .models import some
            v = c if isinstance(c, VSeq) else c._sym
            if v.concrete() is None:
                return some(self, v.map(lambda y: y == x))
            c = v.concrete()
        if isinstance(c, SymStr) or isinstance(c, str) and isinstance(x, SymStr):
            return SymStr.of(c).contains(x)
        if type(c) in (dict, set, frozenset) and not _hashable(x):
            vals = list(c)
            acc = False
            for k in vals:
                eq = (k == x)
                if isinstance(eq, SymBool):
                    acc = eq if acc is False else mkbool(z3.Or(acc.t, eq.t))
                elif eq is True:
                    return True
            return acc
        m = getattr(type(c), "__contains__", None)
        if m is not None:
            if is_interp(m) or hasattr(type(c), "__pyvc_sym__"):
                r = self.call(m, [c, x], {})
                return r if isinstance(r, SymBool) else self.truth(r)
            if isinstance(c, (list, tuple)):
                acc = False
                for y in c:
                    eq = True if y is x else (y == x)
                    if isinstance(eq, SymBool):
                        acc = eq if acc is False else mkbool(z3.Or(acc.t, eq.t))
                    elif eq is True or (eq is not False and eq is not NotImplemented and self.truth(eq)):
                        return True
                return acc
            return x in c
        for y in self.iterate(c):
            if y is x or self.truth(y == x):
                return True
        return False

    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, (SymBool, SymInt, SymReal)):
            return bool(v)
        h = getattr(type(v), "__pyvc_truth__", None)
        if h is not None:
            return self.truth(h(v))
        t = type(v)
        for nm in ("__bool__", "__len__"):
            m = getattr(t, nm, None)
            if m is not None:
                if is_interp(m):
                    r = self.call(m, [v], {})
                    return self.truth(r) if nm == "__bool__" else self.truth(mkcmp(r, 0, "!="))
                break
        return bool(v)

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.kind == "comp":
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr)

    def e_JoinedStr(self, e, fr):
        from .strs import concat, fmt
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                parts.append(fmt(self, x, v.conversion, spec))
        return concat(parts)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_ListComp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr, "iter")

    def e_SetComp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr, "set")

    def e_DictComp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr, "dict")

    def e_Yield(self, e, fr):
        f = fr
        while f.kind != "func":
            f = f.parent
        v = self.eval(e.value, fr) if e.value else None
        f.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        from .seq import as_vseq
        f = fr
        v = self.eval(e.value, fr)
        sv = as_vseq(v, self, native_ok=False)
        f.yields.extend(sv if sv is not None else list(self.iterate(v)))
        return None

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """Concrete iteration (elements may be symbolic)."""
        from .seq import VSeq, as_vseq
        sv = as_vseq(v, self, native_ok=False)
        if sv is not None:
            c = sv.concrete()
            if c is None:
                raise Unsupported("iteration over a sequence of symbolic length")
            return iter(c)
        m = getattr(type(v), "__iter__", None)
        if m is not None and is_interp(m):
            return self.iterate(self.call(m, [v], {}))
        return iter(v)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if self.lookup("super", fr) is builtins.super:
                f = fr
                while f is not None and not (f.kind == "func" and f.fi.defclass is not None):
                    f = f.parent
                if f is None:
                    raise RuntimeError("super(): no arguments")
                return super(f.fi.defclass, f.first)
        fn = self.eval(e.func, fr)
        args, kwargs = [], {}
        from .seq import as_vseq
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                sv = as_vseq(v, self, native_ok=False)
                if sv is not None:
                    c = sv.concrete()
                    if c is not None:
                        args.extend(c)
                    else:
                        args.append(StarSeq(sv))
                else:
                    args.extend(self.iterate(v))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, fr)
                for kk in self.iterate(m):
                    kwargs[kk] = m[kk]
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kwargs)

    def call(self, fn, args, kwargs):
        try:
            k = getattr(fn, "__pyvc_fn__", fn)
            m = self.models.get(k) if not isinstance(fn, types.MethodType) else None
        except TypeError:
            m = None
        if m is not None:
            r = m(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(fn, types.MethodType):
            if is_interp(fn.__func__):
                return self.call_function(fn.__func__.__pyvc__, [fn.__self__] + args, kwargs)
            h = getattr(fn.__func__, "__pyvc_star__", False)
            if h:
                return fn(*args, **kwargs)
        elif is_interp(fn):
            return self.call_function(fn.__pyvc__, args, kwargs)
        elif isinstance(fn, type):
            mc = getattr(fn, "__pyvc_construct__", None)
            if mc is not None:
                return mc(self, args, kwargs)
            if Ctx.current is not None and not any(isinstance(a, StarSeq) for a in args):
                r = fn(*args, **kwargs)
                if (hasattr(r, "__dict__") or isinstance(r, CONTAINERS)) and not isinstance(r, type):
                    Ctx.current.made(r)
                return r
        elif getattr(fn, "__pyvc_star__", False):
            return fn(*args, **kwargs)
        if any(isinstance(a, StarSeq) for a in args):
            c = getattr(fn, "__call__", None)
            if isinstance(c, types.MethodType) and is_interp(c.__func__):
                return self.call_function(c.__func__.__pyvc__, [c.__self__] + args, kwargs)
            raise Unsupported(f"symbolic *args passed to {fn!r}")
        if isinstance(fn, types.BuiltinFunctionType) and type(fn.__self__) is str:
            from .strs import str_method
            r = str_method(fn.__self__, fn.__name__, args, self, kwargs)
            if r is not NotImplemented:
                return r
        if Ctx.current is not None and getattr(fn, "__name__", "") in MUTATORS:
            log_native(getattr(fn, "__self__", None))
        if getattr(fn, "__name__", "") == "__new__" and Ctx.current is not None:
            return Ctx.current.made(fn(*args, **kwargs))
        return fn(*args, **kwargs)

    def call_function(self, fi, args, kwargs):
        from .seq import VSeq
        h = self.contracts.get(fi.label)
        if h is not None:
            r = h(self, fi, args, kwargs)
            if r is not NotImplemented:
                if Ctx.current is not None:
                    Ctx.current.report.contracts.add(fi.label)
                return r
        if Ctx.current is not None:
            Ctx.current.report.functions.add(fi.label)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth = 0
            raise Unsupported(f"call depth (unbounded recursion without contract) at {fi.label}")
        try:
            fr = Frame(fi.parent, fi, fi.globals, fi.locals, fi.nonlocals, fi.globs)
            self.bind(fi, fr, args, kwargs)
            if fi.kind == "lambda":
                return self.eval(fi.node.body, fr)
            if fi.is_gen:
                from .seq import PyList, VSeq
                fr.yields = PyList()
            try:
                self.exec_block(fi.node.body, fr)
            except _Return as r:
                if not fi.is_gen:
                    return r.v
            if fi.is_gen:
                out = fr.yields.state()
                if out.concrete() is None:
                    return VSeq(out.segs, "iter").kindly("iter")
                return iter(list(out.concrete()))
            return None
        finally:
            self.depth = max(0, self.depth - 1)

    def bind(self, fi, fr, args, kwargs):
        from .seq import VSeq
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        args = list(args)
        # expand symbolic star arguments into positional parameters where needed
        n = 0
        while n < len(pos) and args:
            x = args[0]
            if isinstance(x, StarSeq):
                ln = x.seq.length()
                if a.vararg is not None and n == len(pos):
                    break
                # how many remaining positionals can it fill?
                if self.truth(mkcmp(ln, 0, "==")):
                    args.pop(0)
                    continue
                vals[pos[n]] = x.seq.at(0)
                args[0] = StarSeq(x.seq.slice(1, None))
                n += 1
                continue
            vals[pos[n]] = x
            args.pop(0)
            n += 1
        while args and isinstance(args[0], StarSeq) and a.vararg is None:
            if self.truth(mkcmp(args[0].seq.length(), 0, "==")):
                args.pop(0)
            else:
                break
        if args and a.vararg is None:
            raise TypeError(f"{fi.qualname}() takes {len(pos)} positional arguments but more were given")
        if a.vararg is not None:
            if any(isinstance(x, StarSeq) for x in args):
                s = VSeq.empty("tuple")
                for x in args:
                    s = s.concat(x.seq if isinstance(x, StarSeq) else VSeq.unit(x))
                vals[a.vararg.arg] = s.kindly("tuple")
            else:
                vals[a.vararg.arg] = tuple(args)
        ponly = {x.arg for x in a.posonlyargs}
        for p in pos:
            if p in kwargs and p not in ponly:
                if p in vals:
                    raise TypeError(f"{fi.qualname}() got multiple values for argument '{p}'")
                vals[p] = kwargs.pop(p)
        nd = len(fi.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = fi.defaults[j]
                else:
                    raise TypeError(f"{fi.qualname}() missing required positional argument: '{p}'")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in fi.kwdefaults:
                vals[x.arg] = fi.kwdefaults[x.arg]
            else:
                raise TypeError(f"{fi.qualname}() missing required keyword-only argument: '{x.arg}'")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f"{fi.qualname}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        fr.vars.update(vals)
        if pos:
            fr.first = vals[pos[0]]


def opaque_text(x):
    """The printed form of a symbolic value: an unconstrained string."""
    from .strs import SymStr
    c = ctx()
    return SymStr.term(z3.String(c.fresh("text")))


def _has_sym(x):
    if isinstance(x, (SymReal, SymInt, SymBool)) or getattr(type(x), "__pyvc_sym__", False):
        return True
    if isinstance(x, (list, tuple)):
        return getattr(x, "_sym", None) is not None or any(_has_sym(y) for y in list.__iter__(x)) \
            if isinstance(x, list) else any(_has_sym(y) for y in x)
    if isinstance(x, dict):
        return getattr(x, "_sym", None) is not None or any(_has_sym(y) for y in dict.values(x))
    import numpy as np
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(_has_sym(y) for y in x.ravel())
    return False


def mkcmp(a, b, op):
    f = {"<": operator.lt, ">": operator.gt, "==": operator.eq, "!=": operator.ne,
         "<=": operator.le, ">=": operator.ge}[op]
    return f(a, b)


def _hashable(x):
    from .strs import SymStr
    from .seq import VSeq
    if isinstance(x, (str, int, float, type(None), type, bool)):
        return True
    if isinstance(x, (SymStr, SymInt, SymReal, SymBool, VSeq)):
        return False
    if getattr(type(x), "__pyvc_sym__", False):
        return getattr(x, "__pyvc_hashable__", False)
    if isinstance(x, tuple):
        return all(_hashable(y) for y in x)
    return True


def _needs_resolve(bases):
    return any(not isinstance(b, type) for b in bases)


def _new_class(name, bases, kw, body):
    rb = types.resolve_bases(bases)

    def body2(ns):
        if rb is not bases:
            ns["__orig_bases__"] = tuple(
                getattr(b, "base", b) if hasattr(type(b), "__pyvc_sym__") else b for b in bases)
        body(ns)
    return types.new_class(name, rb, kw, body2)


CONTAINERS = (set, list, dict, collections.deque)
MUTATORS = {"add", "discard", "remove", "update", "pop", "clear", "append", "extend", "insert", "popitem",
            "setdefault", "sort", "reverse", "appendleft", "popleft", "extendleft", "rotate",
            "intersection_update", "difference_update", "symmetric_difference_update", "move_to_end",
            "subtract", "fill", "put", "itemset"}


def log_native(o):
    """Record the content of a native container before a method that may change it."""
    from .seq import PyList, PyDict
    if isinstance(o, (PyList, PyDict)):
        return
    if isinstance(o, (set, dict)):
        def restore(st):
            o.clear()
            o.update(st)
        Ctx.current.mutations.append(Mut(o, o.copy, restore))
    elif isinstance(o, (list, collections.deque)):
        def restore(st):
            o.clear()
            o.extend(st)
        Ctx.current.mutations.append(Mut(o, lambda: list(o), restore))
    elif type(o).__name__ == "ndarray":
        def restore(st):
            o[...] = st
        Ctx.current.mutations.append(Mut(o, o.copy, restore))
