"""C18: the solver works on the real layout.

An arbitrary layout (C16) with `count` distinct parameter vectors U(0), U(1), ... and n
constraints.  The functions the solver calls are used by their contracts: extraction and rebuild
of parameter vectors (C06), flattening (C02) and flat_constraints (C16); a constraint is an
arbitrary function of the primitives and parameters it is given.

Global vectors are combinations of basic vectors: the start (the concatenation of the U(m)), the
points X(i) of the iteration, res(x) and the least-squares solutions lsq(A, b).  off(m) is the
position of vector m: off(0) = 0, off(m + 1) = off(m) + size(U(m)).

  spec residual at x   [con_0(T[k_00], T[k_01], ...; p_0), con_1(...), ...], where T is the tree
                       rebuilt from the slices x[off(m):off(m + 1)]

Whenever a residual list is concatenated, it has to be the spec residual at the x whose slices
made the tree; then the result is res(x).  The loop is summarised by its invariant: X is the
recurrence that the body defines, the lists gain one entry per iteration.
"""
from __future__ import annotations

import jax.numpy as jnp
from scipy.optimize import minimize

from .c16 import *
from .c06 import Ident, U, count
from .c11 import SymVec
from ..core import Mut

G = z3.DeclareSort("Vector")
Mt = z3.DeclareSort("Matrix")
comp = z3.Function("component", G, I, z3.RealSort())
startv = z3.Const("start", G)
resf = z3.Function("res", G, G)
jacf = z3.Function("jac", G, Mt)
lsqf = z3.Function("lsq", Mt, G, G)
nrmf = z3.Function("norm", G, z3.RealSort())
sumf = z3.Function("sum", G, z3.RealSort())
sizef = z3.Function("vector_size", Opaque.Sort, I)
off = z3.Function("position", I, I)
ncon = z3.Int("number_of_constraints")
nkeys = z3.Function("number_of_prim_keys", I, I)
pkey = z3.Function("prim_key_of", I, I, S)
pars = z3.Function("params_of", I, Par)


class Closed:
    """A value the code may only pass on: every other use is not supported."""
    __pyvc_sym__ = True
    __array_ufunc__ = None
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__") or name in ("t", "z3bool"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of a {type(self).__name__}")

    def _no(self, *a):
        raise Unsupported(f"use of a {type(self).__name__}")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __neg__ = __pow__ = __truediv__ = _no
    __matmul__ = __rmatmul__ = __iadd__ = __isub__ = __imul__ = _no
    __getitem__ = __setitem__ = __iter__ = __len__ = __contains__ = __call__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __abs__ = __float__ = __array__ = _no
    __bool__ = __pyvc_truth__ = __pyvc_len__ = _no


def offset(i):
    """off(i) with its definition and the facts of the lemma `positions`."""
    c = ctx()
    z = zint(i)
    c.assume(z3.And(off(0) == 0, count >= 0))
    for k in (z, z - 1):
        c.assume(z3.Implies(z3.And(k >= 0, k < count), z3.And(
            off(k + 1) == off(k) + sizef(U(k)), sizef(U(k)) >= 0)))
    c.assume(z3.Implies(z3.And(z >= 0, z <= count), z3.And(off(z) >= 0, off(z) <= off(count))))
    return SymInt(off(z))


class ParVec(Ident):
    """A parameter vector of the layout."""

    @property
    def size(self):
        ctx().assume(sizef(self.t) >= 0)
        if self.t.decl().name() == U.name():
            offset(self.t.arg(0) + 1)
        return SymInt(sizef(self.t))

    shape = property(lambda self: (self.size,))
    ndim = 1

    def __pyvc_len__(self):
        return self.size

    def copy(self):
        return self

    def piece(self):
        """The slice of the start that has the same value (contract of np.concatenate)."""
        if self.t.decl().name() != U.name():
            raise Unsupported("a parameter vector")
        m = self.t.arg(0)
        return Piece(Lin.of(startv), offset(m), offset(m + 1))


def number(x):
    return SymReal.lift(x) if not isinstance(x, bool) else None


class Lin(Closed):
    """A linear combination of basic vectors (all of one size)."""
    __pyvc_type__ = np.ndarray
    __pyvc_free__ = True
    ndim = 1

    def __init__(self, parts, jax=False):
        self.parts = parts              # {term text: (coefficient, term)}
        self.jax = jax                  # arrays of jax are never changed in place
        ctx().made(self)

    @staticmethod
    def of(t, k=None):
        return Lin({t.sexpr(): (z3.RealVal(1) if k is None else k, t)})

    def __pyvc_kind__(self):
        return G, Lin.of

    def term(self):
        """One term of sort G (by name, when it is a proper combination)."""
        if len(self.parts) == 1:
            (k, t), = self.parts.values()
            if z3.is_rational_value(k) and k.as_fraction() == 1:
                return t
        ctx().inexact("combinations of vectors are compared by their text")
        return z3.Const("combination " + " ".join(
            f"{k.sexpr()} {s}" for s, (k, t) in sorted(self.parts.items())), G)

    def one(self):
        """(coefficient, basic vector) of a multiple of one basic vector."""
        if len(self.parts) != 1:
            return z3.RealVal(1), self.term()
        return list(self.parts.values())[0]

    # ---- arithmetic
    def __iadd__(self, o):
        new = self + o
        if self.jax or not isinstance(new, Lin):
            return new
        # a numpy array is changed in place
        def restore(v):
            self.parts = v.parts
        ctx().mutations.append(Mut(self, lambda: Lin(self.parts), restore))
        self.parts = new.parts
        return self

    def __isub__(self, o):
        return self.__iadd__(-o)

    def __add__(self, o):
        if not isinstance(o, Lin):
            return NotImplemented
        out = dict(self.parts)
        for s, (k, t) in o.parts.items():
            if s in out:
                k = z3.simplify(out[s][0] + k)
            if z3.is_rational_value(k) and k.as_fraction() == 0:
                out.pop(s, None)
            else:
                out[s] = (k, t)
        return Lin(out, self.jax or o.jax)

    def __mul__(self, k):
        k = number(k) if isinstance(k, (int, float, SymInt, SymReal, np.generic)) else None
        if k is None:
            raise Unsupported("product of vectors")
        return Lin({s: (z3.simplify(k * q), t) for s, (q, t) in self.parts.items()}, self.jax)

    __rmul__ = __mul__

    def __truediv__(self, k):
        if isinstance(k, (int, float, SymInt, SymReal)):
            return self * (1 / SymReal(SymReal.lift(k)))
        raise Unsupported("quotient of vectors")

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -o if isinstance(o, Lin) else NotImplemented

    def __pow__(self, k):
        if isinstance(k, int) and k == 2:
            return Squares(self)
        raise Unsupported("power of a vector")

    def __matmul__(self, o):
        if isinstance(o, Lin):
            return inner(self, o)
        raise Unsupported("matrix product")

    dot = __matmul__
    T = property(lambda self: self)

    def copy(self):
        return Lin(self.parts)
    flatten = copy


    # ---- slices
    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("an element of a global vector")
        offset(0)
        a = SymInt(z3.IntVal(0)) if s.start is None else s.start
        b = SymInt(off(count)) if s.stop is None else s.stop
        return Piece(self, a, b)

    # ---- comparison
    def value(self, i):
        return z3.Sum([k * comp(t, i) for k, t in self.parts.values()] + [z3.RealVal(0)])

    def equal(self, o):
        i = z3.Int(ctx().fresh("component"))
        return self.value(i) == o.value(i)

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Lin):
            return ctx().fail(name, f"a vector against {type(o).__name__}")
        ctx().prove(name, self.equal(o))

    def __repr__(self):
        return "Lin(" + " + ".join(f"{k}*{s}" for s, (k, _) in self.parts.items()) + ")"


class Piece(Closed):
    """x[a:b] for a global vector x."""
    __pyvc_type__ = np.ndarray
    ndim = 1

    def __init__(self, x, a, b):
        self.x, self.a, self.b = x, a, b

    def copy(self):
        return Piece(self.x.copy(), self.a, self.b)

    def __pyvc_same__(self, name, o):
        c = ctx()
        if isinstance(o, ParVec):
            o = o.piece()
        if not isinstance(o, Piece):
            return c.fail(name, f"a slice against {type(o).__name__}")
        c.prove(name, z3.And(zint(self.a) == zint(o.a), zint(self.b) == zint(o.b)))
        same(name, self.x, o.x)



class Squares(Closed):
    """The squares of the components of a vector."""
    __pyvc_type__ = np.ndarray

    def __init__(self, x):
        self.x = x

    def sum(self):
        return inner(self.x, self.x)


def inner(x, y):
    if x is not y and x.parts.keys() != y.parts.keys():
        raise Unsupported("inner product of different vectors")
    k, t = x.one()
    q, _ = y.one()
    n = norm_of(t).t
    return SymReal(k * q * n * n)


def norm_of(t):
    n = nrmf(t)
    ctx().assume(n >= 0)
    return SymReal(n)


def norm(x):
    k, t = x.one()
    if not z3.is_rational_value(k):
        k = z3.If(k >= 0, k, -k)
    elif k.as_fraction() < 0:
        k = -k
    return SymReal(z3.simplify(k * norm_of(t).t))


class Mat(Closed):
    """A multiple of the Jacobian at a point."""
    __pyvc_type__ = np.ndarray

    def __init__(self, t, k=1):
        self.t, self.k = t, k

    def __neg__(self):
        return Mat(self.t, -self.k)



class PInv(Closed):
    """The Moore-Penrose inverse of a matrix."""

    def __init__(self, m):
        self.m = m

    def __matmul__(self, b):
        return lsq(self.m, b)


def lsq(A, b, f=lsqf):
    """The least-squares solution of A d = b of smallest norm; linear in b."""
    if not isinstance(A, Mat) or not isinstance(b, Lin):
        raise Unsupported("least squares of something else")
    k, t = b.one()
    return Lin.of(f(A.t, t), z3.simplify(k / z3.RealVal(A.k)))


def lstsq(interp, args, kw):
    A, b = args[:2]
    if not isinstance(A, Mat):
        return NotImplemented
    r = args[2] if len(args) > 2 else kw.get("rcond")
    f = lsqf
    if r is not None and not (isinstance(r, (int, float)) and r < 0):
        if not isinstance(r, (int, float)) or r < 1e-12:
            raise Unsupported("least squares with another cut-off")
        # small singular values are dropped: another function
        f = z3.Function(f"lsq with cut-off {r}", Mt, G, G)
    c = ctx()
    return (lsq(A, b, f), Opaque(z3.Const(c.fresh("residuals"), Opaque.Sort)),
            SymInt(z3.Int(c.fresh("rank"))), Opaque(z3.Const(c.fresh("singular"), Opaque.Sort)))


# ---- constraints and trees

class ConFn(Closed):
    """Constraint i of the layout, an arbitrary function."""
    __pyvc_star__ = True

    def __init__(self, i):
        self.i = zint(i)

    def __call__(self, prims, *par, **kw):
        if kw:
            raise Unsupported("keyword arguments of a constraint")
        p = as_vseq(prims)
        if p is None:
            raise Unsupported("primitives that are not a tuple")
        out = VSeq([])
        for x in par:
            out = out.concat(VSeq(x.seq.segs) if isinstance(x, StarSeq) else VSeq.unit(x))
        return Res(self.i, VSeq(p.segs), out)



class Res(Closed):
    """The residual vector of constraint i at primitives and parameters."""
    __pyvc_type__ = np.ndarray

    def __init__(self, i, prims, par):
        self.i, self.prims, self.par = i, prims, par

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Res):
            return ctx().fail(name, f"a residual against {type(o).__name__}")
        ctx().prove(name, self.i == o.i)
        same(name, self.prims, o.prims)
        same(name, self.par, o.par)


class Sub(Closed):
    """The node at path `key` of the tree rebuilt from vectors."""

    def __init__(self, tree, key):
        self.tree, self.key = tree, key

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Sub):
            return ctx().fail(name, f"a primitive against {type(o).__name__}")
        same(name, self.key, o.key)
        if self.tree is not o.tree:
            same(name, self.tree.values, o.tree.values)



class Rebuilt:
    """The tree rebuilt from a list of vectors, known by the contract of C06."""

    def __init__(self, values):
        self.values = values


def pieces(x):
    return VSeq([Tab(SymInt(count), lambda m: Piece(x, offset(m), offset(m + 1)))])


def spec_residuals(tree):
    return VSeq([Tab(SymInt(ncon), lambda i: Res(zint(i), VSeq([Tab(SymInt(nkeys(zint(i))), lambda j: Sub(
        tree, SymStr.term(pkey(zint(i), zint(j)))))]), params(pars(zint(i)))))])


class Solver:
    """The contracts and models for one property."""

    def __init__(self, w, prop):
        self.w, self.prop = w, prop
        it = w.it
        self.L = Layouts(w)
        me = self

        class Tree(w.pr.PrimitiveNode):
            """A rebuilt tree."""

            @property
            def children(self):
                raise Unsupported("the children of a rebuilt tree")
            value = children
        self.Tree = Tree
        self.index = Index2(SymInt(count))
        self.name = prop
        Rec(w, "containers:flatten", self.flatten)
        Rec(w, "primitives:filter_unique_values_from_prim", self.extract)
        Rec(w, "primitives:build_prim_from_unique_values", self.build)
        Rec(w, "layout:Layout.flat_constraints", self.flat_constraints)
        Rec(w, "containers:Node.__getitem__", self.getitem)
        Rec(w, "containers:Node.get_child", self.getitem)
        jax = it.fallback_modules["jax"]
        jax.jit = self.jit
        jax.jacfwd = jax.jacrev = jax.jacobian = self.jacobian
        jax.value_and_grad = lambda f: ValueGrad(self, f)
        jax.grad = lambda f: Unsup("jax.grad")

        def chain(f, g):
            old = it.models.get(f)

            def run(interp, args, kw):
                r = g(interp, args, kw)
                if r is NotImplemented and old is not None:
                    return old(interp, args, kw)
                return r
            it.models[f] = run

        def copy(interp, args, kw):
            if not args or not isinstance(args[0], (Lin, Piece, ParVec)) or len(args) > 1 or set(kw) - {"dtype"}:
                return NotImplemented
            return args[0].copy()

        def view(interp, args, kw):
            return args[0] if args and isinstance(args[0], (Lin, Piece, ParVec)) and not kw else NotImplemented
        for m in (np, jnp):
            for f in (m.array, m.copy):
                chain(f, copy)
            for f in (m.asarray, m.ravel):
                chain(f, view)
            chain(m.concatenate, self.concatenate)
            chain(m.hstack, self.concatenate)
            chain(m.sum, lambda i, a, k: NotImplemented if k or len(a) != 1 else
                  a[0].sum() if isinstance(a[0], Squares) else
                  SymReal(sumf(a[0].term())) if isinstance(a[0], Lin) else NotImplemented)
            chain(m.square, lambda i, a, k: a[0] ** 2 if isinstance(a[0], Lin) else NotImplemented)
            for f in (m.dot, m.vdot, m.inner):
                chain(f, lambda i, a, k: inner(*a) if all(isinstance(x, Lin) for x in a) else NotImplemented)
            chain(m.linalg.norm, lambda i, a, k: norm(a[0]) if len(a) == 1 and isinstance(a[0], Lin)
                  and k in ({}, {"ord": None}, {"ord": 2}) else NotImplemented)
            chain(m.linalg.lstsq, lstsq)
            chain(m.linalg.solve, lambda i, a, k: lsq(a[0], a[1], z3.Function("inverse_times", Mt, G, G))
                  if isinstance(a[0], Mat) else NotImplemented)
            chain(m.linalg.pinv, lambda i, a, k: PInv(a[0]) if len(a) == 1 and not k
                  and isinstance(a[0], Mat) else NotImplemented)
            chain(m.cumsum, self.cumsum)
            chain(m.split, self.split)
        it.models[minimize] = self.minimize

    # ---- contracts
    def layout(self):
        c = ctx()
        o = self.L.layout()
        c.assume(z3.And(count >= 1, ncon >= 1))
        offset(0)
        offset(1)
        # solutions of running sums of the sizes
        c.store["fold_hints"] = [lambda i: offset(i), lambda i: SymInt(
            z3.If(zint(i) <= 0, 0, zint(offset(zint(i) - 1)))), lambda i: SymInt(
            zint(offset(zint(i) + 1)))]
        return o

    def flatten(self, k, t):
        return Flat(k, t)

    def extract(self, root):
        """C06: the index of every path, and the distinct vectors in order of appearance."""
        if not term(root).eq(self.L.tR):
            ctx().fail(self.name + ".vectors", "not the vectors of the layout's primitives")
            raise Infeasible()
        return (self.index, PyList.sym(VSeq([Tab(SymInt(count), lambda m: ParVec(U(zint(m))))], "list")))

    def build(self, flat, index, values):
        """C06.  Precondition: the flattened tree of the layout's primitives under "", its
        index, and as many vectors as were extracted."""
        c = ctx()
        n = self.name + ".rebuild"
        if not isinstance(flat, Flat):
            raise Unsupported("a tree is rebuilt from something that is not a flattened tree")
        same(n, flat.k, "")
        c.prove(n, term(flat.t) == self.L.tR)
        if index is not self.index:
            raise Unsupported("a tree is rebuilt with another index")
        v = as_vseq(values, self.w.it)
        if v is None:
            raise Unsupported("vectors that are not a list")
        v = VSeq(v.settle().segs)
        c.prove(n, zint(v.length()) == count)
        o = object.__new__(self.Tree)
        o.__dict__["__pyvc_rebuilt__"] = t = Rebuilt(v)
        c.store["rebuilt"] = t
        return c.made(o)

    def flat_constraints(self, layout):
        """C16: the constraints, their primitive keys and parameters, in the same order."""
        if not term(layout.root_constraint).eq(self.L.tC):
            raise Unsupported("another layout")

        def keys(i):
            z = zint(i)
            ctx().assume(nkeys(z) >= 0)
            return VSeq([Tab(SymInt(nkeys(z)), lambda j: SymStr.term(pkey(z, zint(j))))])
        return tuple(PyList.sym(VSeq([Tab(SymInt(ncon), f)], "list")) for f in (
            ConFn, keys, lambda i: params(pars(zint(i)))))

    def getitem(self, o, key):
        t = o.__dict__.get("__pyvc_rebuilt__")
        if t is None:
            return self.L.get_child(o, key)
        if not isinstance(key, (str, SymStr)):
            raise Unsupported("a primitive looked up by something that is not a path")
        return Sub(t, key)

    # ---- arrays
    def concatenate(self, interp, args, kw):
        if len(args) != 1 or set(kw) - {"axis"} or kw.get("axis", 0) not in (0, -1):
            return NotImplemented
        v = as_vseq(args[0], interp)
        if v is None:
            return NotImplemented
        v = VSeq(v.settle().segs, "list")
        c = ctx()
        probe = []
        for g in v.segs:
            if isinstance(g, Unit):
                probe.append(g.x)
            elif isinstance(g, Tab):
                c.forall(g.n, lambda i, g=g: probe.append(g.f(i)))
            else:
                raise Unsupported("concatenation of a nested sequence")
        if any(isinstance(x, ParVec) for x in probe):
            same(self.name + ".start", v, VSeq([Tab(SymInt(count), lambda m: ParVec(U(zint(m))))]))
            return Lin.of(startv)
        if any(isinstance(x, Piece) for x in probe):
            x = next(x for x in probe if isinstance(x, Piece))
            if x.x.term().eq(startv):
                raise Unsupported("slices are put together again")
            raise Unsupported("slices are put together again")
        if any(isinstance(x, Res) for x in probe):
            t = c.store.get("rebuilt")
            if t is None:
                raise Unsupported("residuals without a rebuilt tree")
            first = VSeq(t.values.segs).at(0)
            if not isinstance(first, Piece):
                return c.fail(self.name + ".residual", "not evaluated at slices of the parameters")
            x = first.x
            tree = Rebuilt(pieces(x))
            same(self.name + ".residual", t.values, tree.values)
            # the trees in the list are that tree
            same(self.name + ".residual", v, spec_residuals(t))
            return Lin(Lin.of(resf(x.term())).parts, True)
        return NotImplemented

    def cumsum(self, interp, args, kw):
        if len(args) != 1 or kw:
            return NotImplemented
        v = as_vseq(args[0], interp)
        if v is None or v.concrete() is not None:
            return NotImplemented
        from ..folds import Fold
        v = VSeq(v.settle().segs, "list")
        c = ctx()

        def step(j, acc):
            x = v.at(j)
            if not isinstance(x, (int, SymInt)):
                raise Unsupported("cumulative sum of other things than integers")
            return acc + x
        n = v.length()
        f = Fold(0, n if isinstance(n, SymInt) else SymInt(z3.IntVal(n)), step, "cumsum")
        return SymVec(VSeq([Tab(n, lambda i: f.at(i + 1))]))

    def split(self, interp, args, kw):
        if len(args) != 2 or kw or not isinstance(args[0], Lin):
            return NotImplemented
        x, ix = args[0], as_vseq(args[1], interp)
        if ix is None:
            return NotImplemented
        offset(0)
        lo = VSeq([Unit(0)] + list(ix.segs))
        hi = VSeq(list(ix.segs) + [Unit(SymInt(off(count)))])
        n = lo.length()
        return PyList.sym(VSeq([Tab(n, lambda i: Piece(x, lo.at(i), hi.at(i)))], "list"))

    # ---- jax
    def jit(self, f=None, **kw):
        if f is None:
            return lambda g: self.jit(g, **kw)
        return Traced(self, f)

    def jacobian(self, f, *a, **kw):
        if a or set(kw) - {"argnums"} or kw.get("argnums", 0) != 0:
            raise Unsupported("options of jax.jacfwd")
        g = Traced(self, f)
        return Jac(g)

    # ---- scipy
    def minimize(self, interp, args, kw):
        """Contract of scipy.optimize.minimize: a point, after any number of callbacks."""
        c = ctx()
        args = list(args)
        kw = dict(kw)
        n = self.name
        fun, x0 = (args + [None, None])[:2]
        fun = kw.pop("fun", fun)
        x0 = kw.pop("x0", x0)
        if len(args) > 2 or set(kw) - {"method", "jac", "callback", "options", "tol"}:
            raise Unsupported("arguments of minimize")
        if not isinstance(x0, Lin):
            raise Unsupported("start of minimize")
        same(n + ".start", x0, Lin.of(startv))
        if isinstance(fun, ValueGrad):
            c.prove(n + ".objective", kw.get("jac") is True)
            fun.analyse(n + ".objective")
        elif isinstance(fun, Traced) and not kw.get("jac"):
            ValueGrad(self, fun).analyse(n + ".objective")
        else:
            raise Unsupported("objective of minimize")
        opts = kw.get("options")
        if not isinstance(opts, dict):
            return c.fail(n + ".iteration-limit", "no iteration limit")
        same(n + ".iteration-limit", opts.get("maxiter"), self.max_iter)
        if set(opts) - {"maxiter", "disp"} or kw.get("tol") is not None:
            raise Unsupported("other stopping rules of minimize")
        cb = kw.get("callback")
        if cb is not None:
            c.store["callback"] = True
            m = z3.Int("callbacks")
            c.assume(m >= 0)
            rs = VSeq([Tab(SymInt(m), lambda i: OptResult(z3.Function("iterate", I, G)(zint(i)), i))])
            interp.call(self.stub(cb), [cb, rs], {})
        x = z3.Const("minimum", G)
        c.store["final"] = Lin.of(x)
        return OptResult(x, None)

    STUB = {"intermediate_result": """
def minimize(callback, results):
    for r in results:
        try:
            callback(intermediate_result=r)
        except StopIteration:
            break
""", "xk": """
def minimize(callback, results):
    for r in results:
        try:
            callback(r.x)
        except StopIteration:
            break
"""}

    def stub(self, cb):
        import inspect
        f = getattr(cb, "__func__", cb)
        fi = getattr(f, "__pyvc__", None)
        if fi is None:
            raise Unsupported("callback of minimize")
        a = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
        if getattr(cb, "__self__", None) is not None:
            a = a[1:]
        kind = "intermediate_result" if a == ["intermediate_result"] else "xk"
        import ast as _ast
        from ..interp import Frame
        g = {"__name__": "scipy.optimize"}
        fr = Frame(None, None, g, frozenset(), kind="module")
        fr.vars = g
        self.w.it.exec_block(_ast.parse(self.STUB[kind]).body, fr)
        return g["minimize"]


class Unsup:
    def __init__(self, what):
        self.what = what

    def __call__(self, *a, **k):
        raise Unsupported(self.what)


class OptResult(Closed):
    """A result of scipy.optimize.minimize."""

    def __init__(self, x, i):
        self._x, self._i = x, i

    def __getattr__(self, name):
        if name == "x":
            return Lin.of(self._x)
        if name == "fun":
            return inner(Lin.of(resf(self._x)), Lin.of(resf(self._x)))
        if name.startswith("__") or name in ("t", "z3bool"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of a result of minimize")

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, d=None):
        return getattr(self, k)


class Flat(Closed):
    """flatten(k, t)."""

    def __init__(self, k, t):
        self.k, self.t = k, t



class Index2(dict):
    """The extracted index, only to be passed on."""
    __pyvc_sym__ = True
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def _no(self, *a):
        raise Unsupported("the index of the vectors is used")
    __getitem__ = get = __contains__ = __iter__ = __len__ = items = keys = values = pop = _no
    __setitem__ = __delitem__ = update = __pyvc_len__ = __pyvc_truth__ = setdefault = copy = _no


class Traced(Closed):
    """A function of one global vector, evaluated once at an arbitrary one."""

    def __init__(self, s, f):
        if isinstance(f, Traced):
            self.__dict__ = f.__dict__
            return
        self.s, self.f = s, f
        self.value = None
        try:
            self.analyse()
        except Unsupported:
            pass

    def analyse(self):
        """The value at an arbitrary vector."""
        if self.value is not None:
            return
        c = ctx()
        self.x = z3.Const(c.fresh("x"), G)
        r = c.sub(lambda: self.s.w.it.call(self.f, [Lin(Lin.of(self.x).parts, True)], {}))
        if not r or any(isinstance(v, Raised) for v in r):
            raise Unsupported("a function that may raise is transformed by jax")
        if any(repr(v) != repr(r[0]) for v in r):
            raise Unsupported("a function with several cases is transformed by jax")
        self.value = r[0]

    def __call__(self, *args, **kw):
        if len(args) == 1 and isinstance(args[0], Lin) and not kw:
            self.analyse()
            v = self.value
            x = args[0].term()
            if isinstance(v, Lin):
                return Lin({u.sexpr(): (k, u) for k, u in (
                    (k, z3.substitute(t, (self.x, x))) for k, t in v.parts.values())}, True)
            if isinstance(v, SymReal):
                r = SymReal(z3.substitute(v.t, (self.x, x)))
                norm_of(resf(x))
                return r
        return self.s.w.it.call(self.f, list(args), kw)


class Jac(Closed):
    """The Jacobian of a traced function."""

    def __init__(self, g):
        self.g = g

    def __call__(self, x):
        c = ctx()
        self.g.analyse()
        v = self.g.value
        n = self.g.s.name + ".jacobian"
        if not isinstance(v, Lin) or not isinstance(x, Lin) or len(v.parts) != 1:
            raise Unsupported("the Jacobian of something else")
        k, t = v.one()
        if not t.eq(resf(self.g.x)) or not z3.is_rational_value(k):
            raise Unsupported("the Jacobian of something else")
        return Mat(jacf(x.term()), k.as_fraction())


class ValueGrad(Closed):
    """jax.value_and_grad(f)."""

    def __init__(self, s, f):
        self.g = Traced(s, f)

    def analyse(self, name):
        """The objective is zero exactly when the residual is, and not negative."""
        c = ctx()
        self.g.analyse()
        v = self.g.value
        if not isinstance(v, SymReal):
            raise Unsupported("an objective that is not a number")
        n = norm_of(resf(self.g.x)).t
        c.prove(name, z3.And(v.t >= 0, (v.t == 0) == (n == 0)))

    def __call__(self, *a):
        raise Unsupported("jax.value_and_grad is called")


# ---- the trajectory

def newton(x):
    """The point after one step from x."""
    t = x.term()
    return x + lsq(Mat(jacf(t)), -Lin.of(resf(t)))


class Trajectory:
    """The points X(0), X(1), ... of the iteration in the loop."""

    def __init__(self, name, last, k):
        """last: the vector the result is made of, after k iterations."""
        c = ctx()
        self.fold = None
        folds = [f for f in c.store.get("folds", {}).values() if f.sort == G]
        heads = {t.decl().name() for _, t in last.parts.values()}
        folds = [f for f in folds if f.f.name() in heads] or [
            f for f in folds if c.entails(f.v0.equal(Lin.of(startv)))] or folds
        self.ahead = 0
        self.last = last
        if len(folds) > 1:
            raise Unsupported("several vectors are carried through the loop")
        if folds:
            self.fold = f = folds[0]
            # the first iteration may be written out before the loop
            if not c.entails(f.v0.equal(Lin.of(startv))) and c.entails(
                    f.v0.equal(newton(Lin.of(startv)))):
                self.ahead = 1

    def at(self, i):
        i = zint(i)
        if self.fold is None:
            return Lin.of(startv)
        if self.ahead and ctx().branch(i == 0):
            return Lin.of(startv)
        return Lin.of(self.fold.f(i - self.ahead))

    def prove(self, name, k):
        """X(0) = start, every step is a Newton step, and the result is X(k)."""
        c = ctx()
        f = self.fold
        if f is None:
            # no loop was summarised: the few steps are in the result itself
            kk = known_number(k)
            if kk is None:
                raise Unsupported("an unknown number of steps without a loop")
            x = Lin.of(startv)
            for _ in range(kk):
                x = newton(x)
            return same(name + ".result", self.last, x)
        v0 = Lin.of(startv)
        for _ in range(self.ahead):
            v0 = newton(v0)
        c.under(name + ".first-point", [], lambda: same(name + ".first-point", f.v0, v0))
        c.assume(f.v0.term() == Lin.of(f.f(0)).term()) if len(f.v0.parts) == 1 else None

        def step(j):
            x = Lin.of(f.f(zint(j)))
            try:
                y = f.step(j, x)
            except Infeasible:
                return          # this iteration leaves the loop: see `last`
            same(name + ".step", y, newton(x))
        c.each(name + ".step", f.n if isinstance(f.n, SymInt) else SymInt(zint(f.n)), step)

        def last():
            xk = self.at(k)
            if c.entails(self.last.equal(xk)):
                return c.prove(name + ".result", True)
            if c.entails(zint(k) >= 1) and c.entails(self.last.equal(newton(self.at(zint(k) - 1)))):
                return c.prove(name + ".result", True)
            if c.branch(zint(k) == 0):
                return same(name + ".result", self.last, Lin.of(startv))
            same(name + ".result", self.last, xk)
        c.under(name + ".result", [], last)


def known_number(k):
    from ..seq import known_int
    return k if isinstance(k, int) else known_int(k)


def run(s, n, fn, roles):
    """fn(layout, ...) for an arbitrary layout, tolerances and limit; (tree, info) of the result."""
    c = ctx()
    o = s.layout()
    s.abs_tol, s.rel_tol = SymReal(z3.Real("abs_tol")), SymReal(z3.Real("rel_tol"))
    s.max_iter = SymInt(z3.Int("max_iter"))
    c.assume(s.abs_tol.t >= 0)
    r = evaluate(n, fn, o, *roles(s))
    v = as_vseq(r, s.w.it)
    v = None if v is None else v.concrete()
    if v is None or len(v) != 2:
        return c.fail(n, "does not return a pair")
    return v


def vectors(s, n, tree):
    """The vector x whose slices are the vectors of the returned tree."""
    c = ctx()
    t = getattr(tree, "__dict__", {}).get("__pyvc_rebuilt__")
    if t is None:
        c.fail(n + ".tree", "the result is not rebuilt from the layout's primitives")
        raise Infeasible()
    x = VSeq(t.values.segs).at(0)
    if isinstance(x, ParVec):
        x = x.piece()
    if not isinstance(x, Piece):
        raise Unsupported("vectors of the returned tree")
    same(n + ".tree", t.values, pieces(x.x))
    return x.x


def records(s, n, info):
    out = []
    for k in ("abs_errs", "rel_errs"):
        v = as_vseq(evaluate(n + ".records", lambda: info[k]), s.w.it)
        if v is None:
            raise Unsupported("recorded errors")
        out.append(VSeq(v.segs))
    return out


def met(s, X, j):
    """The tolerance is met after the iteration that starts at X(j)."""
    a = norm(Lin.of(resf(X.at(j).term())))
    a0 = norm(Lin.of(resf(X.at(0).term())))
    ratio = a / a0
    ctx().assume(z3.Implies(a0.t != 0, ratio.t * a0.t == a.t))
    return z3.Or(a.t <= s.abs_tol.t, ratio.t <= s.rel_tol.t), a, ratio


def prove_newton(report, s, case, n0):
    def body(n, g):
        c = ctx()
        s.name = n
        r = run(s, n, s.w.solver.solve_newton, lambda s: (s.abs_tol, s.rel_tol, s.max_iter))
        if r is None:
            return
        tree, info = r
        last = vectors(s, n, tree)
        frame_clean(n + ".frame")
        ea, er = records(s, n, info)
        k = ea.length()
        c.prove(n + ".one-record-per-iteration", zint(k) == zint(er.length()))
        X = Trajectory(n, last, k)
        X.prove(n, k)

        def record(i):
            c.inst(i, split=True)
            _, a, ratio = met(s, X, i)
            same(n + ".residual-norm", ea.at(i), a)
            if c.branch(norm(Lin.of(resf(X.at(0).term()))).t != 0):
                same(n + ".ratio-to-first", er.at(i), ratio)
        c.each(n + ".records", k if isinstance(k, SymInt) else SymInt(zint(k)), record)
        kz, mz = zint(k), zint(s.max_iter)
        # a second iteration is only made when the first residual is not zero
        c.inst(SymInt(z3.IntVal(1)), split=True)
        c.prove(n + ".at-most-max-iter", z3.Or(kz == 0, kz <= mz))

        def stop():
            if c.branch(kz >= mz):
                return c.prove(n + ".stops", True)
            if c.branch(kz == 0):
                return c.fail(n + ".stops", "no iteration is made")
            c.inst(SymInt(kz - 1))
            c.prove(n + ".stops", met(s, X, kz - 1)[0])
        c.under(n + ".stops", [], stop)

        def goes_on(j):
            # the iteration that starts at X(j + 1) is made: no tolerance was met at X(j)
            c.inst(j)
            c.inst(j + 1)
            c.prove(n + ".as-soon-as", z3.Not(met(s, X, j)[0]))
        c.each(n + ".as-soon-as", k - 1 if isinstance(k, SymInt) else SymInt(kz - 1), goes_on)
    case(n0, body)


def objective(j):
    """The objective at the optimizer's j-th iterate."""
    x = z3.Function("iterate", I, G)(j)
    return inner(Lin.of(resf(x)), Lin.of(resf(x)))


def prove_minimize(report, s, case):
    def body(n, g):
        c = ctx()
        s.name = n
        r = run(s, n, s.w.solver.solve_minimize, lambda s: (s.abs_tol, s.rel_tol, s.max_iter))
        if r is None:
            return
        tree, info = r
        last = vectors(s, n, tree)
        frame_clean(n + ".frame")
        if "final" not in c.store:
            raise Unsupported("no call of minimize")
        same(n + ".result", last, c.store["final"])
        ea, er = records(s, n, info)
        k = ea.length()
        kz, m = zint(k), z3.Int("callbacks")
        if not c.store.get("callback"):
            # nothing is recorded, and the iteration is limited by the optimizer alone
            return c.fail(n + ".records", "no callback")
        c.prove(n + ".one-record-per-iteration", kz == zint(er.length()))
        c.prove(n + ".one-record-per-iteration", z3.And(kz >= 0, kz <= m))

        def at(j):
            j = zint(j)
            f = objective(j)
            f0 = objective(z3.IntVal(0))
            ratio = f / f0
            c.assume(z3.Implies(f0.t != 0, ratio.t * f0.t == f.t))
            return f, f0, ratio

        def record(i):
            c.inst(i, split=True)
            f, f0, ratio = at(i)
            same(n + ".objective-value", ea.at(i), f)
            if c.branch(f0.t != 0):
                same(n + ".ratio-to-first", er.at(i), ratio)
        c.each(n + ".records", k if isinstance(k, SymInt) else SymInt(kz), record)

        def stopped():
            c.inst(SymInt(z3.simplify(kz - 1)), split=True)
            f, f0, ratio = at(SymInt(kz - 1))
            if c.branch(f0.t != 0):
                c.prove(n + ".stops", z3.And(kz >= 1, z3.Or(f.t <= s.abs_tol.t, ratio.t <= s.rel_tol.t)))
        c.under(n + ".stops", [kz < m], stopped)

        def goes_on(j):
            c.inst(j, split=True)
            f, f0, ratio = at(j)
            if c.branch(f0.t != 0):
                c.prove(n + ".as-soon-as", z3.Not(z3.Or(f.t < s.abs_tol.t, ratio.t < s.rel_tol.t)))
        c.each(n + ".as-soon-as", SymInt(kz - 1), goes_on)
    case("minimize", body)


def prove_dispatch(report, w, case):
    made = {}
    for k in ("newton", "minimize"):
        def spec(layout, a, r, m, k=k):
            h = ctx().store.get("dispatched")
            if h is not None:
                h.append((k, layout, a, r, m))
            return ("result", k)
        made[k] = Rec(w, f"solver:solve_{k}", spec)

    def body(n, g, method):
        c = ctx()
        lay, a, r = (Opaque(z3.Const(x, Opaque.Sort)) for x in ("layout", "abs", "rel"))
        a, r, m = SymReal(z3.Real("abs_tol")), SymReal(z3.Real("rel_tol")), SymInt(z3.Int("max_iter"))
        calls = c.store["dispatched"] = []
        args = [lay, a, r, m] + ([] if method is None else [method])
        x = attempt(w.solver.solve, *args)
        if method == "other":
            return c.prove(n + ".unknown-method", isinstance(x, Raised) and not calls)
        want = method or "newton"
        if isinstance(x, Raised):
            return c.fail(n, f"raised {x.exc!r}")
        if len(calls) != 1 or calls[0][0] != want:
            return c.fail(n, f"calls {[y[0] for y in calls]}")
        same(n, x, ("result", want))
        for p, q in zip(calls[0][1:], (lay, a, r, m)):
            same(n + ".arguments", p, q)
    for method in ("newton", "minimize", None, "other"):
        case(f"solve[{method}]", lambda n, g, m=method: body(n, g, m))


def prove_positions(report, case):
    def lemma(n, g):
        c = ctx()
        i, k = z3.Ints("i k")
        c.assume(z3.And(off(0) == 0, 0 <= i, i <= k, k < count))
        c.assume(z3.And(off(k + 1) == off(k) + sizef(U(k)), sizef(U(k)) >= 0))
        c.prove(n + ".not-negative", z3.Implies(off(k) >= 0, off(k + 1) >= 0))
        c.prove(n + ".increasing.start", off(i) <= off(i))
        c.prove(n + ".increasing.step", z3.Implies(off(i) <= off(k), off(i) <= off(k + 1)))
    case("lemma.positions", lemma)


ASSUMED = (
    "numpy concatenate, cumsum, split, dot, linalg.norm/lstsq/solve/pinv: their documented contracts over "
    "exact real vectors",
    "jax.jit and jax.jacfwd/jacrev/value_and_grad: the function itself and its exact derivative; the functions "
    "passed to them are pure",
    "scipy.optimize.minimize: returns a result at some point, calls the callback with results; nothing is "
    "assumed about how good the point is",
    "precondition: at least one constraint and one parameter vector; abs_tol >= 0",
)


def prove(report, tier):
    report.assumed.update(ASSUMED)
    w = World("solver")
    case = Cases(report, "C18", w)
    s = Solver(w, "C18")
    prove_newton(report, s, case, "newton")
    prove_minimize(report, s, case)
    prove_positions(report, case)
    w2 = World("solver")
    prove_dispatch(report, w2, Cases(report, "C18", w2))
