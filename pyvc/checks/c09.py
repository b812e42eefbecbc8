"""C09: ill-typed constructions and calls are rejected, well-typed ones accepted."""
from __future__ import annotations

from .c08 import *
from ..models import subclass_pred

ftype = z3.Function("given", I, N)


def raised_only(n, r, kinds):
    """r is a value or one of the exceptions; True when raised."""
    if not isinstance(r, Raised):
        return False
    if not isinstance(r.exc, kinds):
        ctx().fail(n + ".exception", f"raises {type(r.exc).__name__}: {r.exc}")
        raise Infeasible()
    return True


def prove(report, tier):
    w = World("constructions")
    case = Cases(report, "C09", w)
    cs = Cons(w)
    CN = w.con.ConstructionNode
    sub = subclass_pred()
    evaluated = []

    def structure(n, g):
        no_overrides(n, w, CN, ("__call__", "validate_prims", "validate_params", "signature", "value"))
    case("one-implementation", structure)

    def given(t):
        c = ctx()
        m = z3.Int("given.n")
        c.assume(m >= 0)
        c.assume(nargs(t) >= 0)
        q = VSeq([Tab(SymInt(m), lambda j: cs.prims.node(ftype(zint(j))))])
        return m, q

    def matches(t, j):
        j = zint(j)
        a, b = typf(ftype(j)), ptype(t, j)
        ctx().assume(z3.Implies(a == b, sub(a, b)))
        return sub(a, b)

    def typed(n, t, m, raised):
        """The call raised exactly when the primitives do not match the signature."""
        c = ctx()
        if raised:
            c.hyp(SymInt(nargs(t)), lambda j: matches(t, j))
            c.prove(n + ".raises-only-on-mismatch", m != nargs(t))
        else:
            c.prove(n + ".number", m == nargs(t))
            c.each(n + ".types", SymInt(m), lambda j: c.prove(n + ".types", matches(t, j)))

    def prims(n, g):
        o = cs.tr.any()
        t = term(o)
        m, q = given(t)
        r = attempt(o.validate_prims, q)
        typed(n, t, m, raised_only(n, r, TypeError))
        frame_clean(n + ".frame")
    case("validate_prims", prims)

    for kind, make in (("list", lambda q: PyList.sym(VSeq(q.segs, "list"))),
                       ("primitive", lambda q: cs.prims.any("p")),
                       ("none", lambda q: None), ("dict", lambda q: PyDict()),
                       ("string", lambda q: "p")):
        def not_tuple(n, g, make=make):
            o = cs.tr.any()
            m, q = given(term(o))
            r = attempt(o.validate_prims, make(q))
            if not raised_only(n, r, TypeError):
                ctx().fail(n, "accepted")
            ctx().prove(n, True)
        case(f"validate_prims[{kind}]", not_tuple)

    def pars(n, g):
        c = ctx()
        o = cs.tr.any()
        t = term(o)
        m = z3.Int("given.m")
        c.assume(m >= 0)
        c.assume(npar(t) >= 0)
        v = VSeq([Tab(SymInt(m), lambda j: Opaque(z3.Function("pv", I, Opaque.Sort)(zint(j))))])
        r = attempt(o.validate_params, v)
        if raised_only(n, r, TypeError):
            c.prove(n + ".raises-only-on-mismatch", m != npar(t))
        else:
            c.prove(n + ".number", m == npar(t))
        frame_clean(n + ".frame")
    case("validate_params", pars)

    # ---- the call: rejected before anything is evaluated, accepted otherwise
    rec = contracts(w, cs, validate=False)

    def call(n, g):
        c = ctx()
        o = cs.tr.any()
        t = term(o)
        m, q = given(t)
        k = z3.Int("given.k")
        c.assume(k >= 0)
        c.assume(npar(t) >= 0)
        v = VSeq([Tab(SymInt(k), lambda j: Opaque(z3.Function("pv", I, Opaque.Sort)(zint(j))))])
        with rec["call"]:
            r = attempt(w.it.call, CN.__call__, [o, q, StarSeq(v)], {})
        if raised_only(n, r, TypeError):
            c.hyp(SymInt(nargs(t)), lambda j: matches(t, j))
            c.prove(n + ".raises-only-on-mismatch", z3.Or(m != nargs(t), k != npar(t)))
            if c.store.get("evaluated"):
                c.fail(n + ".evaluates-nothing", "a rejected call evaluates the construction")
            frame_clean(n + ".evaluates-nothing")
            return
        c.prove(n + ".number-of-parameters", k == npar(t))
        typed(n, t, m, False)
    case("__call__", call)

    def call_list(n, g):
        o = cs.tr.any()
        m, q = given(term(o))
        P = cs.par()
        with rec["call"]:
            r = attempt(w.it.call, CN.__call__, [o, PyList.sym(VSeq(q.segs, "list")), StarSeq(P)], {})
        if not raised_only(n, r, TypeError):
            ctx().fail(n, "a list of primitives is accepted")
        if ctx().store.get("evaluated"):
            ctx().fail(n, "a rejected call evaluates the construction")
        ctx().prove(n, True)
    case("__call__[list]", call_list)

    # ---- the constructor
    def init(n, g):
        c = ctx()
        t = z3.Const("kids", N)
        c.assume(nch(t) >= 0)
        m = z3.Int("lists")
        size = z3.Function("selected", I, I)
        c.assume(m >= 0)

        def keys(i):
            ctx().assume(size(zint(i)) >= 0)
            return VSeq([Tab(SymInt(size(zint(i))), lambda j: SymStr.term(
                z3.Function("stored", I, I, S)(zint(i), zint(j))))])
        kids = PyDict.sym(DictContent([("map", cs.tr.keymap(t))]))
        lists = PyList.sym(VSeq([Tab(SymInt(m), keys)], "list"))
        value = w.con.ConstructionValue(lists, lambda p: (), w.con.ConstructionSignature((), (), 0))
        c.born.clear()
        o = object.__new__(CN)
        r = attempt(CN.__init__, o, value, kids)

        def fits(i):
            i = zint(i)
            return size(i) == nargs(childf(t, i))
        if raised_only(n, r, ValueError):
            c.hyp(SymInt(nch(t)), fits)
            c.prove(n + ".raises-only-on-mismatch", m != nch(t))
            return
        c.prove(n + ".one-to-one", m == nch(t))
        c.each(n + ".number-of-primitives", SymInt(m), lambda i: c.prove(n + ".number-of-primitives", fits(i)))
        same(n + ".children", VSeq(to_content(o._children).items().segs),
             VSeq(DictContent([("map", cs.tr.keymap(t))]).items().segs))
    case("__init__", init)
