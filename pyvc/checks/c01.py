"""C01: slash-path access is a faithful, framed map."""
from .paths import *

ACCESS = ("get_child", "_get_child_nonrecursive", "add_child", "_add_child_nonrecursive",
          "__contains__", "__getitem__", "__setitem__", "children")


def prove(report, tier):
    w = World("constraints")
    tr = Trees(w)
    prove_lemmas(report, w, "C01")
    prove_get_child(report, w, tr, "C01")
    prove_add_child(report, w, tr, "C01")
    case = Cases(report, "C01", w)

    def contains(n, g):
        c = ctx()
        root = tr.any()
        p = SymStr.term(z3.String("p"))
        r = attempt(w.it.contains, root, p)
        if isinstance(r, Raised):
            return c.fail(n, f"raises {r!r}")
        if isinstance(r, bool):
            c.prove(n, ok(term(root), p.t) == z3.BoolVal(r))
        else:
            c.prove(n, ok(term(root), p.t) == r.t)
        no_change(n + ".frame")
    case("contains", contains)

    def getitem(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        p = SymStr.term(z3.String("p"))
        r = attempt(lambda: w.it.getitem(root, p))
        if isinstance(r, Raised):
            if not isinstance(r.exc, KeyError):
                return c.fail(n + ".raises", f"raises {r!r}")
            c.prove(n + ".raises", z3.Not(ok(t, p.t)))
        else:
            c.prove(n + ".resolves", ok(t, p.t))
            is_node(n + ".target", r, tgt(t, p.t))
        no_change(n + ".frame")
    case("getitem[str]", getitem)

    def index(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        i = z3.Int("i")
        r = attempt(lambda: w.it.getitem(root, SymInt(i)))
        if isinstance(r, Raised):
            if not isinstance(r.exc, IndexError):
                return c.fail(n + ".raises", f"raises {r!r}")
            c.prove(n + ".raises", z3.Or(i >= nch(t), i < -nch(t)))
        else:
            c.prove(n + ".in-range", z3.And(i < nch(t), i >= -nch(t)))
            is_node(n + ".target", r, childf(t, z3.If(i >= 0, i, i + nch(t))))
        no_change(n + ".frame")
    case("getitem[int]", index)

    for a, b in ((None, None), ("a", None), (None, "b"), ("a", "b"), (1, None), (None, -1)):
        def slices(n, g, a=a, b=b):
            c = ctx()
            root = tr.any()
            t = term(root)
            lo = SymInt(z3.Int("a")) if a == "a" else a
            hi = SymInt(z3.Int("b")) if b == "b" else b
            for x in (lo, hi):
                if isinstance(x, SymInt):
                    c.assume(x.t >= 0)
            r = attempt(lambda: w.it.getitem(root, slice(lo, hi)))
            if isinstance(r, Raised) or not isinstance(r, list):
                return c.fail(n, f"gives {r!r}, not a list")
            m = SymInt(nch(t))
            # elements lo..hi-1, cut off at the number of children
            last = zint(m) if hi is None else (
                z3.If(nch(t) >= 1, nch(t) - 1, 0) if hi == -1 and not isinstance(hi, SymInt)
                else z3.If(zint(hi) < nch(t), zint(hi), nch(t)))
            first = z3.IntVal(0) if lo is None else zint(lo)
            ln = z3.If(last > first, last - first, 0)
            got = as_vseq(r, w.it)
            c.prove(n + ".length", zint(got.length()) == ln)
            if c.branch(ln > 0):
                j = c.index(SymInt(ln))
                is_node(n + ".element", got.at(j), childf(t, first + j.t))
            no_change(n + ".frame")
        case(f"getitem[{a}:{b}]", slices)

    def setitem(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        p = SymStr.term(z3.String("p"))
        new = tr.any("new")
        r = attempt(lambda: w.it.setitem(root, p, new))
        unfold_path(t, p)
        lc = last_cut(t, p)
        if isinstance(r, Raised):
            if not isinstance(r.exc, KeyError):
                return c.fail(n + ".raises", f"raises {r!r}")
            c.prove(n + ".raises", z3.Not(ok(t, p.t)))
            no_change(n + ".unchanged")
            return
        c.prove(n + ".resolves", ok(t, p.t))
        changed = changed_objects()
        if len(changed) != 1 or c.store.get("added"):
            return c.fail(n + ".effect", f"{len(changed)} objects are changed")
        par, k = (t, p) if lc is None else (tgt(t, SymStr.of(lc[0]).t), SymStr.of(lc[1]))
        replaced(n, tr, changed[0], par, k.t, new)
    case("setitem", setitem)

    def overrides(n, g):
        no_overrides(n, w, w.cn.Node, ACCESS)
    case("overrides", overrides)
    report.assumed.add("trees: a node that is changed occurs once in the tree (other paths to a "
                       "shared node see the change)")
