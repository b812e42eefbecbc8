"""C14: grid constraints describe the grid for every shape."""
from __future__ import annotations

from .c11 import *
from .c12 import residual
from .c13 import margin


def mapped(w):
    """The contract of transform_map (C11): the construction and the number of primitives."""
    CN = w.con.ConstructionNode

    class Mapped(CN):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise Unsupported(f"{name} of a mapped construction")

    def spec(construction, types):
        s = as_vseq(types, w.it)
        if s is None:
            raise Unsupported("mapped primitive types")
        s = VSeq(s.segs)
        v = construction.value.signature
        M = len(v.prim_types) - 1
        c = ctx()
        n = zint(s.length())
        if not c.entails(n >= M):
            raise Unsupported("fewer primitives than the mapped construction takes")
        o = object.__new__(Mapped)
        sig = w.con.ConstructionSignature(s, VSeq([Tab(SymInt((n - M) * len(v.param_types)),
                                                       lambda i: float)]), 0)
        o.__dict__.update(_value=w.con.ConstructionValue((), None, sig), item=construction, number=n)
        return c.made(o)
    Rec(w, "constructions:transform_map", spec)
    return Mapped


class Grids:
    """Contracts and structure of the grid constraints for symbolic shapes."""

    def __init__(self, w):
        self.w = w
        self.Mapped = mapped(w)
        self.f = z3.Function("path", I, S)

    def paths(self, n):
        return VSeq([Tab(SymInt(n), lambda j: SymStr.term(self.f(zint(j))))])

    def structure(self, name, o, n_args, n_children, P):
        """Children, their paths and their parameters; for every argument path."""
        c, w = ctx(), self.w
        sig = o.value.signature
        types = VSeq(as_vseq(sig.prim_types, w.it).segs)
        c.prove(name + ".arguments", zint(types.length()) == n_args)
        c.each(name + ".arguments", SymInt(n_args), lambda i: same(
            name + ".arguments", types.at(i), w.pr.Quadrilateral))
        same(name + ".value-size", sig.value_size, 0)
        kids = VSeq(to_content(o.children).values().segs)
        c.prove(name + ".children", zint(kids.length()) == n_children)
        ks = VSeq(as_vseq(evaluate(name + ".paths", o.child_prim_keys, self.paths(n_args)), w.it).segs)
        c.prove(name + ".paths", zint(ks.length()) == n_children)
        ps = VSeq(as_vseq(evaluate(name + ".parameters", o.child_params, P), w.it).segs)
        c.prove(name + ".parameters", zint(ps.length()) >= n_children)
        v = evaluate(name + ".own-value", w.it.call, o.assem, [VSeq([]), StarSeq(P)], {})
        c.prove(name + ".own-value", isinstance(v, np.ndarray) and v.shape == (0,))
        return kids, ks, ps

    def item(self, name, x, n, want, args):
        """x maps a construction of the value of `want` over n primitives."""
        c = ctx()
        if not isinstance(x, self.Mapped):
            raise Unsupported("a child that is not a mapped construction")
        c.prove(name + ".number", x.number == n)

        def value():
            prims, params = args(Geo(self.w))
            same_values(name + ".item", residual(name + ".item", x.item, prims, *params),
                        residual(name + ".item", want(), prims, *params))
        c.under(name + ".item", [], value)

    def quads(self, g):
        return [g.quad()[0], g.quad()[0]], ()

    def lines(self, g):
        return [g.line()[0], g.line()[0]], (g.real("t"),)

    def rectilinear(self, name, o, m, n):
        c, cr = ctx(), self.w.cr
        kids, ks, ps = self.structure(name, o, m * n, m + n, VSeq([]))

        def row(i):
            i = zint(i)
            self.item(name + ".row", kids.at(SymInt(i)), n, cr.AlignRow, self.quads)
            same(name + ".row.members", ks.at(SymInt(i)), VSeq(
                [Tab(SymInt(n), lambda j: SymStr.term(self.f(i * n + zint(j))))]))
            same(name + ".row.parameters", ps.at(SymInt(i)), VSeq([]))

        def col(i):
            i = zint(i)
            k = SymInt(m + i)
            self.item(name + ".column", kids.at(k), m, cr.AlignColumn, self.quads)
            same(name + ".column.members", ks.at(k), VSeq(
                [Tab(SymInt(m), lambda j: SymStr.term(self.f(zint(j) * n + i)))]))
            same(name + ".column.parameters", ps.at(k), VSeq([]))
        c.each(name + ".row", SymInt(m), row)
        c.each(name + ".column", SymInt(n), col)

    def margins(self, name, o, n, side):
        c, cr = ctx(), self.w.cr
        p = z3.Function("margin", I, z3.RealSort())
        P = VSeq([Tab(SymInt(n - 1), lambda i: SymReal(p(zint(i))))])
        kids, ks, ps = self.structure(name, o, n, n - 1, P)

        def one(i):
            i = zint(i)
            x = kids.at(SymInt(i))
            g = Geo(self.w)

            def value():
                prims, t = self.quads(g)[0], g.real("t")
                same_values(name + ".margin", residual(name + ".margin", x, prims, t),
                            residual(name + ".margin", cr.OuterMargin(side=side), prims, t))
            c.under(name + ".margin", [], value)
            same(name + ".neighbours", ks.at(SymInt(i)), VSeq(
                [Unit(SymStr.term(self.f(i))), Unit(SymStr.term(self.f(i + 1)))]))
            same(name + ".parameter", ps.at(SymInt(i)), VSeq([Unit(SymReal(p(i)))]))
        c.each(name + ".pair", SymInt(n - 1), one)


def prove_shapes(w, case, gr):
    cr = w.cr

    def rect(n, g):
        c = ctx()
        m, k = z3.Ints("m n")
        c.assume(z3.And(m >= 1, k >= 1))
        o = evaluate(n, w.it.call, cr.RectilinearGrid, [], {"shape": (SymInt(m), SymInt(k))})
        gr.rectilinear(n, o, m, k)
    case("RectilinearGrid", rect)

    def grid(n, g):
        c = ctx()
        m, k = z3.Ints("m n")
        c.assume(z3.And(m >= 1, k >= 1))
        o = evaluate(n, w.it.call, cr.Grid, [], {"shape": (SymInt(m), SymInt(k))})
        names = ("col_width", "row_height", "col_margin", "row_margin")
        fs = [z3.Function(x, I, z3.RealSort()) for x in names]
        sizes = (k - 1, m - 1, k - 1, m - 1)
        P = VSeq.of([vector(z, lambda i, f=f: SymReal(f(zint(i)))) for z, f in zip(sizes, fs)])
        kids, ks, ps = gr.structure(n, o, m * k, 5, P)
        want = [VSeq([])] + [VSeq([Tab(SymInt(z), lambda i, f=f: SymReal(f(zint(i))))]) for z, f in zip(sizes, fs)]
        for i in range(5):
            same(n + ".parameters", VSeq(as_vseq(ps.at(i), w.it).segs), want[i])
        gr.rectilinear(n + ".aligned", kids.at(0), m, k)
        same(n + ".aligned.members", ks.at(0), gr.paths(m * k))
        for i, z, step, line, what in ((1, k, 1, "Line0", "widths"), (2, m, k, "Line1", "heights")):
            nm = f"{n}.{what}"
            gr.item(nm, kids.at(i), z, cr.RelativeLength, gr.lines)

            def line_of(j, step=step, line=line):
                return SymStr.term(gr.f(zint(j) * step)) + "/" + line
            same(nm + ".members", ks.at(i), VSeq([Tab(SymInt(z - 1), lambda j: line_of(zint(j) + 1)),
                                                  Unit(line_of(0))]))
        for i, z, step, side in ((3, k, 1, "right"), (4, m, k, "bottom")):
            nm = f"{n}.{'columns' if i == 3 else 'rows'}"
            gr.margins(nm, kids.at(i), z, side)
            same(nm + ".members", ks.at(i), VSeq([Tab(SymInt(z), lambda j, step=step: SymStr.term(
                gr.f(zint(j) * step)))]))
    case("Grid", grid)


def prove_arrays(w, case, gr):
    cr = w.cr
    for s in SIDES:
        for how in ("int", "tuple"):
            def array(n, g, s=s, how=how):
                c = ctx()
                k = z3.Int("n")
                c.assume(k >= 1)
                o = evaluate(n, w.it.call, cr.OuterMarginArray, [], {
                    "shape": SymInt(k) if how == "int" else (SymInt(k),), "side": s})
                gr.margins(n, o, k, s)
            case(f"OuterMarginArray[{s},{how}]", array)


def prove_alignment(case):
    """Every member aligned with the last: all members pairwise aligned."""
    def body(n, g):
        c = ctx()
        s, t, u = ([P2(g.real("x"), g.real("y")) for _ in range(2)] for _ in range(3))
        for a, b in (s, t, u):
            d = b - a
            c.assume(z3.Or(d.x.t != 0, d.y.t != 0))
        # a line q is given as p + k d by its direction and offset: on the line through u
        r = u[1] - u[0]
        ks = [g.real("k") for _ in range(4)]
        pts = [u[0] + r * k for k in ks]
        for q, k in zip(s + t, ks):
            # collinear with u: q - u0 is a multiple of r (r is not 0)
            e = q - u[0]
            kk = (e.dot(r) / r.n2)
            c.under(n + ".on-the-line", [], lambda: (
                c.assume(r.cross(e).t == 0),
                c.prove(n + ".on-the-line", z3.And(e.x.t == (r.x * kk).t, e.y.t == (r.y * kk).t))))
        v, z = pts[1] - pts[0], pts[2:]
        c.prove(n + ".transitive", z3.And(*[v.cross(x - pts[0]).t == 0 for x in z]))
    case("lemma.aligned-is-transitive", body)


def prove_whole(report, tier):
    """The same end to end, through every level of the tree, for small shapes."""
    w = World("constraints")
    cr = w.cr
    case = Cases(report, "C14", w)
    top = 3 if tier == "quick" else 5

    def blocks(name, got, want):
        """The components of got are those of want, in any order."""
        c = ctx()
        got, left = [R(x) for x in flat(got)], []
        pool = list(got)
        for x in [R(y) for b in want for y in flat(b)]:
            hit = next((i for i, y in enumerate(pool) if c.entails(x.t == y.t)), None)
            if hit is None:
                left.append(x)
            else:
                pool.pop(hit)
        if len(left) != len(pool):
            return c.fail(name, f"{len(got)} components, {len(left)} of the arrangement missing")
        if left:
            iff(name, pool, zero(left))
        else:
            c.prove(name, z3.BoolVal(True))
    for m in range(1, top + 1):
        for k in range(1, top + 1):
            def body(n, g, m=m, k=k):
                q = [[g.quad()[0] for _ in range(k)] for _ in range(m)]
                flatq = [x for r in q for x in r]

                def res(cons, prims, *par):
                    return residual(n, cons, prims, *par)
                row, col = cr.AlignRow(), cr.AlignColumn()
                al = [res(row, [x, r[-1]]) for r in q for x in r[:-1]] + \
                     [res(col, [q[i][j], q[-1][j]]) for j in range(k) for i in range(m - 1)]
                blocks(n + ".rectilinear", res(cr.RectilinearGrid(shape=(m, k)), flatq), al)
                P = [vec(*[g.real(x) for _ in range(z)]) for x, z in (
                    ("w", k - 1), ("h", m - 1), ("cm", k - 1), ("rm", m - 1))]
                rel, right, below = cr.RelativeLength(), cr.OuterMargin(side="right"), cr.OuterMargin(side="bottom")
                want = al + [res(rel, [q[0][j]["Line0"], q[0][0]["Line0"]], P[0][j - 1]) for j in range(1, k)] \
                    + [res(rel, [q[i][0]["Line1"], q[0][0]["Line1"]], P[1][i - 1]) for i in range(1, m)] \
                    + [res(right, [q[0][j], q[0][j + 1]], P[2][j]) for j in range(k - 1)] \
                    + [res(below, [q[i][0], q[i + 1][0]], P[3][i]) for i in range(m - 1)]
                blocks(n + ".grid", res(cr.Grid(shape=(m, k)), flatq, *P), want)
            case(f"whole[{m}x{k}]", body)


def prove(report, tier):
    w = World("constraints")
    case = Cases(report, "C14", w)
    array_models(w)
    gr = Grids(w)
    prove_shapes(w, case, gr)
    prove_arrays(w, case, gr)
    prove_alignment(case)
    prove_whole(report, tier)
