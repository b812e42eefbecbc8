"""C19: a solvable linear layout is solved by one Newton step.

The step of the real loop is proved to be X(j + 1) = X(j) + lsq(jac(X(j)), -res(X(j))), where res
is the residual of C18 (proved here again) and jac its Jacobian; lsq(A, b) is the least-squares
solution of smallest norm (contract of numpy).  The statement about affine layouts is a lemma
over that step.
"""
from __future__ import annotations

from .c18 import *
from .c18 import Solver


def prove_step(report, s, case):
    def body(n, g):
        c = ctx()
        s.name = n
        r = run(s, n, s.w.solver.solve_newton, lambda s: (s.abs_tol, s.rel_tol, s.max_iter))
        if r is None:
            return
        tree, info = r
        last = vectors(s, n, tree)
        k = records(s, n, info)[0].length()
        X = Trajectory(n, last, k)
        X.prove(n, k)
        c.prove(n + ".at-least-one", z3.Or(zint(s.max_iter) <= 0, zint(k) >= 1))
    case("newton", body)


def prove_lemmas(report, case):
    R = z3.RealSort()
    V = z3.DeclareSort("V")
    cmp_, nrm = z3.Function("at", V, I, R), z3.Function("norm2", V, R)
    A = z3.Function("A", V, V)                    # the linear part of the residual
    r = z3.Function("r", V, V)                    # the residual
    add, sub = z3.Function("add", V, V, V), z3.Function("sub", V, V, V)
    x, d, s, zero = z3.Consts("x d solution zero", V)
    i = z3.Int("i")

    def norms(c, *vs):
        # norm2(v) >= 0, and 0 exactly for the zero vector (used at component i)
        for v in vs:
            c.assume(nrm(v) >= 0)
            c.assume(z3.Implies(nrm(v) == 0, cmp_(v, i) == 0))

    def affine(c, y, z):
        """r(y + z) = r(y) + A(z), componentwise."""
        c.assume(cmp_(r(add(y, z)), i) == cmp_(r(y), i) + cmp_(A(z), i))

    def least(c, b, e):
        """Contract of lsq(A, b) = d: |A d - b| <= |A e - b|, and among those with equality d is
        the shortest."""
        def miss(v):
            return sub(A(v), b)
        c.assume(nrm(miss(d)) <= nrm(miss(e)))
        c.assume(z3.Implies(nrm(miss(e)) <= nrm(miss(d)), nrm(d) <= nrm(e)))
        for v in (d, e):
            c.assume(cmp_(miss(v), i) == cmp_(A(v), i) - cmp_(b, i))
        return miss(d), miss(e)

    b = z3.Const("minus_r_x", V)

    def one_step(n, g):
        # a solution s exists: r(s) = 0 and s = x + e
        c = ctx()
        e = sub(s, x)
        c.assume(cmp_(b, i) == -cmp_(r(x), i))
        affine(c, x, d)
        c.assume(cmp_(r(s), i) == cmp_(r(x), i) + cmp_(A(e), i))
        c.assume(cmp_(r(s), i) == 0)
        md, me = least(c, b, e)
        norms(c, md, me)
        # A e - b is zero at every component i, so its norm is zero
        c.prove(n + ".solution-has-no-miss", cmp_(me, i) == 0)
        c.assume(nrm(me) == 0)
        c.prove(n + ".step-has-no-miss", nrm(md) == 0)
        c.prove(n + ".satisfied", cmp_(r(add(x, d)), i) == 0)
    case("lemma.one-step", one_step)

    def unchanged(n, g):
        # r(x) = 0: then b = 0, the zero step has no miss, and d is no longer than it
        c = ctx()
        c.assume(cmp_(r(x), i) == 0)
        c.assume(cmp_(b, i) == -cmp_(r(x), i))
        c.assume(z3.And(cmp_(A(zero), i) == 0, cmp_(zero, i) == 0, nrm(zero) == 0))
        md, mz = least(c, b, zero)
        norms(c, md, mz, d)
        c.prove(n + ".zero-has-no-miss", cmp_(mz, i) == 0)
        c.assume(nrm(mz) == 0)
        c.prove(n + ".zero-step", cmp_(d, i) == 0)
        c.assume(cmp_(add(x, d), i) == cmp_(x, i) + cmp_(d, i))
        c.prove(n + ".unchanged", cmp_(add(x, d), i) == cmp_(x, i))
    case("lemma.unchanged", unchanged)

    def trajectory(n, g):
        # induction: from a solved point on, every point is that point
        c = ctx()
        X = z3.Function("X", I, V)
        j, j0 = z3.Ints("j j0")
        c.assume(z3.And(0 <= j0, j0 <= j))
        c.prove(n + ".start", X(j0) == X(j0))
        c.assume(X(j) == X(j0))
        # unchanged: the step from a solved point leads to the same point
        c.assume(z3.Implies(X(j) == X(j0), X(j + 1) == X(j)))
        c.prove(n + ".step", X(j + 1) == X(j0))
    case("lemma.stays", trajectory)


def prove(report, tier):
    report.assumed.update(x for x in ASSUMED if "scipy" not in x)
    report.assumed.add("numpy.linalg.lstsq(A, b): a least-squares solution, the one of smallest norm")
    report.assumed.add("the step of the trajectory is the step of the lemmas (X(j + 1) = X(j) + lsq(jac, -res)); "
                       "for an affine residual the Jacobian is its linear part")
    w = World("solver")
    case = Cases(report, "C19", w)
    s = Solver(w, "C19")
    prove_step(report, s, case)
    prove_positions(report, case)
    prove_lemmas(report, case)
