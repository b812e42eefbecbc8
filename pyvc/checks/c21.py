"""C21: axis side and axis thickness are measured correctly."""
import warnings

from .world import *
from . import fakes
from .c15 import thickness, fake_axis, as_bool


def deviation2(f, a, s):
    """Squared deviation of the axis box's facing edge from side s of the frame."""
    i = SIDES.index(s)
    p, q = qside(f, i)
    u, w = qside(a, i + 2)
    return (p - w).n2 + (q - u).n2


def prove(report, tier):
    w = World("matplotlibutils")
    cr, mu = w.cr, w.matplotlibutils
    case = Cases(report, "C21", w)

    def position(n, g):
        (q, f), (r, a) = g.quad("frame"), g.quad("axis")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = evaluate(n, mu.find_axis_position, q, r)
        if s not in SIDES:
            return ctx().fail(n, f"returned {s!r}")
        for o in SIDES:
            # squares of non-negative roots are ordered like the roots
            ctx().prove(n + ".least", deviation2(f, a, s).sqrt().t <= deviation2(f, a, o).sqrt().t)
    case("position", position)

    # the consequence for a shared edge is a lemma about the contract alone
    for s in SIDES:
        def shared(n, g, s=s):
            f = [P2(g.real("fx"), g.real("fy")) for _ in range(4)]
            a = [P2(g.real("ax"), g.real("ay")) for _ in range(4)]
            c = ctx()
            i = SIDES.index(s)
            a[(i + 2) % 4], a[(i + 3) % 4] = f[(i + 1) % 4], f[i]
            # a frame with no two sides equal as reversed segments: distinct corners
            for j in range(4):
                for k in range(j):
                    c.assume(z3.Not(same_point(f[j], f[k])))
            d = {o: deviation2(f, a, o) for o in SIDES}
            c.prove(n + ".zero", d[s].t == 0)
            for o in SIDES:
                if o != s:
                    # another side can only be as good when it also coincides with the box
                    c.prove(n + ".others-nonnegative", d[o].t >= 0)
        case(f"shared-edge[{s}]", shared)

        def shared_code(n, g, s=s):
            # an axis box (rectangle or not) that shares exactly the edge s of a frame
            q, f = g.quad("frame")
            i = SIDES.index(s)
            c = ctx()
            v = [None] * 4
            v[(i + 2) % 4], v[(i + 3) % 4] = f[(i + 1) % 4], f[i]
            v[i], v[(i + 1) % 4] = P2(g.real("ax"), g.real("ay")), P2(g.real("ax"), g.real("ay"))
            r = w.pr.Quadrilateral(None, tuple(w.pr.Point(value=vec(*p)) for p in v))
            # non-degenerate: opposite sides do not both coincide
            for o in SIDES:
                if o != s:
                    c.assume(deviation2(f, v, o).t > 0)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = evaluate(n, mu.find_axis_position, q, r)
            if got != s:
                c.fail(n, f"axis sharing the {s} edge reported on {got!r}")
            else:
                c.prove(n, True)
        case(f"shared-edge-code[{s}]", shared_code)

    def measure(n, axis):
        return cr.get_axis_thickness(axis, axis.side)

    for s in SIDES:
        def body(n, g, s=s):
            axis, th = fake_axis(s)
            vis = axis.label.vis
            got = evaluate(n, measure, n, axis)
            same_values(n, got, [th()])
            ctx().prove(n + ".label-restored", as_bool(axis.label.vis) == vis.t)
            if not axis.measured_with_label:
                return ctx().fail(n + ".label-hidden", "no bounding box was measured")
            for v in axis.measured_with_label:
                ctx().prove(n + ".label-hidden", z3.Not(as_bool(v)))
        case(f"thickness[{s}]", body)

        def nobox(n, g, s=s):
            axis, _ = fake_axis(s, None)
            vis = axis.label.vis
            got = evaluate(n, measure, n, axis)
            same_values(n, got, [0])
            ctx().prove(n + ".label-restored", as_bool(axis.label.vis) == vis.t)
        case(f"no-box[{s}]", nobox)

        def fails(n, g, s=s):
            axis, _ = fake_axis(s, RuntimeError("no renderer"))
            vis = axis.label.vis
            try:
                measure(n, axis)
            except RuntimeError:
                ctx().prove(n + ".label-restored", as_bool(axis.label.vis) == vis.t)
            except Exception as e:
                internal(e)
                ctx().fail(n, f"raised {type(e).__name__} instead of the measurement's own error")
            else:
                ctx().fail(n, "a failing measurement is swallowed")
        case(f"failing[{s}]", fails)

    for s in ("default", "unknown"):
        def unknown(n, g, s=s):
            axis, _ = fake_axis("bottom")
            axis.side = s
            vis = axis.label.vis
            try:
                measure(n, axis)
            except ValueError:
                ctx().prove(n + ".label-restored", as_bool(axis.label.vis) == vis.t)
            except Exception as e:
                internal(e)
                ctx().fail(n, f"raised {type(e).__name__}")
            else:
                ctx().fail(n, "no error for ticks on both or no sides")
        case(f"side={s}", unknown)
