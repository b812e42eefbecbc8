"""Loops and comprehensions over symbolic sequences.

A loop over n symbolic elements is summarised by an invariant that gives every changed
variable as a function of the iteration number.  The invariant is guessed from the first
iteration and then verified at an arbitrary one; when no guess verifies, the loop is
unsupported (the obligation is undecided, never assumed).
"""
from __future__ import annotations

import ast

import z3

from .core import ctx, Ctx, Engine, Unsupported, Infeasible, Raised, Report, PROVED
from .scal import SymBool, SymInt, SymReal
from .seq import (VSeq, Unit, Tab, Join, Abs, PyList, PyDict, DictContent, KeyMap, as_vseq,
                  map_abs, zint, ilt, ieq, known_int, to_content)
from .interp import Frame, _Return, _Break, _Continue


class Poison:
    """Value of a loop-local variable outside the iteration that assigns it."""
    __pyvc_sym__ = True

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"value of loop variable {object.__getattribute__(self, '_n')} "
                          "carried between iterations")
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __len__ = __getitem__ = _bad
    __pyvc_truth__ = __pyvc_is__ = __pyvc_seq__ = __bool__ = __contains__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = _bad
    __hash__ = None

    def __repr__(self):
        return "Poison"


def snapshot(fr):
    """Copy of a frame (its variables as they are now)."""
    if fr.kind == "module" or fr.kind == "class":
        return fr
    f = Frame(fr.parent if fr.kind != "comp" else snapshot(fr.parent), fr.fi, fr.globals,
              fr.locals, fr.nonlocals, fr.globs, fr.kind)
    f.vars = dict(fr.vars)
    f.first = fr.first
    f.yields = fr.yields
    return f


class Impure(Unsupported):
    """An element of a comprehension has effects."""


def pure_at(fn, what):
    """fn as a function evaluated in the heap of now, which it must not change."""
    if Ctx.current is None:
        return fn
    nm = len(Ctx.current.mutations)

    def g(*a):
        c = ctx()
        mark = c.tick
        n0 = len(c.mutations)

        def run():
            k = len(c.mutations)
            r = fn(*a)
            for m in c.mutations[k:]:
                if not c.is_fresh(m.obj, mark):
                    raise Impure(f"{what} changes {type(m.obj).__name__} objects")
            return r
        if n0 == nm:
            return run_keep(c, run)
        if n0 < nm:
            return run_keep(c, run)
        return at_state_keep(c, nm, run, mark)
    return g


def run_keep(c, run):
    """Run; mutations of objects made during the run stay."""
    return run()


def at_state_keep(c, nm, run, mark):
    recs = c.rewind(nm)
    try:
        r = run()
    except BaseException:
        c.rewind(nm)
        c.redo(recs)
        raise
    own = c.mutations[nm:]
    del c.mutations[nm:]
    c.redo(recs)
    c.mutations.extend(own)
    return r


# ---- comprehensions -------------------------------------------------------------------

def comprehension(interp, e, fr, kind):
    from .index import comp_elements
    e = comp_elements(interp, e, fr)
    gens = e.generators
    first = interp.eval(gens[0].iter, fr)
    if isinstance(e, ast.DictComp):
        def elt(cf):
            return (interp.eval(e.key, cf), interp.eval(e.value, cf))
    else:
        def elt(cf):
            return interp.eval(e.elt, cf)
    locs = set()
    from .interp import target_names
    for g in gens:
        target_names(g.target, locs)
    locs = frozenset(locs)

    def frame(parent):
        return Frame(parent, fr.fi, fr.globals, locs, kind="comp")

    def concrete(it):
        sv = as_vseq(it, interp, native_ok=False)
        if sv is None:
            return interp.iterate(it)
        c = sv.concrete()
        return None if c is None else iter(c)

    def gen(k, cf, it):
        """Lazy Python generator over concrete iterables."""
        for x in it:
            interp.assign(gens[k].target, x, cf)
            if not all(interp.truth(interp.eval(t, cf)) for t in gens[k].ifs):
                continue
            if k + 1 == len(gens):
                yield elt(cf)
            else:
                nxt = interp.eval(gens[k + 1].iter, cf)
                cc = concrete(nxt)
                if cc is None:
                    raise NeedSym()
                yield from gen(k + 1, cf, cc)

    sv = as_vseq(first, interp, native_ok=False)
    if sv is not None:
        sv.settle()
    it = concrete(first)
    if it is not None:
        cf = frame(fr)
        if kind == "iter" and len(gens) == 1:
            return gen(0, cf, it)
        items = list(it)
        try:
            out = list(gen(0, cf, iter(items)))
        except NeedSym:
            sv = VSeq.of(items)
        else:
            return finish_concrete(interp, out, kind)
    snap = snapshot(fr)
    if Ctx.current is None:
        raise Unsupported("symbolic comprehension outside a proof")

    def run(k, vals, v):
        """VSeq of the results of generators k.. over the sequence v."""
        simple = k + 1 == len(gens) and not gens[k].ifs
        segs = []

        def one(x):
            cf = frame(snap)
            for t, y in zip(gens, vals):
                interp.assign(t.target, y, cf)
            interp.assign(gens[k].target, x, cf)
            return cf

        def unit(x):
            cf = one(x)
            if not all(interp.truth(interp.eval(t, cf)) for t in gens[k].ifs):
                return VSeq([])
            if k + 1 == len(gens):
                return VSeq.unit(elt(cf))
            nv = as_vseq(interp.eval(gens[k + 1].iter, cf), interp)
            if nv is None:
                raise Unsupported("nested comprehension over a non-sequence")
            return run(k + 1, vals + [x], nv.settle())
        for s in v.segs:
            if isinstance(s, Unit):
                segs.extend(unit(s.x).segs)
            elif isinstance(s, Tab):
                if simple:
                    segs.append(guard(s.n, lambda i, f=s.f: elt(one(f(i))), Tab))
                else:
                    segs.append(guard(s.n, lambda i, f=s.f: unit(f(i)), Join))
            elif isinstance(s, Join):
                segs.append(guard(s.n, lambda i, f=s.f: run(k, vals, f(i)), Join))
            else:
                gen_ = s.info.get("generic")
                if gen_ is None and not simple:
                    raise Unsupported("filter or nested loop over an opaque sequence")
                if gen_ is not None:
                    base = s
                    for r in ctx().sub(lambda: unit(apply_maps(gen_(), base))):
                        if isinstance(r, Raised):
                            raise Unsupported("an element of a comprehension may raise")
                if simple:
                    segs.append(map_abs(s, pure_at(lambda x: elt(one(x)), "a comprehension")))
                else:
                    segs.append(flat_abs(s, pure_at(unit, "a comprehension")))
        return VSeq(segs)

    lazy = kind == "iter"
    pend = []

    def guard(n, f, cls):
        f = pure_at(f, "a comprehension")
        if lazy:
            box = []
            pend.append(lambda: box.append(1) or settle_exits(n, f, box))
            return cls(n, lambda i: noraise(f, box, i))
        box = []
        res = settle_exits(n, f, box)
        if cls is Join and res and all(isinstance(r, VSeq) and len(r.segs) == 1
                                       and isinstance(r.segs[0], Unit) for r in res):
            return Tab(n, lambda i: only(noraise(f, box, i)))
        if cls is Join and res and all(isinstance(r, VSeq) and not r.segs for r in res):
            return Tab(0, f)
        return cls(n, lambda i: noraise(f, box, i))

    def only(v):
        if len(v.segs) != 1 or not isinstance(v.segs[0], Unit):
            raise Infeasible()
        return v.segs[0].x
    try:
        out = run(0, [], sv)
    except Impure:
        if kind not in ("list", "dict"):
            raise
        return as_loop(interp, e, frame(snap), kind, first)
    if kind == "iter":
        r = VSeq(out.segs, "iter", (lambda: [p() for p in pend]) if pend else None)
        return r
    if kind == "list":
        return PyList.sym(out)
    if kind == "dict":
        return dict_from(out)
    return SetOf(out)


def as_loop(interp, e, cf, kind, first):
    """A comprehension whose elements have effects, as the loop it stands for."""
    cf.locals = cf.locals | {"%first", "%out", "%key", "%value"}
    cf.vars["%first"] = first
    cf.vars["%out"] = out = ctx().made(PyList() if kind == "list" else PyDict())

    def name(x, store=False):
        return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())
    if kind == "list":
        body = [ast.Expr(ast.Call(ast.Attribute(name("%out"), "append", ast.Load()), [e.elt], []))]
    else:
        body = [ast.Assign([name("%key", True)], e.key), ast.Assign([name("%value", True)], e.value),
                ast.Assign([ast.Subscript(name("%out"), name("%key"), ast.Store())], name("%value"))]
    for k, g in reversed(list(enumerate(e.generators))):
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        body = [ast.For(g.target, name("%first") if k == 0 else g.iter, body, [])]
    for s in body:
        ast.copy_location(s, e)
        ast.fix_missing_locations(s)
    interp.exec_block(body, cf)
    return out


class NeedSym(Exception):
    pass


class SetOf:
    """A set known as the sequence of its (possibly repeated) elements."""
    __pyvc_sym__ = True

    def __init__(self, seq):
        self.seq = seq

    def __pyvc_contains__(self, interp, x):
        from .models import some
        return some(interp, self.seq.map(lambda y: y == x))


def apply_maps(x, s):
    for g in s.info.get("maps", ()):
        x = g(x)
    return x


def flat_seq(v, g):
    """The concatenation of g(x) for the elements x of v."""
    segs = []
    for s in v.segs:
        if isinstance(s, Unit):
            segs.extend(g(s.x).segs)
        elif isinstance(s, Tab):
            segs.append(Join(s.n, lambda i, f=s.f: g(f(i))))
        elif isinstance(s, Join):
            segs.append(Join(s.n, lambda i, f=s.f: flat_seq(f(i), g)))
        else:
            segs.append(flat_abs(s, g))
    return VSeq(segs)


def flat_abs(s, g):
    """The concatenation of g(x) for the elements x of an opaque sequence."""
    gen = s.info.get("generic")

    def generic():
        xs = g(apply_maps(draw(s), s)).concrete()
        if xs is None:
            raise Unsupported("an arbitrary element of a nested sequence")
        if not xs:
            raise Infeasible()
        return xs[ctx().choose(len(xs))] if len(xs) > 1 else xs[0]
    return Abs("flat", (s,), (lambda: flat_seq(s.unfold(), g)) if s._unfold else None,
               flat=g, eq=same_flat, **({"generic": generic} if gen else {}))


def draw(s):
    """An arbitrary element of the base of s."""
    c = ctx()
    x = s.info["generic"]()
    base = s.info.get("base", s)
    if base.tag != "flat":
        c.store["drawn"] = c.store.get("drawn", ()) + ((base, x),)
    return x


def expand(a):
    """(r, h): a is the concatenation of h(x) for the elements x of r."""
    base = a.info.get("base", a)
    if base.tag == "flat":
        root, h = expand(base.args[0])
        g = base.info["flat"]

        def f(x):
            return flat_seq(h(x), g)
    else:
        root, f = base, VSeq.unit
    for m in a.info.get("maps", ()):
        def f(x, f=f, m=m):
            return f(x).map(m)
    return root, f


def same_flat(name, p, q):
    from .same import same, same_abs
    c = ctx()
    (r, f), (r2, f2) = expand(p), expand(q)
    if "flat" in (r.tag, r2.tag) or r.info.get("generic") is None:
        return None
    if r is not r2 and not same_abs(name, r, r2, 0, ""):
        return None

    def element():
        x = draw(r)
        if not r.info.get("exact"):
            c.inexact("an arbitrary element of an opaque sequence")
        same(name, f(x), f2(x))
    c.under(name, [], element)
    return True


class AbsMap:
    """Dictionary entries given by an opaque sequence of pairs whose keys are pairwise distinct."""

    def __init__(self, items, before=None, partial=False):
        self._items = items
        self.before = before           # only those of the elements before this one
        self.partial = partial or before is not None

    @property
    def items(self):
        if self.partial:
            raise Unsupported("reading a dictionary while an opaque loop fills it")
        return self._items

    def keys(self):
        return map_abs(self.items, lambda x: x[0])

    def values(self):
        return map_abs(self.items, lambda x: x[1])

    def find(self, k):
        """None: k is not a key, or the entry with key k."""
        c = ctx()
        r, h = expand(self._items)
        dis = r.info.get("distinct")
        if self.before is None:
            if not self.partial:
                for b, x in reversed(c.store.get("drawn", ())):
                    if b is r:
                        for y in h(x).concrete() or ():
                            e = y[0] == k
                            if e is True or e is not False and c.entails(e.t):
                                return y
            raise Unsupported("membership in a dictionary made from an opaque sequence")
        if dis is None or r.info.get("generic") is None:
            raise Unsupported("keys from an opaque sequence may repeat")

        def other():
            x = r.info["generic"]()
            c.assume(dis(x, self.before))
            ys = h(x).concrete()
            if ys is None or len(ys) > 1:
                raise Unsupported("several dictionary entries of one element")
            for y in ys:
                e = y[0] == k
                if e is True or e is not False and not c.entails(z3.Not(e.t)):
                    return False
            return True
        if not all(x is True for x in c.sub(other)):
            raise Unsupported("keys from an opaque sequence may repeat")
        return None


def abs_dict(items):
    """Content of the dictionary made from an opaque sequence of pairs."""
    r, h = expand(items)
    gen = r.info.get("generic")
    if gen is None or r.info.get("distinct") is None:
        raise Unsupported("dictionary from an opaque sequence")

    def check():
        x = gen()
        for y in h(x).concrete() or ():
            AbsMap(items, x).find(y[0])
        return True
    for x in ctx().sub(check):
        if isinstance(x, Raised):
            raise Unsupported("an entry of a dictionary may raise")
    return DictContent([("abs", AbsMap(items))])


def finish_concrete(interp, out, kind):
    if kind == "list":
        return PyList(out) if Ctx.current is not None else out
    if kind == "iter":
        return iter(out)
    if kind == "set":
        return interp.build_set(out)
    return interp.build_dict(out)


def noraise(f, box, i):
    """f(i) under the knowledge that no element raised."""
    if "noraise" not in box:
        return f(i)
    try:
        return f(i)
    except Exception:
        raise Infeasible()


def settle_exits(n, f, box):
    """Every element is evaluated: either none raises, or the first that raises does."""
    c = ctx()
    res = c.forall(n, f)
    if not any(isinstance(r, Raised) for r in res):
        return res
    if c.choose(2) == 0:
        def h(j):
            try:
                f(j)
            except Exception:
                raise Infeasible()
        c.hyp(n, h)
        box.append("noraise")
        return
    j = c.index(n)
    f(j)              # raises, or
    raise Infeasible()


def dict_from(v):
    """Dictionary built from a sequence of (key, value) pairs, later pairs win."""
    d = DictContent([])
    for s in v.segs:
        if isinstance(s, Unit):
            d = d.put(*s.x)
        elif isinstance(s, Tab) and isinstance(s.n, int) and s.n <= 16:
            for i in range(s.n):
                d = d.put(*s.f(i))
        elif isinstance(s, Tab):
            m = keymap_of(s.n, lambda i, f=s.f: f(i)[0], lambda i, f=s.f: f(i)[1])
            d = d.merge_new(m)
        elif isinstance(s, Abs) and not d.parts and len(v.segs) == 1:
            d = abs_dict(s)
        else:
            raise Unsupported("dictionary from a nested symbolic sequence")
    r = PyDict()
    r.set_state(d)
    return r


def keymap_of(n, key, value):
    c = ctx()
    maps = c.store.setdefault("keymaps", [])
    for m in maps:
        if same_n(m.n, n):
            r = c.forall(n, lambda i: entails_eq(m.key(i), key(i)))
            if r and all(x is True for x in r):
                return KeyMap(n, m.key, value, m.name, m.has, m.idx)
    # pairwise distinct?
    i, j = z3.Int(c.fresh("i")), z3.Int(c.fresh("j"))

    def clash():
        e = key(SymInt(i)) == key(SymInt(j))
        return e is not False and (e is True or c.branch(e.t))
    r = c.sub(clash, assume=[i >= 0, i < j, j < zint(n)])
    if not all(x is False for x in r):
        raise Unsupported("dictionary with possibly repeated symbolic keys")
    m = KeyMap(n, key, value)
    register(m)
    return m


def register(m):
    ctx().store.setdefault("keymaps", []).append(m)
    return m


def same_n(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().entails(zint(a) == zint(b))


def entails_eq(a, b):
    e = a == b
    if isinstance(e, bool):
        return e
    return ctx().entails(e.t)


# ---- loops ----------------------------------------------------------------------------

def for_loop(interp, s, fr):
    from .index import run_for
    if run_for(interp, s, fr):
        return
    it = interp.eval(s.iter, fr)
    sv = as_vseq(it, interp, native_ok=False)
    if sv is not None:
        c = sv.settle().concrete() if not isinstance(it, PyList) else sv.concrete()
        if c is not None:
            it, sv = c, None
    if sv is None:
        for x in interp.iterate(it):
            interp.assign(s.target, x, fr)
            try:
                interp.exec_block(s.body, fr)
            except _Continue:
                continue
            except _Break:
                return
        interp.exec_block(s.orelse, fr)
        return
    for g in sv.segs:
        if isinstance(g, Unit):
            interp.assign(s.target, g.x, fr)
            try:
                interp.exec_block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                return
        elif isinstance(g, Tab):
            def start(i, g=g):
                interp.assign(s.target, g.f(i), fr)
            try:
                summarise(interp, fr, s.body, g.n, start)
            except _Break:
                return
        elif isinstance(g, Abs) and g.elem is not None:
            def start(i, g=g):
                interp.assign(s.target, g.elem(i), fr)
            try:
                summarise(interp, fr, s.body, g.length(), start)
            except _Break:
                return
        elif isinstance(g, Join):
            inner = ast.For(target=s.target, iter=ast.Constant(value=None), body=s.body, orelse=[])

            class Inner:
                pass

            def start(i, g=g):
                fr.vars["%join"] = g.f(i)
            inner.iter = ast.Name(id="%join", ctx=ast.Load())
            fr.locals = fr.locals | {"%join"}
            try:
                summarise(interp, fr, [inner], g.n, start)
            except _Break:
                raise Unsupported("break inside a nested symbolic loop")
        elif isinstance(g, Abs) and g.info.get("generic") is not None:
            interp.opaque_loop(interp, fr, s, g)
        else:
            raise Unsupported(f"loop over an opaque sequence {g.tag}")
    interp.exec_block(s.orelse, fr)


UNROLL = 2


def summarise(interp, fr, body, n, start):
    """The loop by an invariant; when none is found, its runs of a few iterations only."""
    sm = Summary(interp, fr, body, n, start)
    keep = dict(fr.vars)
    try:
        return sm.run()
    except Unsupported:
        if sm.committed:
            raise
        fr.vars.clear()
        fr.vars.update(keep)
        c = ctx()
        for k in range(UNROLL + 1):
            if c.branch(zint(n) == k):
                return
            if k == UNROLL:
                raise
            start(k)
            try:
                interp.exec_block(body, fr)
            except _Continue:
                pass


def while_loop(interp, s, fr):
    from .index import run_while
    if run_while(interp, s, fr):
        return
    n = 0
    c = Ctx.current
    forked = False
    forever = isinstance(s.test, ast.Constant) and s.test.value
    while True:
        if c is not None:
            d0 = len(c.taken)
        t = interp.eval(s.test, fr)
        if isinstance(t, SymBool) and c is not None:
            k = c.known(t)
            if k is None:
                return symbolic_while(interp, s, fr)
            t = k
        if not interp.truth(t):
            break
        if c is not None and len(c.taken) > d0:
            return symbolic_while(interp, s, fr)
        if c is not None and forever and forked:
            return symbolic_while(interp, s, fr)
        n += 1
        if n > 500:
            raise Unsupported("loop runs too long")
        try:
            interp.exec_block(s.body, fr)
        except _Continue:
            pass
        except _Break:
            return
        forked = c is not None and len(c.taken) > d0
    interp.exec_block(s.orelse, fr)


class NonTermination(Exception):
    """The program does not terminate."""


def symbolic_while(interp, s, fr):
    c = ctx()
    c.report.assumed.add("partial correctness: while loops are assumed to terminate")

    def start(i):
        if not interp.truth(interp.eval(s.test, fr)):
            raise Infeasible()
    k = z3.Int(c.fresh("iters"))
    c.assume(k >= 0)
    n = SymInt(k)
    sm = Summary(interp, fr, s.body, n, start, open_ended=True)

    def done():
        if interp.truth(interp.eval(s.test, fr)):
            raise Infeasible()
    keep = dict(fr.vars)
    try:
        sm.run(done)
    except _Break:
        return
    except Unsupported:
        if sm.committed:
            raise
        # no invariant: at least the runs of a few iterations
        fr.vars.clear()
        fr.vars.update(keep)
        for _ in range(UNROLL + 1):
            if not interp.truth(interp.eval(s.test, fr)):
                break
            if _ == UNROLL:
                raise
            try:
                interp.exec_block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                return
    interp.exec_block(s.orelse, fr)


class Cell:
    pass


class VarCell(Cell):
    def __init__(self, fr, name):
        self.fr, self.name = fr, name

    def get(self):
        return self.fr.vars.get(self.name, _unset)

    def set(self, v):
        if v is _unset:
            self.fr.vars.pop(self.name, None)
        else:
            self.fr.vars[self.name] = v


class StateCell(Cell):
    """Content of a list or dictionary object."""

    def __init__(self, o):
        self.o = o
        self.name = type(o).__name__
        self.key = id(o), None

    def get(self):
        return self.o.state()

    def set(self, v):
        self.o.set_state(v)


class AttrCell(Cell):
    def __init__(self, m):
        self.o = m.obj
        self.m = m
        self.name = type(m.obj).__name__
        self.key = m.key

    def get(self):
        return self.m.snap()

    def set(self, v):
        from .core import Mut
        ctx().mutations.append(Mut(self.o, self.m.snap, self.m.restore, self.m.part))
        self.m.restore(v)


_unset = object()


class Template:
    pass


class Stepped(Template):
    """A template that checks the step of the induction itself: step(before, after)."""


class Const(Template):
    def __init__(self, v):
        self.v = v

    def at(self, i):
        return self.v


class Affine(Template):
    def __init__(self, v, d):
        self.v, self.d = v, d

    def at(self, i):
        return self.v + self.d * i


class Temp(Template):
    def __init__(self, name):
        self.name = name

    def at(self, i):
        return Poison(self.name)


class Restart(BaseException):
    """An element of a sequence depends on the one before it."""


class Append(Template):
    """Sequence v extended by delta(j) in iteration j."""

    def __init__(self, v, delta, obj, single=False, running=None):
        self.v, self.delta, self.obj = v, delta, obj
        self.single = single        # every iteration adds exactly one element
        self.running = running      # makes the recurrence of the last element
        self.fold = None
        self.depth = 0

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return self.wrap(self.v)
        if self.single:
            return self.wrap(VSeq(self.v.segs + [Tab(i, self.one)], self.v.kind))
        return self.wrap(VSeq(self.v.segs + [Join(i, self.delta)], self.v.kind))

    def one(self, j):
        if self.fold is not None:
            return self.fold.at(j + 1)
        if self.depth >= 4 and self.running is not None:
            raise Restart()
        self.depth += 1
        try:
            segs = self.delta(j).segs
        except Restart:
            if self.depth > 1:
                raise
            self.fold = self.running()
            if self.fold is None:
                raise Unsupported("an element of a list depends on the others")
        finally:
            self.depth -= 1
        if self.fold is not None:
            return self.fold.at(j + 1)
        if len(segs) != 1 or not isinstance(segs[0], Unit):
            raise Unsupported("a loop adds a varying number of elements")
        return segs[0].x

    def wrap(self, v):
        return PyList.sym(VSeq(v.segs, "list")) if self.obj == "pylist" else (
            v.kindly(v.kind) if self.obj == "value" else v)


class Consume(Template):
    """Sequence whose first nested segment loses one element per iteration."""

    def __init__(self, v, obj):
        self.v, self.obj = v, obj

    def at(self, i):
        g = self.v.segs[0]
        f = g.f
        first = type(g)(g.n - i, lambda j, f=f, i=i: f(j + i))
        v = VSeq([first] + self.v.segs[1:], self.v.kind)
        return PyList.sym(VSeq(v.segs, "list")) if self.obj == "pylist" else (
            v.kindly(v.kind) if self.obj == "value" else v)


class DictGrow(Template):
    """Dictionary that gains one new entry per iteration."""

    def __init__(self, parts, entry, obj, n):
        self.parts, self.entry, self.obj = parts, entry, obj
        self.map = None
        self.n = n

    def at(self, i):
        if isinstance(i, int) and i == 0:
            d = DictContent(self.parts)
        else:
            if self.map is None:
                self.map = keymap_of(self.n, lambda j: self.entry(j)[1], lambda j: self.entry(j)[2])
            m = self.map
            if same_n(i, self.n):
                part = KeyMap(self.n, m._key, m._value, m.name, m.has, m.idx)
            else:
                # the first i entries: membership is membership in the whole with a smaller position
                part = KeyMap(i, m.key, m._value)
            d = DictContent(self.parts + [("map", part)])
        if self.obj == "value":
            r = PyDict()
            r.set_state(d)
            return r
        return d


class AffineStr(Template):
    """A string whose printed numbers change by constants."""

    def __init__(self, v, ps, ds):
        self.v, self.ps, self.ds = v, ps, ds

    def at(self, i):
        from .strs import SymStr, IntStr
        if isinstance(i, int) and i == 0:
            return self.v
        return SymStr([IntStr(p.n + d * zint(i)) if isinstance(p, IntStr) else p
                       for p, d in zip(self.ps, self.ds)])

    @staticmethod
    def of(v0, v1s):
        from .strs import SymStr, IntStr
        if not isinstance(v0, SymStr) or not all(isinstance(v, SymStr) for v in v1s):
            return None
        ds = None
        ps0 = AffineStr.pieces(v0)
        for v in v1s:
            ps = AffineStr.pieces(v)
            if len(ps) != len(ps0):
                return None
            cur = []
            for p, q in zip(ps0, ps):
                if isinstance(p, IntStr) and isinstance(q, IntStr):
                    d = known_int(SymInt(z3.simplify(q.n - p.n)))
                    if d is None:
                        return None
                    cur.append(d)
                elif isinstance(p, str) and p == q or (
                        not isinstance(p, (str, IntStr)) and type(p) is type(q) and p.t.eq(q.t)):
                    cur.append(0)
                else:
                    return None
            if ds is not None and ds != cur:
                return None
            ds = cur
        return AffineStr(v0, ps0, ds)

    @staticmethod
    def pieces(v):
        """Literal pieces are cut at their numbers."""
        import re
        from .strs import IntStr
        out = []
        for p in v.ps:
            if isinstance(p, str):
                for q in re.split(r"(\d+)", p):
                    if q.isdigit() and (q == "0" or q[0] != "0"):
                        out.append(IntStr(z3.IntVal(int(q))))
                    elif q:
                        out.append(q)
            else:
                out.append(p)
        return out


class DictAffine(Template):
    """Dictionary with fixed keys some of whose entries are integers changing by constants."""

    def __init__(self, parts, ds, obj):
        self.parts, self.ds, self.obj = parts, ds, obj

    def at(self, i):
        if isinstance(i, int) and i == 0:
            out = self.parts
        else:
            out = []
            for p, d in zip(self.parts, self.ds):
                if p[0] == "kv":
                    out.append(("kv", p[1], p[2] + d * i if d else p[2]))
                else:
                    m = p[1]
                    for j, dj in d:
                        m = m.override(j, m.value(j) + dj * i)
                    out.append(("map", m))
        d = DictContent(out)
        if self.obj == "value":
            r = PyDict()
            r.set_state(d)
            return r
        return d

    @staticmethod
    def slots(p0, p1):
        """Pairs of slots of two contents with the same keys, or None."""
        if len(p0) != len(p1):
            return None
        out = []
        for a, b in zip(p0, p1):
            if a[0] != b[0]:
                return None
            if a[0] == "kv":
                if a[1] is not b[1] and not entails_eq(a[1], b[1]):
                    return None
                out.append([(None, a[2], b[2])])
            elif a[0] == "abs":
                if a[1] is not b[1]:
                    return None
                out.append([])
            else:
                if a[1] is b[1]:
                    out.append([])
                    continue
                if a[1].name != b[1].name or a[1]._value is not b[1]._value:
                    return None
                ix = []
                for i, _ in a[1].over + b[1].over:
                    if not any(same_n(i, j) for j in ix):
                        ix.append(i)
                out.append([(i, a[1].value(i), b[1].value(i)) for i in ix])
        return out

    @staticmethod
    def of(p0, p1s, obj):
        ds = None
        for p1 in p1s:
            sl = DictAffine.slots(p0, p1)
            if sl is None:
                return None
            cur = []
            for p, ss in zip(p0, sl):
                row = []
                for i, x, y in ss:
                    if x is y:
                        d = 0
                    elif isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)):
                        d = y - x
                        d = d if isinstance(d, int) else known_int(d)
                    else:
                        d = None
                    if d is None:
                        return None
                    row.append((i, d))
                cur.append(row[0][1] if p[0] == "kv" else row)
            if ds is not None and str(ds) != str(cur):
                return None
            ds = cur
        return DictAffine(p0, ds, obj)


class Fresh(Template):
    """No information: an arbitrary value of the same kind."""

    def __init__(self, make, v):
        self.make, self.v = make, v
        self.memo = {}

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return self.v
        k = str(getattr(i, "t", i))
        if k not in self.memo:
            self.memo[k] = self.make()
        return self.memo[k]


class Flag(Template):
    """A boolean that, once it has the value `top`, keeps it: after i iterations it is `top`
    exactly when it was at the start or some iteration j < i makes it so."""

    def __init__(self, v, top, step, check):
        self.v, self.top, self.step = v, top, step
        self.check = check              # the flag keeps the value `top`
        self.memo = {}

    def at(self, i):
        c = ctx()
        if isinstance(i, int) and i == 0:
            return self.v
        v = self.v if isinstance(self.v, bool) else c.branch(self.v.t)
        if v == self.top:
            return self.top
        k = str(getattr(i, "t", i))
        key = ("flag", id(self), k)
        if key not in c.memo:
            b = z3.Bool(c.fresh("flag"))

            def turned(j, want):
                r = self.step(j, not self.top)
                r = r if isinstance(r, bool) else c.branch(r.t)
                if (r == self.top) != want:
                    raise Infeasible()
            if c.branch(b):
                j = c.index(i)
                turned(j, True)
                c.hyp(j, lambda q: turned(q, False))
                c.memo[key] = (self, True)
            else:
                c.hyp(i, lambda q: turned(q, False))
                c.memo[key] = (self, False)
        return self.top if c.memo[key][1] else not self.top


class FoldT(Template):
    """A value defined by what the body makes of it."""

    def __init__(self, v, n, step):
        from .folds import Fold
        self.fold = Fold(v, n, step, "acc", close=False)

    def at(self, i):
        return self.fold.at(i)


class Last(Template):
    """A number that every iteration assigns: after i > 0 iterations it has the value f(i), where
    f is an uninterpreted function defined by the body (its definition is used one level deep)."""

    def __init__(self, v, value, name):
        self.v, self.value = v, value
        self.f = z3.Function(ctx().fresh(name), z3.IntSort(), z3.RealSort())

    def at(self, i):
        c = ctx()
        if isinstance(i, int) and i == 0 or not isinstance(i, int) and c.branch(zint(i) == 0):
            return self.v
        x = SymReal(self.f(zint(i)))
        key = ("last", id(self), zint(i).sexpr())
        if c.store.get("last") or key in c.memo:
            return x
        c.memo[key] = self
        c.store["last"] = True
        try:
            v = self.value(i - 1)
        finally:
            c.store["last"] = False
        v = SymReal.lift(v)
        if v is None:
            raise Unsupported("a number that is not always a number")
        c.assume(x.t == v)
        return x


class Summary:
    def __init__(self, interp, fr, body, n, start, open_ended=False):
        self.interp, self.fr, self.body, self.n, self.start = interp, fr, body, n, start
        self.open = open_ended
        self.committed = False

    def run(self, done=None, final=None):
        c = ctx()
        fr = self.fr
        if fr.kind == "module":
            raise Unsupported("symbolic loop at module level")
        self.mark = c.tick
        self.nm = len(c.mutations)
        self.vars0 = dict(fr.vars)
        self.cells = []
        self.templates = []
        # --- probe the first iteration
        probes = []

        def probe():
            m0 = len(c.mutations)
            keep = dict(fr.vars)
            try:
                kind = self.body_once(0)
                muts = list(c.mutations[m0:])
                probes.append((kind, dict(fr.vars), self.heap_after(muts)))
            finally:
                fr.vars.clear()
                fr.vars.update(keep)
        nz = zint(self.n)
        res = c.sub(probe, assume=[nz > 0])
        if not probes and not any(isinstance(r, Raised) for r in res):
            # body is never completed: n = 0, or every path leaves the loop
            pass
        self.guess(probes)
        if self.open and any(kind == "normal" for kind, _, _ in probes) and not self.cells:
            # an iteration leaves everything as it was: there is no last one
            self.committed = True
            if c.choose(2) == 1:
                if self.body_once(0) == "normal":
                    raise NonTermination("the loop never terminates: an iteration changes nothing")
            self.n = 0
            c.assume(nz == 0)
            return done() if done is not None else None
        for t in self.templates:
            # with all other variables at that iteration
            if isinstance(t, Flag) and not t.check():
                raise Unsupported("a flag may change back")
            if isinstance(t, FoldT):
                t.fold.close()
        # --- verify at an arbitrary iteration
        i = z3.Int(c.fresh("it"))
        self.exits = False
        rep, c.report = c.report, Report()
        try:
            res = c.sub(lambda: self.step(SymInt(i)), assume=[i >= 0, i < nz])
            bad = [o.name + ": " + str(o.detail) for o in c.report.obls.values() if o.status != PROVED]
        finally:
            rep.functions |= c.report.functions
            rep.contracts |= c.report.contracts
            rep.assumed |= c.report.assumed
            rep.solver_s += c.report.solver_s
            c.report = rep
        if bad:
            raise Unsupported(f"no loop invariant found ({bad[0][:3000]})")
        if any(isinstance(r, Raised) for r in res) or any(r == "exit" for r in res):
            self.exits = True
            self.why = [r for r in res if isinstance(r, Raised)]
        self.committed = True
        if final is not None:
            return final()
        # --- continue after the loop, or at the iteration that leaves it
        if self.exits and c.choose(2) == 1:
            j = c.index(self.n)
            c.hyp(j, self.normal_at)
            self.put(j)
            self.start(j)
            try:
                self.interp.exec_block(self.body, fr)
            except _Continue:
                pass
            raise Infeasible()
        if self.exits or self.open:
            c.hyp(self.n, self.normal_at)
        self.put(self.n)
        if done is not None:
            done()

    def heap_after(self, muts):
        c = ctx()
        out = []
        seen = set()
        for m in muts:
            if m.key in seen or c.is_fresh(m.obj, self.mark):
                continue
            seen.add(m.key)
            if isinstance(m.obj, (PyList, PyDict)):
                out.append((StateCell(m.obj), m.obj.state()))
            else:
                out.append((AttrCell(m), m.snap()))
        return out

    def body_once(self, i):
        self.start(i)
        try:
            self.interp.exec_block(self.body, self.fr)
        except _Continue:
            pass
        except (_Return, _Break):
            return "exit"
        return "normal"

    def guess(self, probes):
        fr = self.fr
        normal = [p for p in probes if p[0] == "normal"]
        names = []
        for _, vs, _ in normal:
            for k in vs:
                if k not in names and (k not in self.vars0 or vs[k] is not self.vars0[k]):
                    names.append(k)
        for k in names:
            self.add(VarCell(fr, k), self.vars0.get(k, _unset),
                     [vs.get(k, _unset) for _, vs, _ in normal], "value")
        objs = {}
        for _, _, heap in normal:
            for cell, after in heap:
                objs.setdefault(cell.key, (cell, []))[1].append(after)
        for cell, after in objs.values():
            v0 = cell.get()
            if len(after) < len(normal):
                after.append(v0)              # on some paths it is left alone
            self.add(cell, v0, after, "state")

    def add(self, cell, v0, v1s, obj):
        k = len(self.cells)
        self.cells.append(cell)
        self.templates.append(None)
        self.templates[k] = self.template(k, cell, v0, v1s, obj)

    def template(self, k, cell, v0, v1s, obj):
        if v0 is _unset or isinstance(v0, Poison):
            return Temp(cell.name)
        v1 = v1s[0]
        num = (int, SymInt)
        if isinstance(v0, num) and not isinstance(v0, bool) and all(
                isinstance(x, num) and not isinstance(x, bool) for x in v1s):
            d = v1 - v0
            kd = known_int(d) if not isinstance(d, int) else d
            if kd is not None and all(same_n(x - v0, kd) for x in v1s):
                return Affine(v0, kd)
            if not self.open:
                return self.fold_template(k, v0)
            return Temp(cell.name)
        t = AffineStr.of(v0, v1s)
        if t is not None:
            return t
        if isinstance(v0, DictContent) or isinstance(v0, PyDict):
            return self.dict_template(k, v0, v1s, obj)
        s0 = as_vseq(v0) if not isinstance(v0, VSeq) else v0
        if s0 is not None:
            o = "pylist" if isinstance(v0, list) else obj
            ss = [x if isinstance(x, VSeq) else as_vseq(x) for x in v1s]
            if all(s is not None for s in ss):
                m = len(s0.segs)
                if all(len(s.segs) >= m and all(same_seg(p, q) for p, q in zip(s.segs, s0.segs))
                       for s in ss):
                    single = all(len(s.segs) == m + 1 and isinstance(s.segs[m], Unit) for s in ss)
                    return Append(s0, lambda j, k=k: self.delta(k, j), o, single,
                                  lambda: self.running(k, s0, o))
                if m and isinstance(s0.segs[0], (Tab, Join)) and any(
                        len(s.segs) >= m - 1 for s in ss):
                    return Consume(s0, o)
        from .folds import kind_of
        kd = kind_of(v0)
        if not self.open and isinstance(v0, (bool, SymBool)) and all(
                isinstance(x, (bool, SymBool)) for x in v1s):
            t = self.flag_template(k, v0)
            if t is not None:
                return t
        infinite = isinstance(v0, float) and v0 - v0 != 0
        if kd is not None and not infinite and (not self.open or getattr(v0, "__pyvc_free__", False)) and all(
                kind_of(x) is not None and kind_of(x)[0] == kd[0] for x in v1s):
            return self.fold_template(k, v0)
        if isinstance(v0, (float, SymReal)) and all(isinstance(x, (float, SymReal)) for x in v1s):
            return Last(v0, lambda j, k=k: self.isolated(j, lambda: self.assigned(k, j)), cell.name)
        mk = self.fresh_like(v0)
        if mk is not None and all(self.fresh_like(x) is not None for x in v1s):
            return Fresh(mk, v0)
        return Temp(cell.name)

    def running(self, k, v, obj):
        """The recurrence of the last element of a list, or None."""
        from .folds import Fold, kind_of
        if not v.segs or not isinstance(v.segs[-1], Unit) or kind_of(v.segs[-1].x) is None:
            return None

        def unread(i):
            raise Unsupported("an element of a list depends on several others")

        def step(j, x):
            def go():
                seq = VSeq(v.segs[:-1] + [Tab(j, unread), Unit(x)], v.kind)
                self.cells[k].set(Append(seq, None, obj).at(0))
                if self.body_once(j) != "normal":
                    raise Infeasible()
                segs = self.seq_of(self.cells[k].get()).segs
                if not isinstance(segs[-1], Unit):
                    raise Unsupported("a loop adds a varying number of elements")
                return segs[-1].x
            hold = self.templates[k]
            self.templates[k] = Const(None)
            try:
                return self.isolated(j, go)
            finally:
                self.templates[k] = hold
        return Fold(v.segs[-1].x, self.n, step, "running")

    def assigned(self, k, j):
        if self.body_once(j) != "normal":
            raise Infeasible()
        return self.cells[k].get()

    def fold_template(self, k, v0):
        def step(j, x):
            def go():
                self.cells[k].set(x)
                if self.body_once(j) != "normal":
                    raise Infeasible()
                return self.cells[k].get()
            return self.isolated(j, go)
        return FoldT(v0, self.n, step)

    def flag_template(self, k, v0):
        """The value the flag keeps once it has it, or None."""
        c = ctx()
        step = self.fold_step(k)
        for top in (False, True):
            def keeps(j, top=top):
                r = step(j, top)
                return isinstance(r, (bool, SymBool)) and (
                    r == top if isinstance(r, bool) else c.entails(r.t if top else z3.Not(r.t)))

            def check(keeps=keeps):
                hold = self.templates[k]
                self.templates[k] = Const(None)
                try:
                    res = c.forall(self.n, keeps)
                except Unsupported:
                    return False
                finally:
                    self.templates[k] = hold
                return bool(res) and all(r is True or isinstance(r, Raised) for r in res)
            if check():
                return Flag(v0, top, step, check)
        return None

    def fold_step(self, k):
        def step(j, x):
            def go():
                self.cells[k].set(x)
                if self.body_once(j) != "normal":
                    raise Infeasible()
                return self.cells[k].get()
            hold = self.templates[k]
            self.templates[k] = Const(None)
            try:
                return self.isolated(j, go)
            finally:
                self.templates[k] = hold
        return step

    def fresh_like(self, v):
        import numpy as np
        c = ctx()
        if isinstance(v, (SymReal, float)):
            return lambda: SymReal(z3.Real(c.fresh("acc")))
        if isinstance(v, (SymBool, bool)):
            return lambda: SymBool(z3.Bool(c.fresh("flag")))
        if isinstance(v, np.ndarray) and v.dtype == object or isinstance(v, np.ndarray) and v.dtype.kind == "f":
            def mk():
                a = np.empty(v.shape, dtype=object)
                for ix in np.ndindex(v.shape):
                    a[ix] = SymReal(z3.Real(c.fresh("acc")))
                return a
            return mk
        h = getattr(type(v), "__pyvc_fresh__", None)
        if h is not None:
            return lambda: h(v)
        return None

    def dict_template(self, k, v0, v1s, obj):
        p0 = (v0 if isinstance(v0, DictContent) else to_content(v0)).parts
        if all(len((v if isinstance(v, DictContent) else to_content(v)).parts) == len(p0) for v in v1s):
            t = DictAffine.of(p0, [(v if isinstance(v, DictContent) else to_content(v)).parts
                                   for v in v1s], obj)
            if t is not None:
                return t
        for v in v1s:
            p1 = (v if isinstance(v, DictContent) else to_content(v)).parts
            if not (len(p1) == len(p0) + 1 and p1[-1][0] == "kv"):
                raise Unsupported("loop changes a dictionary in an unsupported way")
        return DictGrow(p0, lambda j, k=k: self.entry(k, j), obj, self.n)

    # --- values of an arbitrary iteration
    def isolated(self, j, fn):
        """fn() with the loop state at iteration j; everything is put back afterwards."""
        c = ctx()
        keep = dict(self.fr.vars)
        base = min(self.nm, len(c.mutations))
        recs = c.rewind(base)
        mark = c.tick
        try:
            self.fr.vars.clear()
            self.fr.vars.update(self.vars0)
            self.put(j)
            return fn()
        finally:
            mine = c.mutations[base:]
            # objects made during the iteration keep their content
            made = [m for m in mine if c.is_fresh(m.obj, mark)]
            finals = {}
            for m in made:
                finals[m.key] = (m, m.snap())
            c.rewind(base)
            for m, st in finals.values():
                m.restore(st)
            c.redo(recs)
            self.fr.vars.clear()
            self.fr.vars.update(keep)

    def put(self, j):
        for cell, t in zip(self.cells, self.templates):
            if isinstance(t, Const):
                continue
            cell.set(t.at(j))

    def delta(self, k, j):
        def go():
            before = self.seq_of(self.cells[k].get())
            kind = self.body_once(j)
            if kind != "normal":
                raise Infeasible()
            after = self.seq_of(self.cells[k].get())
            return VSeq(after.segs[len(before.segs):])
        try:
            return self.isolated(j, go)
        except Exception:
            if self.exits:
                raise Infeasible()
            raise

    def entry(self, k, j):
        def go():
            if self.body_once(j) != "normal":
                raise Infeasible()
            v = self.cells[k].get()
            p = (v if isinstance(v, DictContent) else to_content(v)).parts
            return p[-1]
        # the entry is computed with the dictionary itself hidden
        t = self.templates[k]
        hide = Const(None)

        def put0():
            pass
        self.templates[k] = FixedDict(t)
        try:
            return self.isolated(j, go)
        finally:
            self.templates[k] = t

    def normal_at(self, j):
        def go():
            if self.body_once(j) != "normal":
                raise Infeasible()
        try:
            self.isolated(j, go)
        except Exception:
            raise Infeasible()

    def seq_of(self, v):
        return v if isinstance(v, VSeq) else as_vseq(v)

    def step(self, i):
        """One arbitrary iteration preserves the invariant."""
        from .same import same
        c = ctx()
        fr = self.fr
        keep = dict(fr.vars)
        try:
            self.put(i)
            before = [cell.get() for cell in self.cells]
            m0, mark = len(c.mutations), c.tick
            if self.body_once(i) == "exit":
                return "exit"
            # nothing else changed
            known = {cell.key for cell in self.cells if not isinstance(cell, VarCell)}
            for m in c.mutations[m0:]:
                if m.key not in known and not c.is_fresh(m.obj, self.mark):
                    c.fail("invariant", f"iteration changes another object {type(m.obj).__name__}")
            for k in fr.vars:
                if k not in keep and not any(isinstance(x, VarCell) and x.name == k for x in self.cells):
                    c.fail("invariant", f"iteration defines {k}")
                elif k in keep and fr.vars[k] is not keep[k] and not any(
                        isinstance(x, VarCell) and x.name == k for x in self.cells):
                    c.fail("invariant", f"iteration changes {k}")
            for cell, t, b in zip(self.cells, self.templates, before):
                after = cell.get()
                if isinstance(t, Stepped):
                    t.step(b, after)
                    continue
                if isinstance(t, Flag):
                    if not isinstance(after, (bool, SymBool)):
                        c.fail("invariant", "kind of a flag changes")
                    continue
                if isinstance(t, FoldT):
                    from .folds import kind_of
                    kd = kind_of(after)
                    if kd is None or kd[0] != t.fold.sort:
                        c.fail("invariant", "kind of an accumulator changes")
                    continue
                if isinstance(t, Last):
                    if not isinstance(after, (float, SymReal)):
                        c.fail("invariant", "kind of an accumulator changes")
                    continue
                if isinstance(t, (Temp, Fresh)):
                    if isinstance(t, Fresh) and self.fresh_like(after) is None:
                        c.fail("invariant", "kind of an accumulator changes")
                    continue
                if isinstance(t, Append):
                    sb, sa = self.seq_of(b), self.seq_of(after)
                    if sa is None or len(sa.segs) < len(sb.segs) or not all(
                            same_seg(p, q) for p, q in zip(sa.segs, sb.segs)):
                        c.fail("invariant", "sequence is not extended")
                    elif t.single and not (len(sa.segs) == len(sb.segs) + 1
                                           and isinstance(sa.segs[-1], Unit)):
                        c.fail("invariant", "sequence does not gain one element")
                    else:
                        c.prove("invariant", True)
                    continue
                if isinstance(t, DictAffine):
                    want = t.at(i + 1)
                    sl = DictAffine.slots(*[(x if isinstance(x, DictContent) else to_content(x)).parts
                                            for x in (after, want)])
                    if sl is None:
                        c.fail("invariant", "keys of a dictionary change")
                    else:
                        for row in sl:
                            for _, x, y in row:
                                same("invariant", x, y)
                    continue
                if isinstance(t, DictPuts):
                    self.step_dict(t, b, after)
                    continue
                if isinstance(t, DictGrow):
                    pb = (b if isinstance(b, DictContent) else to_content(b)).parts
                    pa = (after if isinstance(after, DictContent) else to_content(after)).parts
                    if not (len(pa) == len(pb) + 1 and pa[-1][0] == "kv"):
                        c.fail("invariant", "dictionary does not gain one entry")
                    else:
                        e = self.entry(self.cells.index(cell), i)
                        same("invariant", pa[-1][1], e[1])
                        if not (c.is_fresh(pa[-1][2], mark) and c.is_fresh(e[2], mark)):
                            same("invariant", pa[-1][2], e[2])
                    continue
                want = t.at(i + 1)
                w = want
                if isinstance(after, VSeq) and not isinstance(want, VSeq):
                    w = as_vseq(want)
                same("invariant", after, w)
            return "normal"
        finally:
            fr.vars.clear()
            fr.vars.update(keep)


class DictPuts(Template):
    """Dictionary that gains entries with new keys in each iteration over an opaque sequence."""

    def __init__(self, loop, k, parts):
        self.loop, self.k, self.parts = loop, k, parts
        self.obj = "state"
        self.items = flat_abs(loop.g, pure_at(self.entries, "a loop"))

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return DictContent(self.parts)
        return DictContent(self.parts + [("abs", AbsMap(self.items, self.loop.root_now, True))])

    def all(self):
        return DictContent(self.parts + [("abs", AbsMap(self.items))])

    def entries(self, x):
        """The entries that element x adds (to a dictionary that has none of the others)."""
        loop, k = self.loop, self.k
        hold = loop.enter(x)
        old, loop.templates[k] = loop.templates[k], FixedDict(self)
        try:
            def go():
                if loop.body_once(0) != "normal":
                    raise Infeasible()
                return VSeq.of([p[1:] for p in self.added(loop.cells[k].get().parts, self.parts)])
            return loop.isolated(SymInt(z3.Int(ctx().fresh("at"))), go)
        finally:
            loop.templates[k] = old
            loop.leave(hold)

    @staticmethod
    def added(after, before):
        m = len(before)
        if len(after) < m or not all(p is q or p == q for p, q in zip(after, before)) \
                or not all(p[0] == "kv" for p in after[m:]):
            raise Unsupported("loop changes a dictionary in an unsupported way")
        return after[m:]


class MapLoop(Summary):
    """Loop over an opaque sequence whose body appends to some lists and adds entries with new
    keys to some dictionaries."""

    def __init__(self, interp, fr, s, g):
        super().__init__(interp, fr, s.body, SymInt(z3.Int(ctx().fresh("len"))), self.begin)
        self.target, self.g = s.target, g
        self.cur = None
        self.root_now = None
        self.root, self.h = expand(g)
        ctx().assume(zint(self.n) >= 0)

    def draw(self):
        """An arbitrary element; root_now is the element of the underlying sequence."""
        self.root_now = x = draw(self.root)
        ys = self.h(x).concrete()
        if ys is None:
            raise Unsupported("loop over a nested opaque sequence")
        if not ys:
            raise Infeasible()
        if len(ys) > 1:
            self.root_now = None
        return ys[ctx().choose(len(ys)) if len(ys) > 1 else 0]

    def enter(self, x):
        """The body is evaluated for element x, apart from the iteration under consideration."""
        hold, self.cur = self.cur, (x,)
        return hold

    def leave(self, hold):
        self.cur = hold

    def begin(self, i):
        x = self.draw() if self.cur is None else self.cur[0]
        self.interp.assign(self.target, x, self.fr)

    def run(self):
        super().run(final=self.finish)

    def dict_template(self, k, v0, v1s, obj):
        if obj != "state":
            raise Unsupported("a loop over an opaque sequence replaces a dictionary")
        return DictPuts(self, k, v0.parts)

    def put(self, j):
        # the element of this iteration is drawn first: the state is that before it
        if self.cur is None and any(isinstance(t, DictPuts) for t in self.templates):
            self.cur = (self.draw(),)
            self.drawn = True
        super().put(j)

    def step(self, i):
        try:
            return super().step(i)
        finally:
            self.cur, self.root_now = None, None

    def step_dict(self, t, before, after):
        """The entries added are those of `entries`."""
        from .same import same
        new = DictPuts.added(after.parts, before.parts)
        same("invariant", VSeq.of([p[1:] for p in new]), t.entries(self.cur[0]))

    def finish(self):
        c = ctx()
        if self.exits:
            raise Unsupported(f"a loop over an opaque sequence may end early {self.why!r}")
        for cell, t in zip(self.cells, self.templates):
            if not isinstance(t, (Temp, Const, Append, DictPuts, Stepped)):
                raise Unsupported("a loop over an opaque sequence keeps a state")
        idle = [k for k, t in enumerate(self.templates)
                if not isinstance(t, (Append, DictPuts, Stepped))]
        for k in idle:
            if not isinstance(self.templates[k], Const):
                self.cells[k].set(self.templates[k].at(self.n))
        new = []
        for k, (cell, t) in enumerate(zip(self.cells, self.templates)):
            if isinstance(t, Append):
                m = map_abs(self.g, self.element(k, t)) if t.single else flat_abs(
                    self.g, self.element(k, t))
                new.append((cell, t.wrap(VSeq(t.v.segs + [m], t.v.kind))))
            elif isinstance(t, DictPuts):
                new.append((cell, t.all()))
        for cell, v in new:
            cell.set(v)

    def element(self, k, t):
        def elt(x):
            hold = self.enter(x)
            try:
                a = Append(t.v, lambda j: self.delta(k, j), t.obj, True)
                j = SymInt(z3.Int(ctx().fresh("at")))
                return a.one(j) if t.single else a.delta(j)
            finally:
                self.leave(hold)
        return pure_at(elt, "a loop")


def opaque_loop(interp, fr, s, g):
    MapLoop(interp, fr, s, g).run()


class FixedDict(Template):
    def __init__(self, t):
        self.t = t

    def at(self, i):
        d = DictContent(self.t.parts)
        if self.t.obj == "value":
            r = PyDict()
            r.set_state(d)
            return r
        return d


def same_seg(p, q):
    if p is q:
        return True
    if isinstance(p, Unit) and isinstance(q, Unit):
        return p.x is q.x
    return False
