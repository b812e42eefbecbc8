"""Paths, proof obligations and solver back ends."""
from __future__ import annotations

import os
import pickle
import re
import select
import signal
import time
import warnings

import z3


# --------------------------------------------------------------------------------------
# engine exceptions (BaseException: the code under test cannot catch them)

class Engine(BaseException):
    pass


class Unsupported(Engine):
    """The code uses a construct the verifier does not cover: the obligation is undecided."""


class Infeasible(Engine):
    """The current path is contradictory (or was abandoned by a nondeterministic guess)."""


class Budget(Engine):
    """Too many paths or too much time: undecided."""


# --------------------------------------------------------------------------------------
# obligations

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"
_rank = {PROVED: 0, UNKNOWN: 1, REFUTED: 2}


class Obligation:
    def __init__(self, name):
        self.name = name
        self.status = PROVED
        self.queries = 0
        self.secs = 0.0
        self.backends = set()
        self.detail = None         # solver output / reason
        self.model = None          # counterexample values

    def merge(self, status, detail=None, model=None):
        if _rank[status] > _rank[self.status]:
            self.status, self.detail, self.model = status, detail, model


class Report:
    """What one property's proof run produced."""

    def __init__(self):
        self.obls: dict[str, Obligation] = {}
        self.reach: dict[str, bool | None] = {}
        self.functions: set[str] = set()      # functions of /repo that were interpreted
        self.contracts: set[str] = set()      # contracts used at call sites
        self.assumed: set[str] = set()        # trusted models / assumed contracts used
        self.bounded: dict[str, str] = {}     # obligation -> bound (bounded stand-ins)
        self.solver_s = 0.0
        self.paths = 0

    def obl(self, name) -> Obligation:
        if name not in self.obls:
            self.obls[name] = Obligation(name)
        return self.obls[name]


# --------------------------------------------------------------------------------------
# one path

TRIG = "trigonometric functions are axiomatised"
DEBUG = bool(os.environ.get("PYVC_DEBUG"))
NL_TIMEOUT_MS = int(os.environ.get("PYVC_NL_TIMEOUT_MS", "300"))
TIMEOUT_MS = int(os.environ.get("PYVC_TIMEOUT_MS", "10000"))


def as_z3bool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    t = getattr(c, "z3bool", None)
    if t is not None:
        return t
    try:
        import numpy as np
        if isinstance(c, np.bool_):
            return z3.BoolVal(bool(c))
        if isinstance(c, np.ndarray) and c.ndim == 0:
            return as_z3bool(c.item())
    except ImportError:
        pass
    raise Unsupported(f"not a truth value: {type(c).__name__}")


_nl_cache = {}


def nonlinear(t):
    """The term multiplies two non-constant reals (or divides by one)."""
    k = t.get_id()
    r = _nl_cache.get(k)
    if r is not None:
        return r[1]
    if len(_nl_cache) > 200000:
        _nl_cache.clear()
    out = False
    if z3.is_app(t):
        dk = t.decl().kind()
        ch = t.children()
        if dk == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) and not z3.is_int_value(x)
                                      for x in ch) > 1:
            out = True
        elif dk in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(ch[1]):
            out = True
        else:
            out = any(nonlinear(x) for x in ch)
    _nl_cache[k] = (t, out)
    return out


class Mut:
    """One mutation: `restore(state)` puts back a state, `snap()` reads the current one."""
    __slots__ = ("obj", "old", "snap", "restore", "part", "tick")

    def __init__(self, obj, snap, restore, part=None):
        self.obj, self.snap, self.restore, self.part = obj, snap, restore, part
        self.old = snap()
        c = Ctx.current
        self.tick = 0
        if c is not None:
            c.tick += 1
            self.tick = c.tick

    @property
    def key(self):
        """What is changed: the content of obj, or its attribute `part`."""
        return id(self.obj), self.part


class Raised:
    """The code under test raised an exception."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({type(self.exc).__name__}: {self.exc})"


ENGINE_CLASS = re.compile(r"['.](Sym[A-Z]\w+|VSeq|Opaque\w*|OpaqueFn|PyList|PyDict|SplitAll|IntStr|Poison)\b")


def internal_error(e):
    """Describe e when it escaped from the verifier's own code: its innermost frame is a line
    of the verifier that is not a `raise` (models raise the exceptions Python would)."""
    import linecache
    if isinstance(e, (z3.Z3Exception, MemoryError)):
        return f"{type(e).__name__}: {e}"
    if isinstance(e, (TypeError, AttributeError)) and ENGINE_CLASS.search(str(e)):
        return f"{type(e).__name__}: {e}"
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return None
    fn = last.tb_frame.f_code.co_filename
    here = os.path.dirname(os.path.abspath(__file__))
    if "/z3/" in fn:
        return f"{type(e).__name__}: {e} in z3"
    if not fn.startswith(here) or os.path.basename(fn) == "interp.py":
        return None
    line = linecache.getline(fn, last.tb_lineno).strip()
    if line.startswith("raise ") and (type(e).__name__ in line or re.match(
            r"raise [\w.]+( from \w+)?$", line)) or isinstance(e, LookupError) and re.search(
            r"\b(dict|list)\.__(get|del)item__", line):
        return None
    return f"{type(e).__name__}: {e} at {os.path.basename(fn)}:{last.tb_lineno}"


class Ctx:
    current: "Ctx" = None

    def __init__(self, report: Report, prefix=(), exact=True, deadline=None):
        self.report = report
        self.prefix = list(prefix)  # [(value, remaining alternatives)]
        self.taken = []
        self.pc = []
        self.fresh_n = 0
        self.memo = {}
        self.trig = {}
        self.exact = exact
        self.deadline = deadline
        self.notes = []
        self.defs = {}             # definitional assumptions: id -> (formula, defined names)
        self.inputs = {}
        self.store = {}            # per-path scratch for models and checks
        self.mutations = []        # log of Mut records, oldest first
        self.tick = 0
        self.born = {}             # id -> (object, stamp): objects made during the run
        self.hyps = []             # universally quantified facts: (n, instantiate)
        self.log = []              # results of obligations, replayed on re-execution
        self.old_log = []
        self.level = 0             # nesting of sub-explorations
        self._sol = z3.Solver()
        self._lin = z3.Solver()    # the linear part of the path condition
        self.nl = 0

    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def inexact(self, why):
        """A sat answer may be spurious from here on: refutations count as unknown."""
        self.exact = False
        if why not in self.notes:
            self.notes.append(why)

    # ---- path condition
    def assume(self, cond, defines=()):
        """defines: names of variables that can always be chosen to satisfy cond, whatever the
        values of its other variables (so cond may be left out where they do not occur)."""
        c = as_z3bool(cond)
        if z3.is_true(c):
            return
        if defines:
            self.defs[c.get_id()] = (c, frozenset(defines))
        self.pc.append(c)
        self._sol.add(c)
        if nonlinear(c):
            self.nl += 1
        else:
            self._lin.add(c)
        if z3.is_false(c):
            raise Infeasible()

    def _check(self, *extra, timeout=2000):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of the proof used up")
        t = time.time()
        if self.nl and not any(nonlinear(x) for x in extra):
            # a contradiction of the linear part alone, and a short try at the whole
            self._lin.set("timeout", timeout)
            r = self._lin.check(*extra)
            if r == z3.unsat:
                self.report.solver_s += time.time() - t
                return r
            timeout = min(timeout, NL_TIMEOUT_MS)
        self._sol.set("timeout", timeout)
        r = self._sol.check(*extra)
        self.report.solver_s += time.time() - t
        return r

    # ---- state
    @property
    def replaying(self):
        """The decisions taken so far were taken by an earlier run: same path so far."""
        return self.level == 0 and len(self.taken) < len(self.prefix)

    def made(self, o):
        self.tick += 1
        self.born[id(o)] = (o, self.tick)
        return o

    def is_fresh(self, o, since=0):
        """o was made by the run after tick `since`."""
        b = self.born.get(id(o))
        return b is not None and b[1] > since

    def rewind(self, n):
        """Undo the mutations after the first n; returns what `redo` needs."""
        redo = []
        while len(self.mutations) > n:
            m = self.mutations.pop()
            redo.append((m, m.snap()))
            m.restore(m.old)
        return redo

    def redo(self, recs):
        for m, new in reversed(recs):
            m.restore(new)
            self.mutations.append(m)

    def at_state(self, n, fn):
        """fn() in the heap as it was after n mutations; its own mutations are undone."""
        recs = self.rewind(n)
        try:
            return fn()
        finally:
            self.rewind(n)
            self.redo(recs)

    def sub(self, fn, assume=()):
        """Run fn on every path from here; effects and assumptions are undone.

        Returns a list of outcomes: fn's value, or the exception object raised by the code
        under test, one per feasible path.
        """
        saved = (self.prefix, self.taken, self.memo, self.trig, dict(self.store),
                 list(self.hyps), self.exact)
        npc, nm, nl = len(self.pc), len(self.mutations), self.nl
        self.level += 1
        out = []
        prefix, n = [], 0
        try:
            while True:
                self._sol.push()
                self._lin.push()
                self.prefix, self.taken = prefix, []
                self.memo, self.trig = dict(saved[2]), dict(saved[3])
                self.store, self.hyps = dict(saved[4]), list(saved[5])
                try:
                    for a in assume:
                        self.assume(a)
                    out.append(fn())
                except Infeasible:
                    pass
                except Exception as e:
                    if internal_error(e):
                        raise Unsupported("internal error: " + internal_error(e))
                    if self._check() != z3.unsat:
                        out.append(Raised(e))
                finally:
                    self.rewind(nm)
                    del self.pc[npc:]
                    self._sol.pop()
                    self._lin.pop()
                    self.nl = nl
                n += 1
                dec = list(self.taken)
                while dec and not dec[-1][1]:
                    dec.pop()
                if not dec:
                    return out
                if n > 400:
                    raise Budget("too many paths in a nested exploration")
                v, rest = dec[-1]
                dec[-1] = (rest[0], rest[1:])
                prefix = dec
        finally:
            (self.prefix, self.taken, self.memo, self.trig, self.store, self.hyps,
             self.exact) = saved
            self.level -= 1

    def forall(self, n, fn, name="i"):
        """Run fn(i) for a fresh index 0 <= i < n on every path."""
        from .scal import SymInt
        t = z3.Int(self.fresh(name))
        nz = n.t if isinstance(n, SymInt) else z3.IntVal(int(n))
        return self.sub(lambda: fn(SymInt(t)), assume=[t >= 0, t < nz])

    def each(self, name, n, fn):
        """Obligation `name`: fn(i), which proves things, runs to its end at every 0 <= i < n."""
        from .scal import SymInt
        t = z3.Int(self.fresh("i"))
        nz = n.t if isinstance(n, SymInt) else z3.IntVal(int(n))
        self.under(name, [t >= 0, t < nz], lambda: fn(SymInt(t)))

    def under(self, name, assume, fn):
        """Obligation `name`: fn(), which proves things, runs to its end in every state that
        satisfies the assumptions (and does so in some state, unless there is none)."""
        if self.level == 0 and self.replaying:
            self.sub(fn, assume)          # proved when it was first reached
            return

        def body():
            try:
                fn()
            except Exception as e:
                why = internal_error(e)
                if why:
                    raise Unsupported("internal error: " + why)
                self.fail(name, f"raised {type(e).__name__}: {e}")
            return True
        if not self.sub(body, assume) and self._check(*[as_z3bool(a) for a in assume]) == z3.sat:
            self.undecided(name, "no case was analysed")

    def index(self, n, name="J"):
        """A fresh index 0 <= J < n (Infeasible when n = 0)."""
        from .scal import SymInt
        t = z3.Int(self.fresh(name))
        nz = n.t if isinstance(n, SymInt) else z3.IntVal(int(n))
        self.assume(z3.And(t >= 0, t < nz))
        if self._check(timeout=1500) == z3.unsat:
            raise Infeasible()
        return SymInt(t)

    def hyp(self, n, fn):
        """Assume: for all 0 <= j < n, fn(j) holds (instantiated by `inst`)."""
        self.hyps.append((n, fn))

    def inst(self, j, split=False):
        """Instantiate the quantified facts at index j (split: fork on j being in range)."""
        jz = j.t if hasattr(j, "t") else z3.IntVal(int(j))
        for n, fn in list(self.hyps):
            nz = n.t if hasattr(n, "t") else z3.IntVal(int(n))
            r = z3.And(jz >= 0, jz < nz)
            if self.branch(r) if split else self.known(r) is True:
                v = fn(j)
                if v is not None:
                    self.assume(v)

    def known(self, cond, timeout=1000):
        """True / False when the path condition decides cond, else None."""
        c = z3.simplify(as_z3bool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self._check(z3.Not(c), timeout=timeout) == z3.unsat:
            return True
        if self._check(c, timeout=timeout) == z3.unsat:
            return False
        return None

    def entails(self, cond, timeout=1000):
        c = z3.simplify(as_z3bool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c), timeout=timeout) == z3.unsat

    def _decide(self, options):
        """options: callable giving the list of values to explore (only called when new)."""
        k = len(self.taken)
        if k < len(self.prefix):
            v, rest = self.prefix[k]
        else:
            vs = options()
            v, rest = vs[0], list(vs[1:])
        self.taken.append((v, rest))
        return v

    def branch(self, cond) -> bool:
        c = z3.simplify(as_z3bool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def options():
            vs = []
            if self._check(c, timeout=1500) != z3.unsat:
                vs.append(True)
            if self._check(z3.Not(c), timeout=1500) != z3.unsat:
                vs.append(False)
            if not vs:
                raise Infeasible()
            return vs
        v = self._decide(options)
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n=2) -> int:
        """Nondeterministic choice (all alternatives are explored)."""
        return self._decide(lambda: list(range(n)))

    # ---- obligations
    def prove(self, name, goal, timeout=None):
        """Obligation: goal follows from the path condition."""
        if self.level == 0:
            k = len(self.log)
            if self.replaying and k < len(self.old_log):
                self.log.append(self.old_log[k])
                return self.old_log[k]
        r = self._prove(name, goal, timeout)
        if self.level == 0:
            self.log.append(r)
        return r

    def _prove(self, name, goal, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of the proof used up")
        o = self.report.obl(name)
        g = as_z3bool(goal)
        t0 = time.time()
        st, detail, model, be = solve_goal(self.pc, g, timeout or TIMEOUT_MS, self.read_model)
        if st == REFUTED and self.hyps and not getattr(self, "_insting", False):
            if self._prove_with_instances(g, timeout):
                st, detail, model = PROVED, None, None
        dt = time.time() - t0
        o.queries += 1
        o.secs += dt
        self.report.solver_s += dt
        o.backends.add(be)
        if st == REFUTED and self.notes == [TRIG]:
            pc = self.without_definitions(g)
            if pc is not None:
                st, detail, model, be = solve_goal(pc, g, timeout or TIMEOUT_MS, self.read_model)
                if st == REFUTED:
                    o.merge(REFUTED, detail, model)
                    return False
                st = REFUTED
        if st == REFUTED and not self.exact:
            o.merge(UNKNOWN, "sat, but the path uses incomplete axioms: "
                    + "; ".join(self.notes[:3]), model)
        elif st == REFUTED:
            o.merge(REFUTED, detail, model)
        else:
            o.merge(st, detail)
        return st == PROVED

    def without_definitions(self, g):
        """The path condition without the definitions that do not matter for g; None when a
        trigonometric one is left."""
        def names(f):
            return {str(x) for x in subterms(f) if z3.is_const(x)
                    and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        rest = [(f, names(f), self.defs[f.get_id()][1] if f.get_id() in self.defs else frozenset())
                for f in self.pc]
        gn = names(g)
        while True:
            for k, (f, ns, d) in enumerate(rest):
                if d and not d & gn and not any(d & o and not d == e for j, (_, o, e) in enumerate(rest) if j != k):
                    rest.pop(k)
                    break
            else:
                break
        if any(d and d & self.trig_names() for _, _, d in rest):
            return None
        return [f for f, _, _ in rest]

    def trig_names(self):
        return {"pi"} | {str(x) for v in self.trig.values() for x in v}

    def _prove_with_instances(self, g, timeout):
        """Try again with the quantified facts at the indices that occur in goal and path."""
        names, cands = set(), []

        def ints(e, depth=0):
            for x in subterms(e):
                if z3.is_const(x) and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if str(x) not in names:
                        names.add(str(x))
                        cands.append(x)
        ints(g)
        for f in reversed(self.pc):
            if len(cands) >= 3:
                break
            ints(f)
        cands = cands[:3]
        cands += [z3.IntVal(0)]
        self._insting = True
        try:
            def attempt():
                for t in cands:
                    self.inst(_Ix(t), split=True)
                return solve_goal(self.pc, g, timeout or TIMEOUT_MS)[0] == PROVED
            r = self.sub(attempt)
            return all(x is True for x in r)
        except Engine:
            return False
        finally:
            self._insting = False

    def fail(self, name, why):
        """Obligation that does not hold on this path (unless the path is infeasible)."""
        if not self.prove(name, False):
            o = self.report.obls[name]
            o.detail = f"{why} [{o.detail}]"

    def undecided(self, name, why):
        o = self.report.obl(name)
        o.queries += 1
        o.merge(UNKNOWN, why)

    def cover(self, name):
        """Reachability: some path that satisfies the preconditions gets here."""
        if self.report.reach.get(name):
            return
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.pc)
        r = s.check()
        if r == z3.sat:
            self.report.reach[name] = True
        elif r == z3.unsat:
            self.report.reach.setdefault(name, False)
        else:
            if not self.report.reach.get(name):
                self.report.reach[name] = None

    def read_model(self, m):
        if m is None:
            return None
        out = {}
        for k, t in self.inputs.items():
            try:
                out[k] = str(m.eval(t, model_completion=True))
            except z3.Z3Exception:
                pass
        return out


def _Ix(t):
    from .scal import SymInt
    return SymInt(t)


def subterms(e):
    """Every subterm once."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        todo.extend(x.children())


def solve_goal(pc, g, timeout, read=None):
    """Does g follow from pc?  (status, detail, read(counterexample), back end)"""
    g = z3.simplify(g)
    if z3.is_true(g):
        return PROVED, None, None, "simplifier"
    if nonlinear(g) or any(nonlinear(c) for c in pc):
        # z3's nonlinear solvers do not always stop at their time limit
        r = in_child(lambda: _solve_goal(pc, g, timeout, read), 3 * timeout / 1000 + 5)
        return r or (UNKNOWN, "solver: did not stop at its time limit", None, "z3")
    return _solve_goal(pc, g, timeout, read)


def in_child(fn, seconds):
    """fn() computed in a forked process; None when it takes too long or dies."""
    rd, wr = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    end, data = time.time() + seconds, b""
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return None
            b = os.read(rd, 1 << 16)
            if not b:
                break
            data += b
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def _solve_goal(pc, g, timeout, read=None):
    read = read or (lambda m: None)
    if not nonlinear(g):
        lin = [c for c in pc if not nonlinear(c)]
        if len(lin) < len(pc):
            s = z3.Solver()
            s.set("timeout", min(timeout, 2000))
            s.add(*lin)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return PROVED, None, None, "z3"
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*pc)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return PROVED, None, None, "z3"
    if r == z3.sat:
        return REFUTED, "sat: " + str(s.model())[:800], read(s.model()), "z3"
    why = s.reason_unknown()
    try:       # second attempt: nonlinear real arithmetic
        t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
        t.set("timeout", timeout)
        t.add(*pc)
        t.add(z3.Not(g))
        r = t.check()
        if r == z3.unsat:
            return PROVED, None, None, "z3-nlsat"
        if r == z3.sat:
            return REFUTED, "sat: " + str(t.model())[:800], read(t.model()), "z3-nlsat"
    except z3.Z3Exception:
        pass
    if cvc5_unsat(pc, g, timeout):
        return PROVED, None, None, "cvc5"
    return UNKNOWN, f"solver: {why}", None, "z3"


def cvc5_unsat(pc, g, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(g))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(timeout))
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += c.invoke(sl, sm)
        return res.strip().endswith("unsat")
    except Exception:
        return False


def ctx() -> Ctx:
    if Ctx.current is None:
        raise Unsupported("symbolic value used outside a proof")
    return Ctx.current


def explore(report, body, name, max_paths=4000, seconds=120, exact=True):
    """Run body(ctx) once per path, depth first, until all paths are covered.

    `name` is the obligation "every path was analysed": it stays undecided when a path leaves
    the supported subset.
    """
    obl = report.obl(name)
    obl.backends.add("vcgen")
    prefix = []
    n = 0
    log = []
    deadline = time.time() + seconds
    while True:
        c = Ctx(report, prefix, exact, deadline)
        c.old_log = log
        prev, Ctx.current = Ctx.current, c
        stop = False
        try:
            body(c)
        except Infeasible:
            pass
        except Engine as e:
            obl.merge(UNKNOWN, f"{type(e).__name__}: {e}")
            stop = isinstance(e, Budget)
        except Exception as e:
            if DEBUG:
                raise
            obl.merge(UNKNOWN, f"internal {type(e).__name__}: {e}")
        finally:
            Ctx.current = prev
        n += 1
        log = c.log
        report.paths += 1
        obl.queries += 1
        dec = list(c.taken)
        while dec and not dec[-1][1]:
            dec.pop()
        if stop or not dec:
            return n
        v, rest = dec[-1]
        dec[-1] = (rest[0], rest[1:])
        prefix = dec
        if n >= max_paths or time.time() > deadline:
            obl.merge(UNKNOWN, f"Budget: {n} paths")
            return n
