"""Loops that walk a sequence by position, run as loops over its elements.

    while i < len(xs): ... xs[i] ...; i += 1         for i in range(i, len(xs)): ...
    for i in range(len(xs)): ... xs[i] ...           for i, x in enumerate(xs): ... x ...

Both rewritings are exact when the body neither assigns i or xs nor changes the object xs; the
first two are checked on the text, the last one on the record of mutations after the loop.
They are applied to sequences of unknown length only.
"""
from __future__ import annotations

import ast
import copy

from .core import ctx, Ctx, Unsupported

_while, _for, _comp = {}, {}, {}
_keep = []


def _stores(nodes):
    out = set()
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


def _loads(nodes, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
               for b in nodes for x in ast.walk(b))


def _has(nodes, kinds):
    return any(isinstance(x, kinds) for b in nodes for x in ast.walk(b))


CLOSURES = (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.NamedExpr, ast.Delete,
            ast.Global, ast.Nonlocal)


def counting(s):
    """(name, bound, body without the increment) of a counting while loop, or None."""
    if id(s) in _while:
        return _while[id(s)]
    _keep.append(s)
    r = _while[id(s)] = _counting(s)
    return r


def _counting(s):
    t = s.test
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        a, b = b, a
    elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        return None
    if not isinstance(a, ast.Name):
        return None
    i = a.id
    if isinstance(b, ast.Call):
        ok = isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 and not b.keywords \
            and isinstance(b.args[0], ast.Name)
        names = {b.args[0].id} if ok else set()
    else:
        ok = isinstance(b, ast.Name)
        names = {b.id} if ok else set()
    if not ok or i in names:
        return None
    at = None
    for k, x in enumerate(s.body):
        inc = isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) \
            and x.target.id == i and isinstance(x.value, ast.Constant) and x.value.value == 1
        inc = inc or ast.unparse(x) in (f"{i} = {i} + 1", f"{i} = 1 + {i}")
        if inc:
            if at is not None:
                return None
            at = k
    if at is None or _loads(s.body[at + 1:], i):
        return None
    body = s.body[:at] + s.body[at + 1:]
    if (names | {i}) & _stores(body) or _has(s.body, (ast.Continue, ast.Break) + CLOSURES):
        return None
    return i, b, body or [ast.Pass()]


def element(target, it, rest):
    """(i, xs, rest with the elements for xs[i], i is used otherwise) of a loop over positions."""
    if not (isinstance(target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name)
            and it.func.id == "range" and not it.keywords and 1 <= len(it.args) <= 2):
        return None
    if len(it.args) == 2 and not (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0):
        return None
    n = it.args[-1]
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len"
            and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name)):
        return None
    i, xs = target.id, n.args[0].id
    if i == xs or {i, xs, "len", "range", "enumerate"} & _stores(rest) or _has(rest, CLOSURES):
        return None
    el = f"%{xs}[{i}]"
    found = []

    class Sub(ast.NodeTransformer):
        def visit_Subscript(self, x):
            if isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == xs \
                    and isinstance(x.slice, ast.Name) and x.slice.id == i:
                found.append(x)
                return ast.copy_location(ast.Name(el, ast.Load()), x)
            return self.generic_visit(x)
    new = [Sub().visit(copy.deepcopy(b)) for b in rest]
    if not found:
        return None
    return i, xs, el, new, _loads(new, i)


def for_elements(s, used_later):
    """The loop over elements for the loop `s` over positions: (xs, new loop) or None."""
    k = id(s)
    if k not in _for:
        _keep.append(s)
        _for[k] = None
        r = element(s.target, s.iter, s.body) if not s.orelse else None
        if r is not None:
            i, xs, el, body, used = r
            _for[k] = (xs, el, _loop(i, xs, el, used or used_later(i, s)), body)
    r = _for[k]
    if r is None:
        return None
    xs, el, (target, it), body = r
    n = ast.copy_location(ast.For(target=target, iter=it, body=body, orelse=[]), s)
    return xs, el, ast.fix_missing_locations(n)


def _loop(i, xs, el, both):
    name = ast.Name(xs, ast.Load())
    if not both:
        return ast.Name(el, ast.Store()), name
    return (ast.Tuple([ast.Name(i, ast.Store()), ast.Name(el, ast.Store())], ast.Store()),
            ast.Call(ast.Name("enumerate", ast.Load()), [name], []))


def comp_elements(interp, e, fr):
    """The comprehension over elements for one over positions (else e itself)."""
    if Ctx.current is None or len(e.generators) != 1:
        return e
    k = id(e)
    if k not in _comp:
        _keep.append(e)
        g = e.generators[0]
        parts = ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]) + g.ifs
        r = element(g.target, g.iter, parts)
        _comp[k] = None
        if r is not None:
            i, xs, el, new, used = r
            n = copy.copy(e)
            m = 2 if isinstance(e, ast.DictComp) else 1
            if m == 2:
                n.key, n.value = new[:2]
            else:
                n.elt = new[0]
            target, it = _loop(i, xs, el, used)
            n.generators = [ast.comprehension(target=target, iter=it, ifs=new[m:], is_async=0)]
            _comp[k] = (xs, ast.fix_missing_locations(n))
    r = _comp[k]
    if r is None or symbolic(interp, r[0], fr) is None:
        return e
    return r[1]


def symbolic(interp, xs, fr):
    """The sequence called xs, if it is a list or tuple of unknown length."""
    from .seq import VSeq, PyList
    import builtins
    v = interp.lookup(xs, fr)
    if isinstance(v, PyList):
        if v._sym is None or not isinstance(v._sym, VSeq):
            return None
    elif not (isinstance(v, VSeq) and v.kind in ("list", "tuple")):
        return None
    s = v._sym if isinstance(v, PyList) else v
    for n in ("len", "range", "enumerate"):
        if interp.lookup(n, fr) is not getattr(builtins, n):
            return None
    return v if s.concrete() is None else None


def run_for(interp, s, fr):
    """Run the loop over elements instead, if that applies."""
    if Ctx.current is None or not isinstance(s.iter, ast.Call):
        return False
    fi = fr.fi

    def used_later(i, s):
        if getattr(s, "counted", False):
            return False
        inside = {id(x) for x in ast.walk(s)}
        return any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside
                   for x in ast.walk(fi.node)) if fi is not None else True
    r = for_elements(s, used_later)
    if r is None:
        return False
    xs, el, new = r
    v = symbolic(interp, xs, fr)
    if v is None:
        return False
    keep_still(interp, v, lambda: _go(interp, new, fr, el))
    return True


def _go(interp, new, fr, el):
    from .loops import for_loop
    fr.locals = frozenset(fr.locals) | {el}
    for_loop(interp, new, fr)
    fr.vars.pop(el, None)


def keep_still(interp, v, fn):
    c = ctx()
    m0 = len(c.mutations)
    fn()
    if any(m.obj is v for m in c.mutations[m0:]):
        raise Unsupported("a loop changes the sequence it walks by position")


def run_while(interp, s, fr):
    """Run a counting while loop over a sequence of unknown length as a for loop."""
    from .scal import SymInt
    from .seq import VSeq, ieq
    if Ctx.current is None:
        return False
    r = counting(s)
    if r is None:
        return False
    i, bound, body = r
    if i not in fr.locals or i not in fr.vars:
        return False
    i0 = fr.vars[i]
    n = interp.eval(bound, fr)
    if type(i0) is not int or i0 < 0 or not isinstance(n, SymInt):
        return False
    if i0 > 0:
        c = ctx()
        if not c.entails(n.t >= i0):
            return False
    new = for_counted(s, i, bound, body, i0)
    from .loops import for_loop
    if not isinstance(new.iter, ast.Call):
        fr.locals = frozenset(fr.locals) | {"%range"}
        fr.vars["%range"] = VSeq.tab(n - i0, lambda j: j + i0)
    new.counted = True
    fr.vars.pop(i)
    for_loop(interp, new, fr)
    fr.vars.pop("%range", None)
    if not ieq(interp.eval(bound, fr), n):
        raise Unsupported("a counting loop changes its bound")
    fr.vars[i] = n
    return True


def for_counted(s, i, bound, body, i0):
    k = (id(s), i0)
    if k not in _for:
        it = ast.Call(ast.Name("range", ast.Load()), [bound], []) \
            if i0 == 0 and isinstance(bound, ast.Call) else ast.Name("%range", ast.Load())
        _for[k] = ast.fix_missing_locations(ast.copy_location(
            ast.For(target=ast.Name(i, ast.Store()), iter=it, body=body, orelse=[]), s))
    return _for[k]
