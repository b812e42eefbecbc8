"""jax.numpy on symbolic reals: the function is traced to a jaxpr by jax itself and the jaxpr
is evaluated over arrays of exact reals.  Concrete calls run jax and return numpy arrays."""
from __future__ import annotations

import types

import numpy as np
import z3

from .core import ctx, Ctx, Unsupported
from .scal import SymReal, SymBool, SymInt
from . import scal

import jax
import jax.extend.core
import jax.numpy as jnp


def tolists(x):
    from .models import native
    return native(x)


def is_sym_array(x):
    return isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (SymReal, SymBool))


def flatten_args(x, leaves):
    """Replace symbolic arrays by placeholders."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        leaves.append(x)
        return ("leaf", len(leaves) - 1)
    if isinstance(x, SymReal) or isinstance(x, SymInt):
        a = np.empty((), dtype=object)
        a[()] = x if isinstance(x, SymReal) else x.real()
        leaves.append(a)
        return ("leaf", len(leaves) - 1)
    if isinstance(x, SymBool):
        a = np.empty((), dtype=object)
        a[()] = x
        leaves.append(a)
        return ("leaf", len(leaves) - 1)
    if isinstance(x, (list, tuple)):
        return ("seq", type(x), [flatten_args(y, leaves) for y in x])
    return ("const", x)


def rebuild(t, vals):
    if t[0] == "leaf":
        return vals[t[1]]
    if t[0] == "seq":
        return t[1](rebuild(y, vals) for y in t[2]) if t[1] in (list, tuple) else list(
            rebuild(y, vals) for y in t[2])
    return t[1]


class JaxFn:
    """A jax.numpy function."""

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name
        self.__name__ = name
        self.__pyvc_fn__ = fn

    def __call__(self, *args, **kw):
        args = [tolists(a) for a in args]
        kw = {k: tolists(v) for k, v in kw.items()}
        leaves = []
        ta = [flatten_args(a, leaves) for a in args]
        tk = {k: flatten_args(v, leaves) for k, v in kw.items()}
        if not leaves:
            return out_np(self.fn(*args, **kw))
        def dt(a):
            return np.bool_ if a.size and isinstance(a.ravel()[0], (SymBool, bool)) else np.float64
        shapes = [jax.ShapeDtypeStruct(a.shape, dt(a)) for a in leaves]

        def g(*vals):
            return self.fn(*[rebuild(t, vals) for t in ta], **{k: rebuild(t, vals) for k, t in tk.items()})
        try:
            jp, shape = jax.make_jaxpr(g, return_shape=True)(*shapes)
        except (TypeError, ValueError):
            raise
        except Exception as e:
            raise Unsupported(f"jnp.{self.name}: {type(e).__name__}")
        if Ctx.current is not None:
            Ctx.current.report.assumed.add(
                "jax.numpy: jax's own trace of each call, primitives read as exact real operations")
        outs = eval_jaxpr(jp.jaxpr, jp.consts, leaves)
        flat, tree = jax.tree_util.tree_flatten(shape)
        return jax.tree_util.tree_unflatten(tree, [outv(o) for o in outs])


def outv(o):
    return o


def out_np(r):
    if isinstance(r, jax.Array):
        return np.asarray(r)
    if isinstance(r, (tuple, list)):
        return type(r)(out_np(x) for x in r)
    return r


class JnpProxy(types.ModuleType):
    def __init__(self, mod, name):
        super().__init__(name)
        self._mod = mod

    def __getattr__(self, n):
        v = getattr(object.__getattribute__(self, "_mod"), n)
        if isinstance(v, types.ModuleType):
            r = JnpProxy(v, v.__name__)
        elif callable(v) and not isinstance(v, type):
            r = JaxFn(v, n)
        else:
            r = v
        setattr(self, n, r)
        return r


def obj(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a
    a = np.asarray(a)
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(a.shape):
        o[ix] = a[ix].item()
    return o


def val(x):
    """Reals for arithmetic."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool, np.bool_)):
        return x
    return x


def ew(f):
    def g(*xs, **p):
        xs = [obj(x) for x in xs]
        b = np.broadcast_arrays(*xs) if len(xs) > 1 else xs
        out = np.empty(b[0].shape, dtype=object)
        for ix in np.ndindex(out.shape):
            out[ix] = f(*[y[ix] for y in b])
        return out
    return g


def R(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    return SymReal(SymReal.lift(x))


def B(x):
    from .core import as_z3bool
    return as_z3bool(x)


def p_div(a, b):
    return R(a) / R(b)


def p_pow(a, b):
    return scal.power(R(a), b)


def p_select(which, *cases):
    w = which
    if isinstance(w, (bool, np.bool_, int, np.integer)):
        return cases[int(w)]
    return SymReal(z3.simplify(z3.If(w.t, R(cases[1]).t, R(cases[0]).t)))


def p_sign(a):
    a = R(a)
    return SymReal(z3.If(a.t > 0, z3.RealVal(1), z3.If(a.t < 0, z3.RealVal(-1), z3.RealVal(0))))


def pmax(a, b):
    a, b = R(a), R(b)
    return SymReal(z3.simplify(z3.If(a.t >= b.t, a.t, b.t)))


def pmin(a, b):
    a, b = R(a), R(b)
    return SymReal(z3.simplify(z3.If(a.t <= b.t, a.t, b.t)))


def trig(k):
    def f(a):
        r = scal.cos_sin(R(a))
        if r is None:
            raise Unsupported("cosine or sine of a general angle")
        return r[k]
    return f


EW = {
    "add": lambda a, b: add2(a, b), "add_any": lambda a, b: add2(a, b),
    "sub": lambda a, b: R(a) - R(b), "mul": lambda a, b: R(a) * R(b),
    "div": p_div, "neg": lambda a: -R(a), "sqrt": lambda a: R(a).sqrt(),
    "rsqrt": lambda a: 1 / R(a).sqrt(), "abs": lambda a: abs(R(a)), "sign": p_sign,
    "square": lambda a: R(a) * R(a), "max": pmax, "min": pmin, "pow": p_pow,
    "atan2": lambda y, x: scal.atan2(R(y).t, R(x).t), "acos": lambda a: scal.arccos(R(a).t),
    "cos": trig(0), "sin": trig(1), "select_n": p_select,
    "lt": lambda a, b: cmp(a, b, lambda x, y: x < y), "le": lambda a, b: cmp(a, b, lambda x, y: x <= y),
    "gt": lambda a, b: cmp(a, b, lambda x, y: x > y), "ge": lambda a, b: cmp(a, b, lambda x, y: x >= y),
    "eq": lambda a, b: cmp(a, b, lambda x, y: x == y), "ne": lambda a, b: cmp(a, b, lambda x, y: x != y),
    "and": lambda a, b: SymBool(z3.And(B(a), B(b))), "or": lambda a, b: SymBool(z3.Or(B(a), B(b))),
    "not": lambda a: SymBool(z3.Not(B(a))), "stop_gradient": lambda a: a, "copy": lambda a: a,
    "copy_p": lambda a: a, "real": lambda a: a, "is_finite": lambda a: True,
}


def add2(a, b):
    return R(a) + R(b)


def cmp(a, b, f):
    if isinstance(a, (SymReal, SymInt)) or isinstance(b, (SymReal, SymInt)):
        if any(isinstance(x, float) and (np.isinf(x) or np.isnan(x)) for x in (a, b)):
            inf = a if isinstance(a, float) else b
            if np.isnan(inf):
                return f(float("nan"), 0.0)
            # every real lies strictly between the infinities
            return f(0.0 if isinstance(a, SymReal) else a, 0.0 if isinstance(b, SymReal) else b)
        return f(R(a), R(b))
    return f(a, b)


def dot_general(a, b, dimension_numbers, **p):
    (ca, cb), (ba, bb) = dimension_numbers
    if ba or bb:
        raise Unsupported("batched dot_general")
    r = np.tensordot(obj(a), obj(b), axes=(list(ca), list(cb))) if ca else np.multiply.outer(obj(a), obj(b))
    return np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r


def reduce(f, init):
    def g(x, axes, **p):
        x = obj(x)
        keep = [i for i in range(x.ndim) if i not in axes]
        out = np.empty([x.shape[i] for i in keep], dtype=object)
        y = np.transpose(x, keep + list(axes)).reshape(tuple(out.shape) + (-1,))
        for ix in np.ndindex(out.shape):
            acc = None
            for v in y[ix]:
                acc = v if acc is None else f(acc, v)
            out[ix] = init if acc is None else acc
        return out
    return g


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jax.extend.core.Literal):
            return obj(np.asarray(v.val))
        return env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = obj(np.asarray(c))
    for v, a in zip(jaxpr.invars, args):
        env[v] = obj(a)
    for e in jaxpr.eqns:
        ins = [read(v) for v in e.invars]
        outs = apply_prim(e.primitive.name, ins, e.params, e)
        if not e.primitive.multiple_results:
            outs = [outs]
        for v, o in zip(e.outvars, outs):
            o = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o
            if tuple(o.shape) != tuple(v.aval.shape):
                o = o.reshape(v.aval.shape)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def apply_prim(name, ins, p, e):
    if name in EW:
        return ew(EW[name])(*ins)
    if name == "select_n":
        return ew(p_select)(*ins)
    if name == "integer_pow":
        return ew(lambda a: R(a) ** p["y"])(*ins)
    if name == "convert_element_type":
        new = np.dtype(p["new_dtype"])

        def conv(a):
            if new.kind == "f":
                return R(a) if isinstance(a, SymBool) else (float(a) if not isinstance(a, SymReal) else a)
            if isinstance(a, (SymReal,)):
                raise Unsupported(f"conversion of a real to {new}")
            return a
        return ew(conv)(*ins)
    if name in ("jit", "pjit", "closed_call", "core_call", "remat", "custom_jvp_call", "custom_vjp_call",
                "custom_lin", "checkpoint"):
        jp = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
        if hasattr(jp, "jaxpr"):
            return eval_jaxpr(jp.jaxpr, jp.consts, ins)
        return eval_jaxpr(jp, [], ins)
    if name == "dot_general":
        return dot_general(*ins, **p)
    if name == "reduce_sum":
        return reduce(lambda a, b: R(a) + R(b), 0.0)(*ins, **p)
    if name == "reduce_prod":
        return reduce(lambda a, b: R(a) * R(b), 1.0)(*ins, **p)
    if name == "reduce_max":
        return reduce(pmax, None)(*ins, **p)
    if name == "reduce_min":
        return reduce(pmin, None)(*ins, **p)
    if name == "reduce_and":
        return reduce(lambda a, b: SymBool(z3.And(B(a), B(b))), True)(*ins, **p)
    if name == "reduce_or":
        return reduce(lambda a, b: SymBool(z3.Or(B(a), B(b))), False)(*ins, **p)
    if name == "concatenate":
        return np.concatenate([obj(x) for x in ins], axis=p["dimension"])
    if name == "reshape":
        return ins[0].reshape(p["new_sizes"])
    if name == "squeeze":
        return np.squeeze(ins[0], axis=tuple(p["dimensions"]))
    if name == "expand_dims":
        return np.expand_dims(ins[0], tuple(p["dimensions"]))
    if name == "broadcast_in_dim":
        shape, dims = p["shape"], p["broadcast_dimensions"]
        x = ins[0]
        y = x.reshape([x.shape[dims.index(i)] if i in dims else 1 for i in range(len(shape))])
        return np.broadcast_to(y, shape).copy()
    if name == "transpose":
        return np.transpose(ins[0], p["permutation"])
    if name == "rev":
        return np.flip(ins[0], p["dimensions"])
    if name == "slice":
        st = p["strides"] or [1] * len(p["start_indices"])
        return ins[0][tuple(slice(a, b, c) for a, b, c in zip(p["start_indices"], p["limit_indices"], st))]
    if name == "split":
        out, k = [], 0
        for n in p["sizes"]:
            ix = [slice(None)] * ins[0].ndim
            ix[p["axis"]] = slice(k, k + n)
            out.append(ins[0][tuple(ix)])
            k += n
        return out
    if name == "iota":
        shape, d = p["shape"], p["dimension"]
        x = np.arange(shape[d]).reshape([-1 if i == d else 1 for i in range(len(shape))])
        return obj(np.broadcast_to(x, shape))
    # index manipulations with concrete indices: run jax on position numbers
    if name in ("gather", "dynamic_slice", "pad", "dynamic_update_slice", "scatter", "cumsum", "sort",
                "argmin", "argmax", "clamp"):
        if name == "clamp":
            lo, x, hi = ins
            return ew(lambda a, b, c: pmin(pmax(b, a), c))(lo, x, hi)
        if name == "cumsum":
            x = ins[0] if not p.get("reverse") else np.flip(ins[0], p["axis"])
            r = np.cumsum(x, axis=p["axis"])
            return r if not p.get("reverse") else np.flip(r, p["axis"])
        if name in ("gather", "dynamic_slice", "dynamic_update_slice", "pad"):
            k = 1 if name in ("gather", "dynamic_slice") else 2
            data = ins[:k]
            rest = [np.asarray([[int(v)] for v in x.ravel()], dtype=np.int64).reshape(x.shape) if x.size
                    else np.zeros(x.shape, np.int64) for x in ins[k:]]
            pos, flat = [], []
            for d in data:
                pos.append(np.arange(len(flat), len(flat) + d.size, dtype=np.float64).reshape(d.shape))
                flat.extend(d.ravel())
            rest = [jnp.asarray(r, dtype=v.aval.dtype) for r, v in zip(rest, e.invars[k:])]
            r = np.asarray(e.primitive.bind(*[jnp.asarray(x) for x in pos], *rest, **p))
            out = np.empty(r.shape, dtype=object)
            for ix in np.ndindex(r.shape):
                out[ix] = flat[int(r[ix])]
            return out
    raise Unsupported(f"jax primitive {name}")


class JaxProxy(types.ModuleType):
    """`import jax`: jit is the identity; pytree registration is recorded."""

    def __init__(self, interp):
        super().__init__("jax")
        self.numpy = JnpProxy(jnp, "jax.numpy")
        self.tree_util = TreeUtil(interp)
        self.Array = jax.Array
        self.config = jax.config
        self.jit = jit
        self.jacfwd = jacobian
        self.jacrev = jacobian
        self.jacobian = jacobian
        self.grad = jacobian

    def __getattr__(self, n):
        raise Unsupported(f"jax.{n}")


def jit(f=None, **kw):
    if f is None:
        return lambda g: g
    return f


def jacobian(f, *a, **k):
    raise Unsupported("jax differentiation")


class TreeUtil(types.ModuleType):
    def __init__(self, interp):
        super().__init__("jax.tree_util")
        self.interp = interp

    def register_pytree_node(self, cls, flat, unflat):
        self.interp.pytrees[cls] = (flat, unflat)

    def __getattr__(self, n):
        raise Unsupported(f"jax.tree_util.{n}")


def proxies(interp):
    j = JaxProxy(interp)
    return {"jax": j, "jax.numpy": j.numpy, "jax.tree_util": j.tree_util}
