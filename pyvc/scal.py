"""Symbolic scalars: booleans, integers, reals."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

from .core import ctx, Unsupported, as_z3bool, TRIG


def rat(x):
    """Exact rational of a Python / numpy number (float literals are read as decimals)."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise Unsupported(f"non-finite number {x}")
        return Fraction(repr(x))
    raise TypeError(type(x).__name__)


def realval(x):
    f = rat(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


NUM = (bool, int, float, Fraction, np.number, np.bool_)


class SymBool:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def z3bool(self):
        return self.t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, as_z3bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, as_z3bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))
    logical_not = __invert__

    def __eq__(self, o):
        try:
            return SymBool(self.t == as_z3bool(o))
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def int(self):
        return mkint(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def _num(self, o, f):
        """Arithmetic with a number counts True as 1 (for bool and numpy.bool alike)."""
        if isinstance(o, (SymBool, bool, np.bool_, np.ndarray)):
            raise Unsupported("arithmetic of two truth values")
        return f(self.int(), o)

    def __add__(self, o):
        return self._num(o, lambda a, b: a + b)
    def __radd__(self, o):
        return self._num(o, lambda a, b: b + a)
    def __sub__(self, o):
        return self._num(o, lambda a, b: a - b)
    def __rsub__(self, o):
        return self._num(o, lambda a, b: b - a)
    def __mul__(self, o):
        return self._num(o, lambda a, b: a * b)
    def __rmul__(self, o):
        return self._num(o, lambda a, b: b * a)

    def __repr__(self):
        return f"SymBool({self.t})"


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymInt:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.IntVal(int(o))
        if isinstance(o, SymBool):
            return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, (int, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f):
        b = SymInt.lift(o)
        if b is None:
            if isinstance(o, (float, Fraction, SymReal)):
                return f(self.real(), o)
            return NotImplemented
        return mkint(f(self.t, b))

    def real(self):
        return SymReal(z3.ToReal(self.t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        from .seq import repeat, is_seqlike
        if is_seqlike(o):
            return repeat(o, self)
        if isinstance(o, str):
            from .strs import repeated
            return repeated(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __floordiv__(self, o):
        b = SymInt.lift(o)
        if b is None:
            return NotImplemented
        if ctx().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # Python floors; z3 div is Euclidean (remainder >= 0): same for b > 0
        if ctx().branch(b > 0):
            return mkint(self.t / b)
        raise Unsupported("floor division by a negative symbolic integer")

    def __mod__(self, o):
        b = SymInt.lift(o)
        if b is None:
            return NotImplemented
        if ctx().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ctx().branch(b > 0):
            return mkint(self.t % b)
        raise Unsupported("modulo by a negative symbolic integer")

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return SymInt(z3.IntVal(o)) // self if isinstance(o, int) else NotImplemented

    def __rmod__(self, o):
        return SymInt(z3.IntVal(o)) % self if isinstance(o, int) else NotImplemented

    def __rdivmod__(self, o):
        return o // self, o % self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __float__(self):
        raise Unsupported("symbolic integer converted to a float")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __truediv__(self, o):
        return self.real() / (o.real() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.real()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.real() ** o

    def _cmp(self, o, f):
        b = SymInt.lift(o)
        if b is None:
            if isinstance(o, (float, Fraction, SymReal)):
                return f(self.real(), o)
            return NotImplemented
        return mkbool(f(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __repr__(self):
        return f"SymInt({self.t})"

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("symbolic integer used where a concrete one is needed")


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


class SymReal:
    """A real number.  Behaves like a 0-d float array where numpy needs that."""
    __slots__ = ("t",)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(o):
        if isinstance(o, SymReal):
            return o.t
        if isinstance(o, SymInt):
            return z3.ToReal(o.t)
        if isinstance(o, SymBool):
            return z3.If(o.t, z3.RealVal(1), z3.RealVal(0))
        if isinstance(o, NUM):
            return realval(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return SymReal.lift(o.item())
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        return SymReal(z3.simplify(f(self.t, b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t))
    fabs = __abs__
    absolute = __abs__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        return div(self.t, b)

    def __rtruediv__(self, o):
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        return div(b, self.t)

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def sqrt(self):
        return sqrt(self.t)

    def conjugate(self):
        return self

    def item(self):
        return self

    def arctan2(self, x):
        return atan2(self.t, SymReal.lift(x))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def arccos(self):
        return arccos(self.t)

    def degrees(self):
        return self * 180 / pi()
    rad2deg = degrees

    def radians(self):
        return self * pi() / 180
    deg2rad = radians

    def square(self):
        return self * self

    def ravel(self):
        return np.array([self], dtype=object)

    def __float__(self):
        t = z3.simplify(self.t)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        raise Unsupported("symbolic real converted to float")

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return mkbool(f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1)))
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        return mkbool(f(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r
    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __repr__(self):
        return f"SymReal({self.t})"


def real(name):
    c = ctx()
    t = z3.Real(name)
    c.inputs[name] = t
    return SymReal(t)


def integer(name, lo=None, hi=None):
    c = ctx()
    t = z3.Int(name)
    c.inputs[name] = t
    if lo is not None:
        c.assume(t >= lo)
    if hi is not None:
        c.assume(t <= hi)
    return SymInt(t)


def boolean(name):
    c = ctx()
    t = z3.Bool(name)
    c.inputs[name] = t
    return SymBool(t)


def _key(*ts):
    return tuple(polykey(t) for t in ts)


def polykey(t):
    """A canonical key of a polynomial: its monomials with their coefficients, sorted."""
    t = z3.simplify(t, som=True)
    mono = {}
    for m in (t.children() if z3.is_add(t) else [t]):
        k, vs = Fraction(1), []
        todo = [m]
        while todo:
            f = todo.pop()
            if z3.is_mul(f):
                todo.extend(f.children())
            elif z3.is_rational_value(f):
                k *= f.as_fraction()
            elif z3.is_app_of(f, z3.Z3_OP_UMINUS):
                k = -k
                todo.extend(f.children())
            elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)) and \
                    f.arg(1).as_fraction().denominator == 1 and 0 < f.arg(1).as_fraction() <= 12:
                todo.extend([f.arg(0)] * int(f.arg(1).as_fraction()))
            else:
                vs.append(f.sexpr())
        vs = tuple(sorted(vs))
        mono[vs] = mono.get(vs, Fraction(0)) + k
    return tuple(sorted((v, k) for v, k in mono.items() if k))


def div(a, b):
    c = ctx()
    b = z3.simplify(b)
    if z3.is_rational_value(b) and b.as_fraction() != 0:
        return SymReal(z3.simplify(a / b))
    k = ("div",) + _key(a, b)
    if k not in c.memo:
        q = z3.Real(c.fresh("quot"))
        c.assume(z3.Implies(b != 0, q * b == a), [str(q)])
        c.memo[k] = q
    return SymReal(c.memo[k])


def sqrt(a):
    c = ctx()
    a = z3.simplify(a)
    if z3.is_rational_value(a):
        f = a.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return SymReal(realval(Fraction(n, d)))
    k = ("sqrt",) + _key(a)
    if k not in c.memo:
        s = z3.Real(c.fresh("sqrt"))
        c.assume(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)), [str(s)])
        c.memo[k] = s
    return SymReal(c.memo[k])


def power(x, y):
    if isinstance(y, np.ndarray) and y.ndim == 0:
        y = y.item()
    if isinstance(y, NUM):
        e = rat(y)
        b = x if isinstance(x, SymReal) else SymReal(SymReal.lift(x))
        if e.denominator == 1 and abs(e) <= 8:
            n = abs(int(e))
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * b.t
            return SymReal(z3.simplify(r)) if e >= 0 else div(z3.RealVal(1), r)
        if e == Fraction(1, 2):
            return b.sqrt()
        if e == Fraction(-1, 2):
            return 1 / b.sqrt()
    c = ctx()
    a, b = SymReal.lift(x), SymReal.lift(y)
    f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    c.report.assumed.add("real power with a symbolic exponent is an uninterpreted function")
    return SymReal(f(a, b))


# ---- trigonometry -------------------------------------------------------------------

def pi():
    c = ctx()
    if "pi" not in c.memo:
        p = z3.Real("pi")
        c.assume(z3.And(p > z3.RealVal("3.14159265"), p < z3.RealVal("3.14159266")), ["pi"])
        c.memo["pi"] = p
    return SymReal(c.memo["pi"])


def _angle(lo, hi, lo_open):
    """A fresh angle with its cosine and sine."""
    c = ctx()
    n = c.fresh("ang")
    a, co, si = z3.Real(n), z3.Real(n + ".cos"), z3.Real(n + ".sin")
    mine = [str(a), str(co), str(si)]
    c.assume(co * co + si * si == 1, mine)
    c.assume(z3.And(a > lo if lo_open else a >= lo, a <= hi), mine)
    p = pi().t
    # quadrants tie the angle to its cosine and sine
    c.assume(z3.And(z3.Implies(z3.And(a > 0, a < p), si > 0),
                    z3.Implies(z3.And(a > -p, a < 0), si < 0),
                    z3.Implies(a == 0, z3.And(si == 0, co == 1)),
                    z3.Implies(a == p, z3.And(si == 0, co == -1))), mine)
    c.trig[str(a)] = (a, co, si)
    c.inexact(TRIG)
    return a, co, si


def atan2(y, x):
    c = ctx()
    k = ("atan2",) + _key(y, x)
    if k not in c.memo:
        p = pi().t
        a, co, si = _angle(-p, p, True)
        r = sqrt(x * x + y * y).t
        c.assume(z3.Implies(z3.Or(x != 0, y != 0), z3.And(r > 0, r * co == x, r * si == y)), [str(a), str(co), str(si)])
        c.memo[k] = a
        c.report.assumed.add("arctan2: the angle in (-pi, pi] with the given cosine and sine ratio")
    return SymReal(c.memo[k])


def arccos(x):
    c = ctx()
    k = ("arccos",) + _key(x)
    if k not in c.memo:
        a, co, si = _angle(z3.RealVal(0), pi().t, False)
        c.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(co == x, si >= 0)), [str(a), str(co), str(si)])
        c.memo[k] = a
        c.report.assumed.add("arccos: the angle in [0, pi] with the given cosine")
    return SymReal(c.memo[k])


def cos_sin(v):
    """(cos, sin) of an integer combination of known angles and multiples of pi/2."""
    c = ctx()
    t = z3.simplify(v.t if isinstance(v, SymReal) else SymReal.lift(v), som=True)
    terms = t.children() if z3.is_add(t) else [t]
    co, si = z3.RealVal(1), z3.RealVal(0)

    def rot(co, si, c2, s2):
        return z3.simplify(co * c2 - si * s2), z3.simplify(si * c2 + co * s2)
    for term in terms:
        k, base = Fraction(1), term
        if z3.is_mul(term) and term.num_args() == 2 and z3.is_rational_value(term.arg(0)):
            k, base = term.arg(0).as_fraction(), term.arg(1)
        if z3.is_rational_value(base) and base.as_fraction() == 0:
            continue
        if str(base) == "pi":
            q = k * 2
            if q.denominator != 1:
                return None
            c2, s2 = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q) % 4]
            co, si = rot(co, si, z3.RealVal(c2), z3.RealVal(s2))
        elif str(base) in c.trig and k.denominator == 1 and abs(k) <= 4:
            _, c1, s1 = c.trig[str(base)]
            for _ in range(abs(int(k))):
                co, si = rot(co, si, c1, s1 if k > 0 else -s1)
        else:
            return None
    return SymReal(co), SymReal(si)
