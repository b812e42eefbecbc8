"""Symbolic strings: a list of pieces, each a literal, a z3 string term or a printed integer."""
from __future__ import annotations

import _string
import z3

from .core import ctx, Unsupported
from .scal import SymInt, SymReal, SymBool, mkbool, mkint


class Atom:
    """A symbolic string; `noslash`: it contains no '/' (a single path component)."""
    __slots__ = ("t", "noslash")

    def __init__(self, t, noslash=False):
        self.t = t
        self.noslash = noslash

    def __repr__(self):
        return f"<{self.t}>"


class IntStr:
    """The decimal digits of a non-negative integer."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    @property
    def t(self):
        return z3.IntToStr(self.n)

    noslash = True

    def __repr__(self):
        return f"<int {self.n}>"


class Digits(Atom):
    """Some digits of a number (read as a number: an arbitrary one)."""
    __slots__ = ("n",)

    def __init__(self):
        c = ctx()
        c.inexact("a number of three or more digits is cut")
        super().__init__(z3.String(c.fresh("digits")), True)
        self.n = z3.Int(c.fresh("digits.value"))
        c.assume(z3.And(z3.Length(self.t) > 0, self.n >= 0))


def _piece_t(p):
    return z3.StringVal(p) if isinstance(p, str) else p.t


class SymStr:
    __pyvc_sym__ = True
    __pyvc_type__ = str
    __slots__ = ("ps",)

    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.ps = tuple(out)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, str):
            return SymStr([x])
        raise TypeError(f"not a string: {type(x).__name__}")

    @staticmethod
    def term(t, noslash=False):
        return SymStr([Atom(t, noslash)])

    def plain(self):
        """A Python str when fully known."""
        if not self.ps:
            return ""
        if len(self.ps) == 1 and isinstance(self.ps[0], str):
            return self.ps[0]
        return None

    def out(self):
        p = self.plain()
        return self if p is None else p

    @property
    def t(self):
        ts = [_piece_t(p) for p in self.ps]
        if not ts:
            return z3.StringVal("")
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr(self.ps + SymStr.of(o).ps).out()
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr((o,) + self.ps).out()
        return NotImplemented

    # ---- comparison
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return eq(self, SymStr.of(o))

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    def __lt__(self, o):
        return mkbool(self.t < SymStr.of(o).t)

    def __repr__(self):
        return "SymStr(" + " ".join(map(repr, self.ps)) + ")"

    def __bool__(self):
        if any(isinstance(p, (str, IntStr)) for p in self.ps):
            return True
        return ctx().branch(z3.Length(self.t) > 0)

    def __pyvc_len__(self):
        return mkint(z3.Length(self.t))

    # ---- slashes
    def _first_slash(self):
        """(index of piece, offset) of the first slash; None; or raises when it depends."""
        for i, p in enumerate(self.ps):
            if isinstance(p, str):
                j = p.find("/")
                if j >= 0:
                    return i, j
            elif not p.noslash:
                return i, None
        return None

    def contains(self, x):
        x = SymStr.of(x)
        px = x.plain()
        if px == "/":
            f = self._first_slash()
            if f is None:
                return False
            if any(isinstance(p, str) and "/" in p for p in self.ps):
                return True
        if px is not None and any(isinstance(p, str) and px in p for p in self.ps):
            return True
        return mkbool(z3.Contains(self.t, x.t))

    def has_slash(self):
        r = self.contains("/")
        return r if isinstance(r, bool) else ctx().branch(r.t)

    def split_first(self):
        """(head, tail) around the first slash, or None (forks when unknown)."""
        f = self._first_slash()
        if f is None:
            return None
        i, j = f
        if j is not None:
            p = self.ps[i]
            return (SymStr(self.ps[:i] + (p[:j],)), SymStr((p[j + 1:],) + self.ps[i + 1:]))
        p = self.ps[i]
        c = ctx()
        if c.branch(z3.Contains(p.t, z3.StringVal("/"))):
            h, t = cut_first(p.t)
            return (SymStr(self.ps[:i] + (Atom(h, True),)), SymStr((Atom(t),) + self.ps[i + 1:]))
        q = SymStr(self.ps[:i] + (Atom(p.t, True),) + self.ps[i + 1:])
        return q.split_first()

    def split_last(self):
        for i in range(len(self.ps) - 1, -1, -1):
            p = self.ps[i]
            if isinstance(p, str):
                j = p.rfind("/")
                if j >= 0:
                    return (SymStr(self.ps[:i] + (p[:j],)), SymStr((p[j + 1:],) + self.ps[i + 1:]))
            elif not p.noslash:
                c = ctx()
                if c.branch(z3.Contains(p.t, z3.StringVal("/"))):
                    h, t = cut_last(p.t)
                    return (SymStr(self.ps[:i] + (Atom(h),)),
                            SymStr((Atom(t, True),) + self.ps[i + 1:]))
        return None

    def split(self, sep=None, maxsplit=-1):
        if sep != "/":
            raise Unsupported(f"split of a symbolic string at {sep!r}")
        if maxsplit == 0:
            return [self]
        s = self.split_first()
        if s is None:
            return [self.out()]
        if maxsplit == 1:
            return [s[0].out(), s[1].out()]
        if maxsplit > 0:
            return [s[0].out()] + SymStr.of(s[1]).split(sep, maxsplit - 1)
        if all(isinstance(p, str) or p.noslash for p in self.ps):
            return [s[0].out()] + SymStr.of(s[1]).split(sep)
        return SplitAll(self)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep != "/":
            raise Unsupported("rsplit of a symbolic string")
        if maxsplit < 0:
            return self.split("/")
        if maxsplit == 0:
            return [self.out()]
        s = self.split_last()
        if s is None:
            return [self.out()]
        return SymStr.of(s[0]).rsplit(sep, maxsplit - 1) + [s[1].out()]

    def rstrip(self, chars=None):
        return self._strip(chars, False)

    def lstrip(self, chars=None):
        return self._strip(chars, True)

    def strip(self, chars=None):
        return SymStr.of(self._strip(chars, True)).rstrip(chars)

    def _strip(self, chars, left):
        if not isinstance(chars, str) or not chars:
            raise Unsupported("stripping a symbolic string")
        ps = list(self.ps)
        c = ctx()
        end = 0 if left else -1
        while ps:
            p = ps.pop(end)
            if isinstance(p, str):
                p = p.lstrip(chars) if left else p.rstrip(chars)
                if not p:
                    continue
            elif isinstance(p, IntStr):
                if any(ch.isdigit() for ch in chars):
                    raise Unsupported("stripping digits")
            elif p.noslash and chars == "/":
                if c.branch(z3.Length(p.t) == 0):
                    continue
            else:
                test = z3.PrefixOf if left else z3.SuffixOf
                has = lambda t: z3.Or(*[test(z3.StringVal(ch), t) for ch in chars])
                if c.branch(has(p.t)):
                    r = z3.String(c.fresh("strip"))
                    z = z3.String(c.fresh("stripped"))
                    one = [z3.Re(z3.StringVal(ch)) for ch in dict.fromkeys(chars)]
                    c.assume(p.t == (z3.Concat(z, r) if left else z3.Concat(r, z)))
                    c.assume(z3.InRe(z, z3.Plus(z3.Union(*one) if len(one) > 1 else one[0])))
                    c.assume(z3.Not(has(r)))
                    p = Atom(r, p.noslash)
                if c.branch(z3.Length(p.t) == 0):
                    continue
            ps.insert(0 if left else len(ps), p)
            break
        return SymStr(ps).out()

    def partition(self, sep):
        if sep != "/":
            raise Unsupported("partition of a symbolic string")
        s = self.split_first()
        return (self.out(), "", "") if s is None else (s[0].out(), "/", s[1].out())

    def rpartition(self, sep):
        if sep != "/":
            raise Unsupported("rpartition of a symbolic string")
        s = self.split_last()
        return ("", "", self.out()) if s is None else (s[0].out(), "/", s[1].out())

    def startswith(self, x):
        x = SymStr.of(x)
        a, b = strip_common(self.ps, x.ps)
        if not b:
            return True
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            m = min(len(a[0]), len(b[0]))
            if a[0][:m] != b[0][:m]:
                return False
        return mkbool(z3.PrefixOf(SymStr(b).t, SymStr(a).t))

    def endswith(self, x):
        return mkbool(z3.SuffixOf(SymStr.of(x).t, self.t))

    def removeprefix(self, x):
        r = self.startswith(x)
        if r is True or (r is not False and ctx().branch(r.t)):
            if isinstance(x, str):
                return self[len(x):]
            a, b = strip_common(self.ps, SymStr.of(x).ps)
            if b:
                raise Unsupported("removing a symbolic prefix")
            return SymStr(a).out()
        return self

    def isdigit(self):
        if len(self.ps) == 1 and isinstance(self.ps[0], IntStr):
            return True
        raise Unsupported("isdigit of a symbolic string")

    def join(self, xs):
        return join(self, xs)

    def encode(self, *a):
        raise Unsupported("encode")

    def to_int(self):
        if len(self.ps) == 1 and isinstance(self.ps[0], (IntStr, Digits)):
            return mkint(self.ps[0].n)
        raise Unsupported("int() of a symbolic string")

    # ---- indexing
    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = i.start, i.stop
            if i.step not in (None, 1) or not all(x is None or isinstance(x, int) for x in (a, b)):
                raise Unsupported("index into a symbolic string")
            a = 0 if a is None else int(a)
            if a < 0:
                if b is not None:
                    raise Unsupported("index into a symbolic string")
                return self._split_end(-a)[1].out()
            s = self
            if b is not None:
                if b >= 0:
                    return SymStr.of(s._drop(a))._take(max(b - a, 0))
                s = s._split_end(-b)[0]
            return s._drop(a)
        if isinstance(i, int) and not isinstance(i, bool):
            s, r = self._split_at(i) if i >= 0 else self._split_end(-i)
            if i >= 0:
                if not r:
                    raise IndexError("string index out of range")
                return r._take(1)
            if not ctx().branch(z3.Length(r.t) >= -i):
                raise IndexError("string index out of range")
            return r._take(1)
        raise Unsupported("index into a symbolic string")

    def _split_end(self, n):
        """(rest, last n characters)."""
        out, k = [], n
        ps = list(self.ps)
        c = ctx()
        while ps and k > 0:
            p = ps.pop()
            if isinstance(p, str):
                out.insert(0, p[-k:])
                if len(p) > k:
                    ps.append(p[:-k])
                k -= min(k, len(p))
            elif isinstance(p, IntStr):
                if c.branch(p.n < 10):
                    out.insert(0, p)
                else:
                    out.insert(0, IntStr(p.n % 10))
                    ps.append(IntStr(p.n / 10))
                k -= 1
            else:
                ln = z3.Length(p.t)
                if c.branch(ln <= k):
                    out.insert(0, p)
                    for m in range(k + 1):
                        if m == k or c.branch(ln == m):
                            k -= m
                            break
                else:
                    out.insert(0, Atom(z3.SubString(p.t, ln - k, z3.IntVal(k)), p.noslash))
                    ps.append(Atom(z3.SubString(p.t, 0, ln - k), p.noslash))
                    k = 0
        return SymStr(ps), SymStr(out)

    def replace(self, old, new, count=-1):
        old, new = SymStr.of(old), SymStr.of(new)
        if not any(isinstance(p, (str, IntStr)) for p in old.ps) or not isinstance(count, int):
            raise Unsupported("replacing in a symbolic string")
        c = ctx()
        out, rest = [], self
        while count != 0:
            a, b = strip_common(rest.ps, old.ps)
            if not b:
                out += new.ps
                rest = SymStr(a)
                count -= 1
                continue
            r = rest.contains(old) if rest.ps else False
            if r is False or r is not True and not c.branch(r.t):
                break
            i = z3.IndexOf(rest.t, old.t, z3.IntVal(0)) + z3.Length(old.t)
            if count != 1 and not c.branch(z3.Not(z3.Contains(
                    z3.SubString(rest.t, i, z3.Length(rest.t) - i), old.t))):
                if count > 1:
                    raise Unsupported("replacing several occurrences")
                c.inexact("several occurrences are replaced")
                f = z3.Function("str.replace.all", *4 * (z3.StringSort(),))
                rest = SymStr([Atom(f(rest.t, old.t, new.t))])
                break
            rest = SymStr([Atom(z3.Replace(rest.t, old.t, new.t))])
            break
        return SymStr(tuple(out) + rest.ps).out()

    def _split_at(self, n):
        """(prefix of n characters, rest) when every cut piece is a literal; forks on length."""
        out, k = [], n
        ps = list(self.ps)
        while ps and k > 0:
            p = ps[0]
            if isinstance(p, str):
                if len(p) > k:
                    out.append(p[:k])
                    ps[0] = p[k:]
                    k = 0
                else:
                    out.append(p)
                    k -= len(p)
                    ps.pop(0)
            elif isinstance(p, IntStr):
                c = ctx()
                if c.branch(p.n < 10):
                    d = 1
                elif c.branch(p.n < 100):
                    d = 2
                else:
                    out.append(Digits())
                    ps[0] = Digits()
                    break
                if d <= k:
                    out.append(p)
                    ps.pop(0)
                    k -= d
                else:
                    out.append(IntStr(p.n / 10))
                    ps[0] = IntStr(p.n % 10)
                    k = 0
            else:
                c = ctx()
                ln = z3.Length(p.t)
                if c.branch(ln <= k):
                    # length is one of 0..k
                    for m in range(k + 1):
                        if m == k or c.branch(ln == m):
                            out.append(p)
                            k -= m
                            break
                    ps.pop(0)
                else:
                    h = z3.SubString(p.t, 0, k)
                    r = z3.SubString(p.t, k, ln - k)
                    out.append(Atom(h, p.noslash))
                    ps[0] = Atom(r, p.noslash)
                    k = 0
        return SymStr(out), SymStr(ps)

    def _take(self, n):
        return self._split_at(n)[0].out()

    def _drop(self, n):
        return self._split_at(n)[1].out()


def cut_first(t):
    """Fresh (head, tail) with t == head + '/' + tail and no slash in head."""
    c = ctx()
    k = ("cutf", t.sexpr())
    if k not in c.memo:
        n = c.fresh("seg")
        h, r = z3.String(n + ".head"), z3.String(n + ".tail")
        c.assume(t == z3.Concat(h, z3.StringVal("/"), r))
        c.assume(z3.Not(z3.Contains(h, z3.StringVal("/"))))
        c.memo[k] = (h, r)
    return c.memo[k]


def cut_last(t):
    c = ctx()
    k = ("cutl", t.sexpr())
    if k not in c.memo:
        n = c.fresh("seg")
        h, r = z3.String(n + ".init"), z3.String(n + ".last")
        c.assume(t == z3.Concat(h, z3.StringVal("/"), r))
        c.assume(z3.Not(z3.Contains(r, z3.StringVal("/"))))
        c.memo[k] = (h, r)
    return c.memo[k]


def join(sep, xs, interp=None):
    """`sep.join(xs)` for known components, or the components of a split path."""
    from .seq import as_vseq
    if isinstance(xs, SplitAll):
        if sep != "/":
            raise Unsupported("joining path components with another separator")
        return xs.joined()
    if not isinstance(xs, (list, tuple)):
        v = as_vseq(xs, interp, native_ok=False)
        xs = list(xs) if v is None else v.concrete()
        if xs is None:
            raise Unsupported("join of a symbolic sequence")
    out = SymStr([])
    for i, x in enumerate(xs):
        if not isinstance(x, (str, SymStr)):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        out = SymStr(out.ps + (SymStr.of(sep).ps if i else ()) + SymStr.of(x).ps)
    return out.out()


def str_method(s, name, args, interp, kw=None):
    """A method of the known string `s` with symbolic arguments."""
    if name == "join" and len(args) == 1:
        xs = args[0]
        if isinstance(xs, SplitAll) or type(xs).__name__ in ("VSeq", "PyList") \
                or (isinstance(xs, (list, tuple)) and any(isinstance(x, SymStr) for x in xs)):
            return join(s, xs, interp)
        return NotImplemented
    if name == "format":
        return str_format(s, args, kw or {}, interp)
    if any(isinstance(a, SymStr) for a in args):
        m = getattr(SymStr([s]), name, None)
        if m is None:
            raise Unsupported(f"str.{name} with a symbolic argument")
        return m(*args)
    return NotImplemented


class SplitAll:
    """`s.split('/')` where s contains at least one slash."""
    __pyvc_sym__ = True
    __pyvc_type__ = list

    def __init__(self, s):
        self.s = s

    def __pyvc_len__(self):
        # at least two components
        c = ctx()
        n = z3.Int(c.fresh("ncomp"))
        c.assume(n >= 2)
        if ("ncomp", repr(self.s)) not in c.memo:
            c.memo[("ncomp", repr(self.s))] = n
        return SymInt(c.memo[("ncomp", repr(self.s))])

    def __getitem__(self, i):
        if i == 0:
            return self.s.split_first()[0].out()
        if i == -1:
            return self.s.split_last()[1].out()
        if isinstance(i, slice) and i.step is None:
            if i.start in (None, 0) and i.stop == -1:
                return SplitPart(self.s.split_last()[0])
            if i.start == 1 and i.stop is None:
                return SplitPart(self.s.split_first()[1])
            if i.start in (None, 0) and i.stop is None:
                return self
        raise Unsupported("index into the components of a symbolic path")

    def __pyvc_unpack_star__(self, a, b):
        if (a, b) == (0, 1):
            h, t = self.s.split_last()
            return [], SplitPart(h), [t.out()]
        if (a, b) == (1, 0):
            h, t = self.s.split_first()
            return [h.out()], SplitPart(t), []
        raise Unsupported("unpacking the components of a symbolic path")

    def joined(self):
        return self.s.out()

    def pop(self, *a):
        raise Unsupported("pop on path components")


class SplitPart(SplitAll):
    """A non-empty run of path components (one or more)."""

    def __init__(self, s):
        self.s = SymStr.of(s)

    def __pyvc_len__(self):
        return 1 if self.s.split_first() is None else SplitAll(self.s).__pyvc_len__()

    def __getitem__(self, i):
        if self.s.split_first() is None:
            return [self.s.out()][i]
        return SplitAll(self.s)[i]


def strip_common(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            m = min(len(x), len(y))
            if x[:m] != y[:m]:
                break
            a[0], b[0] = x[m:], y[m:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
            continue
        if not isinstance(x, str) and not isinstance(y, str) and type(x) is type(y) \
                and (x.t if isinstance(x, Atom) else x.n).eq(y.t if isinstance(y, Atom) else y.n):
            a.pop(0)
            b.pop(0)
            continue
        break
    return a, b


def _chars_differ(a, b):
    """First pieces are literals with different first characters."""
    return a and b and isinstance(a[0], str) and isinstance(b[0], str) and a[0][0] != b[0][0]


def eq(a, b):
    pa, pb = strip_common(a.ps, b.ps)
    ra, rb = strip_common_end(pa, pb)
    if not ra and not rb:
        return True
    if _chars_differ(ra, rb) or (ra and rb and isinstance(ra[-1], str) and isinstance(rb[-1], str)
                                 and ra[-1][-1] != rb[-1][-1]):
        return False
    for x, y in ((ra, rb), (rb, ra)):
        if not x and any(isinstance(p, str) or isinstance(p, IntStr) for p in y):
            return False
        # a printed number against a literal
        if len(x) == 1 and isinstance(x[0], IntStr) and len(y) == 1 and isinstance(y[0], str):
            s = y[0]
            if s.isdigit() and (s == "0" or s[0] != "0"):
                return mkbool(x[0].n == int(s))
            return False
        # a slash-free string against one with a literal slash
        if all((isinstance(p, str) and "/" not in p) or (not isinstance(p, str) and p.noslash) for p in x) \
                and any(isinstance(p, str) and "/" in p for p in y):
            return False
    if len(ra) == 1 and len(rb) == 1 and isinstance(ra[0], IntStr) and isinstance(rb[0], IntStr):
        return mkbool(ra[0].n == rb[0].n)
    return mkbool(SymStr(ra).t == SymStr(rb).t)


def strip_common_end(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            k = 0
            while k < min(len(x), len(y)) and x[-1 - k] == y[-1 - k]:
                k += 1
            if k == 0:
                break
            a[-1], b[-1] = x[:len(x) - k], y[:len(y) - k]
            if not a[-1]:
                a.pop()
            if not b[-1]:
                b.pop()
            continue
        if not isinstance(x, str) and not isinstance(y, str) and type(x) is type(y) \
                and (x.t if isinstance(x, Atom) else x.n).eq(y.t if isinstance(y, Atom) else y.n):
            a.pop()
            b.pop()
            continue
        break
    return a, b


def repeated(s, n):
    """A known string repeated a symbolic number of times."""
    if not s:
        return ""
    c = ctx()
    k = ("strrep", s, n.t.sexpr())
    if k not in c.memo:
        t = z3.String(c.fresh("rep"))
        c.assume(z3.Length(t) == len(s) * z3.If(n.t > 0, n.t, 0))
        c.assume(z3.InRe(t, z3.Star(z3.Re(s))))
        c.memo[k] = t
    return SymStr.term(c.memo[k], noslash="/" not in s)


def concat(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    r = SymStr.of("")
    for p in parts:
        r = r + p
    return r


def str_format(s, args, kw, interp):
    """s.format(*args, **kw)."""
    import string
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(s):
        parts.append(text)
        if field is None:
            continue
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first, auto = auto, auto + 1
        x = args[first] if isinstance(first, int) else kw[first]
        for is_attr, k in rest:
            x = interp.getattr(x, k) if is_attr else interp.getitem(x, k)
        if spec and "{" in spec:
            raise Unsupported("nested replacement field")
        parts.append(fmt(interp, x, ord(conv) if conv else -1, spec or None))
    return concat(parts)


def str_percent(s, v, interp):
    """s % v."""
    import re
    vals = list(v) if isinstance(v, tuple) else [v]
    parts, last = [], 0
    for m in re.finditer(r"%(.)", s):
        parts.append(s[last:m.start()])
        last = m.end()
        k = m.group(1)
        if k == "%":
            parts.append("%")
            continue
        if k not in "srdi" or not vals:
            raise Unsupported(f"conversion %{k} of a symbolic value")
        x = vals.pop(0)
        if k in "di" and not isinstance(x, (int, SymInt)):
            raise Unsupported(f"conversion %{k} of a symbolic value")
        parts.append(fmt(interp, x, ord("r") if k == "r" else -1))
    if vals:
        raise TypeError("not all arguments converted during string formatting")
    return concat(parts + [s[last:]])


def fmt(interp, x, conversion=-1, spec=None):
    """One replacement field of an f-string."""
    if spec in ("d", "s") and isinstance(x, SymInt if spec == "d" else SymStr):
        spec = None
    if conversion in (ord("r"), ord("a")):
        return interp.to_repr(x)
    if isinstance(x, SymStr) and not spec:
        return x
    if isinstance(x, SymInt) and not spec:
        c = ctx()
        if c.entails(x.t >= 0, timeout=6000):
            return SymStr([IntStr(x.t)])
        if c.branch(x.t >= 0):
            return SymStr([IntStr(x.t)])
        return SymStr(["-", IntStr(-x.t)])
    if isinstance(x, str) and type(x) is str and not spec:
        return x
    return interp.to_str(x, spec)
