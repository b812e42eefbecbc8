#!/usr/bin/env python3
"""Apply a behaviour-preserving rewrite to every source file of a copy of the package.

tools_refactor.py NAME DIR: DIR/src/mpllayout becomes the rewritten package (from /repo).
Used to see that the checks stay quiet: PYVC_REPO=DIR ... (not read by any check).
"""
import ast
import copy
import os
import shutil
import sys

SRC = "/repo/src/mpllayout"


class Fn(ast.NodeTransformer):
    """Base: rewrites inside functions only."""


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if ast.get_docstring(n) is not None else 0
        n.body[k:k] = [ast.parse("_unused = 0").body[0]]
        return n


class Result(ast.NodeTransformer):
    """return X  ->  result_ = X; return result_"""
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value),
                ast.Return(ast.Name("result_", ast.Load()))]


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse or len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Tern(ast.NodeTransformer):
    """x = a if c else b -> if/else statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class Comp(ast.NodeTransformer):
    """x = [e for ...] / {k: v for ...} / tuple(e for ...) -> loop (in statements `x = ...`, `return ...`)"""
    n = 0

    def loops(self, comp, body):
        for g in reversed(comp.generators):
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return body

    def pre(self, v):
        """(statements, expression)"""
        Comp.n += 1
        acc = f"acc{Comp.n}_"

        def name(store=False):
            return ast.Name(acc, ast.Store() if store else ast.Load())
        if isinstance(v, ast.ListComp):
            return [ast.Assign([name(True)], ast.List([], ast.Load()))] + self.loops(v, [ast.Expr(ast.Call(
                ast.Attribute(name(), "append", ast.Load()), [v.elt], []))]), name()
        if isinstance(v, ast.DictComp):
            return [ast.Assign([name(True)], ast.Dict([], []))] + self.loops(v, [ast.Assign([ast.Subscript(
                name(), v.key, ast.Store())], v.value)]), name()
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list") and \
                len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = v.args[0]
            s, e = self.pre(ast.ListComp(g.elt, g.generators))
            return s, e if v.func.id == "list" else ast.Call(v.func, [e], [])
        return [], v

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                n.body[i] = self.visit(s)
        return n

    def visit_Assign(self, n):
        s, v = self.pre(n.value)
        n.value = v
        return s + [n]

    def visit_Return(self, n):
        if n.value is None:
            return n
        s, v = self.pre(n.value)
        n.value = v
        return s + [n]


class Enum(ast.NodeTransformer):
    """for i, x in enumerate(xs) -> i = 0 ... ; only for list-like names"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and \
                len(it.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            i = n.target.elts[0].id
            return [ast.parse(f"{i} = 0").body[0],
                    ast.For(n.target.elts[1], it.args[0], n.body + [ast.parse(f"{i} += 1").body[0]], [])]
        return n


class Fstr(ast.NodeTransformer):
    """f"{a}/{b}" -> str(a) + "/" + str(b)"""
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(ast.Call(ast.Name("str", ast.Load()), [v.value], []))
            else:
                return n
        e = parts[0]
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e


class Fmt(ast.NodeTransformer):
    """f"{a}/{b}" -> "{}/{}".format(a, b)"""
    def visit_JoinedStr(self, n):
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            elif v.conversion == -1 and v.format_spec is None:
                s += "{}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])


class Split(ast.NodeTransformer):
    """and/or conditions -> nested ifs: if a and b: X (no else)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class Args(ast.NodeTransformer):
    """f(g(x)) -> t = g(x); f(t) in expression statements, assignments and returns (first argument)."""
    n = 0

    def split(self, v):
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Tuple)) \
                and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(
                    isinstance(x, ast.Call) for x in ast.walk(v.func)):
            Args.n += 1
            t = f"arg{Args.n}_"
            s = ast.Assign([ast.Name(t, ast.Store())], v.args[0])
            v.args[0] = ast.Name(t, ast.Load())
            return [s]
        return []

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                n.body[i] = self.visit(s)
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Assign(self, n):
        return self.split(n.value) + [n]

    visit_Return = visit_Assign
    visit_Expr = visit_Assign


class Rename(ast.NodeTransformer):
    """Rename the local variables (not the parameters) of every function without nested scopes."""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal))
               for s in n.body for x in ast.walk(s)):
            return n
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
            x.arg for x in (a.vararg, a.kwarg) if x}
        loc = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name)
               and isinstance(x.ctx, ast.Store)} - params
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = x.id + "_r"
        return n


class Helper(ast.NodeTransformer):
    """Extract the value of every `return X` of a method/function into a local helper function."""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        last = n.body[-1]
        if isinstance(last, ast.Return) and last.value is not None and not any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"
                for x in ast.walk(last)):
            h = ast.parse("def value_():\n    return None").body[0]
            h.body[0].value = last.value
            n.body[-1:] = [h, ast.parse("return value_()").body[0]]
        return n


class Module(ast.NodeTransformer):
    """Move the body of every plain method into a module-level function (one level of delegation)."""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = "_" + s.name + "_impl"
                a = s.args
                call = ast.Call(ast.Name(h.name, ast.Load()),
                                [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
                                + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
                                + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                s.body = [ast.Return(call)]
                out.append(h)
            out.append(s)
        n.body = out
        return n


class Zip(ast.NodeTransformer):
    """for a, b in zip(xs, ys) -> for i in range(len(xs)) is not always equal; instead: pairs = list(zip(..))"""
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("zip", "enumerate"):
            Zip.n += 1
            t = f"pairs{Zip.n}_"
            s = ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [n.iter], []))
            n.iter = ast.Name(t, ast.Load())
            return [s, n]
        return n


class While(ast.NodeTransformer):
    """for x in <list-like> -> indexed while over a list copy"""
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        While.n += 1
        k = While.n
        pre = ast.parse(f"seq{k}_ = list(None)\npos{k}_ = 0").body
        pre[0].value.args = [n.iter]
        w = ast.parse(f"while pos{k}_ < len(seq{k}_):\n    pass").body[0]
        a = ast.Assign([n.target], ast.parse(f"seq{k}_[pos{k}_]").body[0].value)
        w.body = [a, *n.body, ast.parse(f"pos{k}_ += 1").body[0]]
        return [*pre, w]


class Index(ast.NodeTransformer):
    """for x in xs -> for i in range(len(xs_)): x = xs_[i] over a list copy"""
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Index.n += 1
        k = Index.n
        pre = ast.parse(f"seq{k}_ = list(None)").body
        pre[0].value.args = [n.iter]
        w = ast.parse(f"for pos{k}_ in range(len(seq{k}_)):\n    pass").body[0]
        w.body = [ast.Assign([n.target], ast.parse(f"seq{k}_[pos{k}_]").body[0].value), *n.body]
        return [*pre, w]


class Compindex(ast.NodeTransformer):
    """x = [e for v in xs] -> xs_ = list(xs); x = [e for i in range(len(xs_)) with v = xs_[i]]"""
    n = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 \
                and isinstance(v.generators[0].target, ast.Name):
            g = v.generators[0]
            Compindex.n += 1
            xs, i, t = f"seq{Compindex.n}_", f"i{Compindex.n}_", g.target.id

            class Sub(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.parse(f"{xs}[{i}]").body[0].value if x.id == t else x
            pre = ast.parse(f"{xs} = list(None)").body[0]
            pre.value.args = [g.iter]
            new = Sub().visit(copy.deepcopy(v))
            new.generators[0].target = ast.Name(i, ast.Store())
            new.generators[0].iter = ast.parse(f"range(len({xs}))").body[0].value
            n.value = new
            return [pre, n]
        return n


class Star(ast.NodeTransformer):
    """(*a, *b) <-> tuple(a) + tuple(b);  [x, *y] -> [x] + list(y)"""
    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            e = None
            for x in n.elts:
                p = ast.Call(ast.Name("tuple", ast.Load()), [x.value], []) if isinstance(x, ast.Starred) else \
                    ast.Tuple([x], ast.Load())
                e = p if e is None else ast.BinOp(e, ast.Add(), p)
            return e
        return n

    def visit_Subscript(self, n):
        return n


class Plain(ast.NodeTransformer):
    """ast round trip only."""


class Percent(Fmt):
    """f"{a}/{b}" -> "%s/%s" % (a, b)"""
    def visit_JoinedStr(self, n):
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("%", "%%")
            elif v.conversion == -1 and v.format_spec is None:
                s += "%s"
                args.append(v.value)
            else:
                return n
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple(args, ast.Load()))


class Concat(Fmt):
    """f"{a}/{b}" -> str(a) + "/" + str(b)"""
    def visit_JoinedStr(self, n):
        e = None
        for v in n.values:
            if isinstance(v, ast.Constant):
                x = v
            elif v.conversion == -1 and v.format_spec is None:
                x = ast.Call(ast.Name("str", ast.Load()), [v.value], [])
            else:
                return n
            e = x if e is None else ast.BinOp(e, ast.Add(), x)
        return e or ast.Constant("")


class Strjoin(Fmt):
    """f"{a}/{b}" -> "".join([str(a), "/", str(b)])"""
    def visit_JoinedStr(self, n):
        xs = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                xs.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                xs.append(ast.Call(ast.Name("str", ast.Load()), [v.value], []))
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(""), "join", ast.Load()), [ast.List(xs, ast.Load())], [])


class Genlist(ast.NodeTransformer):
    """tuple(genexp) -> tuple([listcomp]); [listcomp] -> list(genexp)"""
    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return ast.ListComp(n.elt, n.generators)

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("dict", ast.Load()), [ast.GeneratorExp(
            ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])


class Mapfn(ast.NodeTransformer):
    """[e for x in xs] -> list(map(lambda x: e, xs)) (one generator, a name as target, no condition)"""
    def conv(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or not isinstance(n.generators[0].target, ast.Name):
            return n
        g = n.generators[0]
        lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
        m = ast.Call(ast.Name("map", ast.Load()), [lam, g.iter], [])
        return ast.Call(ast.Name("list", ast.Load()), [m], []) if kind == "list" else m

    def visit_Module(self, n):
        # a function called `map` in the module
        if any(isinstance(s, ast.FunctionDef) and s.name == "map" for s in n.body):
            return n
        self.generic_visit(n)
        return n

    def visit_ListComp(self, n):
        return self.conv(n, "list")

    def visit_GeneratorExp(self, n):
        return self.conv(n, "iter")


class Elseret(ast.NodeTransformer):
    """if c: ... return/raise; rest  ->  if c: ... else: rest   (and the reverse of it is Guard)"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and i + 1 < len(body):
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n


class Guard(ast.NodeTransformer):
    """if c: A (returns) else: B -> if c: A; B"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                rest = s.orelse
                s.orelse = []
                out.append(s)
                out.extend(self.fix(rest))
            else:
                out.append(s)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n


class Subst(ast.NodeTransformer):
    """inline: t = e; return t -> return e (name used once, directly after)"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and out and isinstance(out[-1], ast.Assign) \
                    and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) \
                    and out[-1].targets[0].id == s.value.id:
                s = ast.Return(out.pop().value)
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n


class Unpack(ast.NodeTransformer):
    """a, b = e -> t = e; a = t[0]; b = t[1] (only when e is a name, attribute or subscript)"""
    n = 0

    def visit_Assign(self, n):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(n.value, (ast.Name, ast.Attribute)) \
                and not any(isinstance(x, ast.Starred) for x in t.elts):
            return [ast.Assign([x], ast.Subscript(copy.deepcopy(n.value), ast.Constant(i), ast.Load()))
                    for i, x in enumerate(t.elts)]
        return n


class Typed(ast.NodeTransformer):
    """x = e -> x: object = e;  x += e -> x = x + e (for numbers and strings only the value matters)"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.AnnAssign(n.targets[0], ast.Name("object", ast.Load()), n.value, 1)
        return n

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, ast.FunctionDef):
                self.visit(s)
        return n

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(n)):
            return n
        self.generic_visit(n)
        return n

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)
        return n


KINDS = {c.__name__.lower(): c for c in (Plain, Noop, Result, Invert, Tern, Comp, Enum, Fstr, Fmt, Split, Args,
                                         Rename, Helper, Module, Zip, While, Star, Index, Compindex,
                                         Percent, Concat, Strjoin, Genlist, Mapfn, Elseret, Guard, Subst,
                                         Unpack, Typed)}


def main(name, out):
    dst = os.path.join(out, "src", "mpllayout")
    shutil.rmtree(os.path.join(out, "src"), ignore_errors=True)
    shutil.copytree("/repo/src", os.path.join(out, "src"))
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".py"):
            t = ast.parse(open(os.path.join(SRC, f)).read())
            t = ast.fix_missing_locations(KINDS[name]().visit(t))
            open(os.path.join(dst, f), "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    if len(sys.argv) == 1:
        print(*KINDS)
    else:
        main(*sys.argv[1:])
