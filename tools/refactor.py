#!/usr/bin/env python3
"""Development aid: mechanical, behaviour-preserving rewrites of the package, to see that the
checks stay quiet.  refactor.py SRC DST STYLE[,STYLE...]   (DST: a scratch copy to rewrite)"""
import ast
import os
import re
import shutil
import sys


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, stem="tmp"):
        Base.n += 1
        return f"_{stem}{Base.n}"


def N(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def is_gen(f):
    for n in walk_own(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(f):
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class ReturnVar(Base):
    """return EXPR -> result = EXPR; return result."""

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.fresh("result")
        return [ast.Assign([N(v, ast.Store())], n.value), ast.Return(N(v))]


class Invert(Base):
    """if C: A else: B -> if not C: B else: A (elif chains become nested)."""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Isinstance(Base):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B), for simple x."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 \
                and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) > 1 \
                and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(N("isinstance"), [n.args[0], c], [])
                                         for c in n.args[1].elts])
        return n


class ForWhile(Base):
    """for x in it: body -> it_ = iter(it); while True: try x = next(it_) except StopIteration."""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        v = self.fresh("it")
        return [
            ast.Assign([N(v, ast.Store())], ast.Call(N("iter"), [n.iter], [])),
            ast.While(ast.Constant(True), [
                ast.Try([ast.Assign([n.target], ast.Call(N("next"), [N(v)], []))],
                        [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], [])
            ] + n.body, [])]

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x
                  for x in n.body]
        return n


class Comprehension(Base):
    """[e for x in it if c] -> list(generator expression); {..} -> set(..); dict likewise."""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(N("list"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(N("set"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(N("dict"), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()),
                                                     n.generators)], [])


class Loops(Base):
    """x = [e for y in it if c] -> x = []; for ...: x.append(e)   (single targets only)."""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) \
                or not isinstance(n.value, ast.ListComp):
            return n
        if any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            return n
        v = self.fresh("acc")
        body = [ast.Expr(ast.Call(ast.Attribute(N(v), "append", ast.Load()), [n.value.elt], []))]
        for g in reversed(n.value.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([N(v, ast.Store())], ast.List([], ast.Load()))] + body + [
            ast.Assign(n.targets, N(v))]

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x
                  for x in n.body]
        return n


class TestVar(Base):
    """if TEST: -> cond = TEST; if cond:   (statement level, not elif)."""

    def block(self, body):
        out = []
        for x in body:
            x = self.visit(x)
            xs = x if isinstance(x, list) else [x]
            for y in xs:
                if isinstance(y, ast.If) and not isinstance(y.test, (ast.Name, ast.NamedExpr)) \
                        and not any(isinstance(z, ast.NamedExpr) for z in ast.walk(y.test)):
                    v = self.fresh("cond")
                    out.append(ast.Assign([N(v, ast.Store())], y.test))
                    y.test = N(v)
                out.append(y)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", []):
            self.generic_visit(h)
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x
                  for x in n.body]
        return n


class Unchain(Base):
    """if A and B: X (no else) -> if A: if B: X."""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class IfExp(Base):
    """x = a if c else b -> if c: x = a else: x = b;  return likewise."""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 \
                and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)],
                          [ast.Assign(n.targets, n.value.orelse)])
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.IfExp):
            return [ast.If(n.value.test, [ast.Return(n.value.body)], []),
                    ast.Return(n.value.orelse)]
        return n


class Early(Base):
    """if C: return/raise ... else: B -> if C: ...; B  (drop else after a jump)."""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            rest, n.orelse = n.orelse, []
            return [n] + rest
        return n


class Extract(Base):
    """Every method body moves to a nested helper that is called at once."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if is_gen(n) or any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("__class__",) for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"
               and not x.args for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("locals", "vars") for x in ast.walk(n)):
            return n
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body or len(body) < 2:
            return n
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        v = self.fresh("body")
        f = ast.FunctionDef(name=v, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=body, decorator_list=[], type_params=[])
        n.body = doc + [f, ast.Return(ast.Call(N(v), [N(x) for x in names], []))]
        return n


class Format(Base):
    """'..{}..'.format(a, b) -> f-string, for plain {} fields."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and not n.keywords \
                and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            parts = n.func.value.value.split("{}")
            if len(parts) == len(n.args) + 1 and not any("{" in p or "}" in p for p in parts) \
                    and not any(isinstance(a, ast.Starred) for a in n.args):
                vals = [ast.Constant(parts[0])]
                for a, p in zip(n.args, parts[1:]):
                    vals += [ast.FormattedValue(a, -1, None), ast.Constant(p)]
                return ast.JoinedStr(vals)
        return n


class Calls(Base):
    """d.get / x.append bound first: f = x.append; f(y) at statement level."""

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
                and isinstance(c.func.value, (ast.Name, ast.Attribute)):
            v = self.fresh("bound")
            return [ast.Assign([N(v, ast.Store())], c.func),
                    ast.Expr(ast.Call(N(v), c.args, c.keywords))]
        return n


class TryWrap(Base):
    """Every function body: try: ... finally: pass, plus a dead statement."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if body:
            n.body = doc + [ast.Assign([N("_unused", ast.Store())], ast.Constant(0)),
                            ast.Try(body, [], [], [ast.Pass()])]
        return n


STYLES = {"return": ReturnVar, "invert": Invert, "isinstance": Isinstance, "while": ForWhile,
          "comp": Comprehension, "loops": Loops, "test": TestVar, "unchain": Unchain,
          "ifexp": IfExp, "early": Early, "extract": Extract, "format": Format, "calls": Calls,
          "try": TryWrap}


def renames(root, tests):
    """Private attribute/function names of the package that the tests do not mention."""
    names = set()
    text = ""
    for d, _s, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".py"):
                continue
            if any(x in p for x in tests):
                text += open(p).read()
                continue
            for n in ast.walk(ast.parse(open(p).read())):
                if isinstance(n, ast.FunctionDef):
                    names.add(n.name)
    return {x for x in names if x.startswith("_") and not x.startswith("__")
            and not re.search(r"\b" + x + r"\b", text)}


PINT = {"_missing_", "_unit_class", "_formatters", "_FORMATTERS", "_REGISTRY", "_asdict", "_get_ids"}


def main(src, dst, styles):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    pkg = os.path.join(dst, "gemd")
    ren = renames(dst, ("/tests/", "/docs/")) - PINT if "rename" in styles else set()
    for d, _s, fs in os.walk(pkg):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".py") or f == "__version__.py":
                continue
            t = open(p).read()
            for x in ren:
                t = re.sub(r"\b" + x + r"\b", x + "_v", t)
            tree = ast.parse(t)
            for st in styles:
                if st in STYLES:
                    tree = STYLES[st]().visit(tree)
                    ast.fix_missing_locations(tree)
            with open(p, "w") as g:
                g.write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3].split(","))
