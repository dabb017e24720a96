"""Abstract interpreter for the Python subset used by the repository."""
import ast
import os

from .core import (
    Unsupported, Budget, PyExc, TRAIL, touch, Tup, HashVal, Atom, Ext, PD, AttrPD, Obj, ClassVal,
    MISSING, ModPD, ModuleVal, Env, FuncVal, BoundM, Native, PropVal, StaticM, ClassM, CachedFn, GenVal,
    SuperVal, Slice, JsonText, View, Decisions, Orders)

HOST = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))
MODEL_EQ = ("Path.__eq__", "Unit.__eq__")
RET, BRK, CONT = "ret", "brk", "cont"
MISSING_KEY = Ext("<no such key>")


def walk_scope(nodes):
    """Walk statements of one scope without descending into nested scopes."""
    stack = list(nodes)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            continue
        for c in ast.iter_child_nodes(n):
            stack.append(c)


def scope_info(node):
    """(locals, globals, nonlocals, has_yield) of a function-like node."""
    loc, glo, non = set(), set(), set()
    has_yield = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    comp_targets = set()
    for n in walk_scope(body):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in ast.walk(g.target):
                    comp_targets.add(id(t))
    for n in walk_scope(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if id(n) not in comp_targets:
                loc.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
    return frozenset(loc - glo - non), frozenset(glo), frozenset(non), has_yield


def contains_yield(node):
    r = getattr(node, "_has_yield", None)
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope([node]))
        node._has_yield = r
    return r


class Frame:
    __slots__ = ("module", "qual", "line", "exc", "fn")

    def __init__(self, module, qual, fn=None):
        self.module = module
        self.qual = qual
        self.line = 0
        self.exc = None
        self.fn = fn


class Interp:
    def __init__(self, repo="/repo", package="gemd", max_steps=400000, max_depth=170):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.builtins = {}
        self.natives = {}
        self.hooks = {}
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.building = True
        self.path = None
        self.stack = [Frame(None, "<harness>")]
        self.functions_seen = set()
        self.stmts_seen = set()
        self.id_map = {}
        self.extra_units = {}
        self.terms = {}
        self.class_list = []
        self.reset_path()
        from . import lib
        lib.install(self)

    # -------------------------------------------------------------- paths
    def reset_path(self, prefix=()):
        self.path = object()
        self.dec = Decisions(prefix)
        self.orders = Orders()
        self.frames = {}        # dimension -> order of magnitudes in root units
        self.memo = {}
        self.folds = []         # classes of symbolic texts that are equal up to case
        self.events = []
        self.imprecise = []
        self.steps = 0
        self.stack = [Frame(None, "<harness>")]
        self.client_calls = []
        self.id_map.pop("recording", None)
        self.id_map.pop("repr", None)

    def choose(self, label, n):
        return self.dec.choose(label, n)

    def fork(self, label, key=None):
        """Follow both outcomes of an undetermined boolean."""
        if key is not None and key in self.memo:
            return self.memo[key]
        if self.building:
            raise Unsupported(f"undetermined condition at import time: {label}")
        r = self.dec.choose(f"{label} @{self.where()}", 2) == 0
        if key is not None:
            self.memo[key] = r
        return r

    def where(self):
        for f in reversed(self.stack):
            if f.module is not None and f.module.path:
                return f"{os.path.relpath(f.module.path, self.repo)}:{f.qual}:{f.line}"
        return "<harness>"

    def last_operation(self):
        """The last operation (not a plain property read) the client applied."""
        for f in reversed(self.client_calls):
            deco = getattr(f.node, "decorator_list", ())
            if any(isinstance(d, ast.Name) and d.id == "property" for d in deco):
                continue
            if f.module is not None and f.module.path:
                return (f"{os.path.relpath(f.module.path, self.repo)}:{f.qualname}:"
                        f"{f.node.lineno}")
        return "<harness>"

    def mark(self, why):
        self.imprecise.append(f"{why} @{self.where()}")

    # -------------------------------------------------------------- errors
    def exc_class(self, name):
        return self.builtins[name]

    def raise_(self, name, msg=""):
        raise self.make_exc(name if isinstance(name, ClassVal) else self.exc_class(name), msg)

    def make_exc(self, cls, msg=""):
        o = Obj(cls)
        o.d["args"] = Tup([msg] if msg != "" else [])
        return PyExc(o, self.where())

    # -------------------------------------------------------------- modules
    def module_file(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top != self.package:
            return self.load_ext(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.module_file(name)
        if path is None:
            self.raise_("ImportError", f"No module named {name}")
        m = ModuleVal(name, path, is_pkg)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        m.ns["__doc__"] = None
        self.modules[name] = m
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            pm = self.modules[parent]
            touch(pm)
            pm.ns[leaf] = m
        env = Env(None, "module", m)
        env.vars = m.ns
        fr = Frame(m, "<module>")
        self.stack.append(fr)
        try:
            sig = self.exec_block(m.tree.body, env)
        finally:
            self.stack.pop()
        assert sig is None
        return m

    def load_ext(self, name):
        m = ModuleVal(name, ext=True)
        self.modules[name] = m
        fill = self.natives.get(name)
        if fill is not None:
            got = fill(self)
            for v in got.values():
                if isinstance(v, Native):
                    v.plain = True
            m.ns.update(got)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            pm = self.load(parent)
            pm.ns.setdefault(leaf, m)
        return m

    def pylib(self, name):
        """Namespace of a library model written in Python (gsa/pylib/NAME.py)."""
        m = self.id_map.get(("pylib", name))
        if m is None:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pylib", name + ".py")
            m = ModuleVal(name)
            with open(path, encoding="utf-8") as f:
                m.tree = ast.parse(f.read(), path)
            m.ns["__name__"] = name
            self.id_map[("pylib", name)] = m
            env = Env(None, "module", m)
            env.vars = m.ns
            self.stack.append(Frame(m, "<module>"))
            was, self.building = self.building, True
            n = len(self.class_list)
            try:
                self.exec_block(m.tree.body, env)
            finally:
                self.stack.pop()
                self.building = was
                del self.class_list[n:]
        return m.ns

    def mod_attr(self, m, name, default=MISSING):
        if name in m.ns:
            return m.ns[name]
        if name == "__dict__":
            return Obj(self.builtins["dict"], ModPD(m))
        if m.ext:
            sub = f"{m.name}.{name}"
            if sub in self.natives or sub in self.modules:
                return self.load(sub)
            v = Ext(sub)
            m.ns[name] = v
            return v
        path, _ = self.module_file(f"{m.name}.{name}")
        return default

    # -------------------------------------------------------------- scopes
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            k = e.kind
            if k == "module":
                if name in e.vars:
                    return e.vars[name]
            elif k == "class":
                if first and name in e.vars and name not in e.globals_:
                    return e.vars[name]
            else:
                if name in e.globals_:
                    e2 = e.module.ns
                    if name in e2:
                        return e2[name]
                    break
                if name in e.vars:
                    return e.vars[name]
                if name in e.locals:
                    if e is env or k == "func":
                        self.raise_("UnboundLocalError" if e is env else "NameError",
                                    f"variable '{name}' referenced before assignment")
            if k == "class" and name in e.globals_:
                break
            first = False if k != "comp" else first
            e = e.parent
        if name in env.module.ns:
            return env.module.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        if name == "__class__":
            e = env
            while e is not None:
                if e.fn is not None and e.fn.defcls is not None:
                    return e.fn.defcls
                e = e.parent
        self.raise_("NameError", f"name '{name}' is not defined")

    def store(self, env, name, v):
        e = env
        if name in e.globals_:
            touch(e.module)
            e.module.ns[name] = v
            return
        if name in e.nonlocals:
            e = e.parent
            while e is not None:
                if e.kind == "func" and (name in e.locals):
                    touch(e)
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported("nonlocal target not found")
        if e.kind == "module":
            touch(e.module)
            e.module.ns[name] = v
            e.vars = e.module.ns
            return
        touch(e)
        e.vars[name] = v

    def delete_name(self, env, name):
        if name in env.globals_ or env.kind == "module":
            touch(env.module)
            if name not in env.module.ns:
                self.raise_("NameError", name)
            del env.module.ns[name]
            return
        touch(env)
        if name not in env.vars:
            self.raise_("NameError", name)
        del env.vars[name]

    # -------------------------------------------------------------- statements
    def tick(self, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f"step budget exhausted @{self.where()}")
        self.stack[-1].line = node.lineno

    def exec_block(self, body, env):
        for s in body:
            sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def exec(self, s, env):
        self.tick(s)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def x_Pass(self, s, env):
        return None

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)
        return None

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)
        return None

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        if env.kind == "class" and isinstance(s.target, ast.Name):
            d = env.vars.get("__annotations__")
            if d is None:
                d = env.vars["__annotations__"] = self.new_dict()
            d.p.set(self, s.target.id, self.class_annotation(s.annotation, env))
        return None

    def class_annotation(self, n, env):
        if env.module.tree is not None and any(
                isinstance(x, ast.ImportFrom) and x.module == "__future__" and
                any(a.name == "annotations" for a in x.names) for x in env.module.tree.body):
            return ast.unparse(n)
        if any(isinstance(x, (ast.Name, ast.Attribute)) and
               getattr(x, "id", getattr(x, "attr", None)) == "ClassVar" for x in ast.walk(n)):
            return "ClassVar"
        try:
            return self.ev(n, env)
        except (PyExc, Unsupported):
            return Ext("annotation")

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.inplace(s.op, cur, self.ev(s.value, env))
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            name = self.mangle(t.attr, env)
            cur = self.getattr(o, name)
            v = self.inplace(s.op, cur, self.ev(s.value, env))
            self.setattr(o, name, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            v = self.inplace(s.op, cur, self.ev(s.value, env))
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")
        return None

    def x_Return(self, s, env):
        return (RET, self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        return (BRK, None)

    def x_Continue(self, s, env):
        return (CONT, None)

    def x_Global(self, s, env):
        if env.kind == "module":
            return None
        return None

    x_Nonlocal = x_Global

    def x_Delete(self, s, env):
        for t in s.targets:
            self.del_target(t, env)
        return None

    def del_target(self, t, env):
        if isinstance(t, ast.Name):
            self.delete_name(env, t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, env), self.mangle(t.attr, env))
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.del_target(x, env)
        else:
            raise Unsupported("del target")

    def x_If(self, s, env):
        return self.exec_block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            self.tick(s)
            sig = self.exec_block(s.body, env)
            if sig is not None:
                if sig[0] == BRK:
                    return None
                if sig[0] == RET:
                    return sig
        return self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        for v in self.iterate(self.ev(s.iter, env)):
            self.tick(s)
            self.assign(s.target, v, env)
            sig = self.exec_block(s.body, env)
            if sig is not None:
                if sig[0] == BRK:
                    return None
                if sig[0] == RET:
                    return sig
        return self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError", self.ev(s.msg, env) if s.msg is not None else "")
        return None

    def x_Raise(self, s, env):
        if s.exc is None:
            for f in reversed(self.stack):
                if f.exc is not None:
                    raise f.exc
            self.raise_("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc, env)
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if isinstance(v, Ext):
            v = self.ext_exception(v)
        if not isinstance(v, Obj) or not v.cls.issub(self.builtins["BaseException"]):
            self.raise_("TypeError", "exceptions must derive from BaseException")
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(c, ClassVal):
                c = self.call(c, [], {})
            touch(v)
            v.d["__cause__"] = c
            v.d["__suppress_context__"] = True
        raise PyExc(v, self.where())

    def ext_exception(self, v):
        c = self.ext_class(v.name.rstrip("()"))
        o = Obj(c)
        o.d["args"] = Tup([])
        return o

    def x_Import(self, s, env):
        for al in s.names:
            m = self.load(al.name)
            if al.asname:
                self.store(env, al.asname, m)
            else:
                self.store(env, al.name.split(".")[0], self.load(al.name.split(".")[0]))
        return None

    def x_ImportFrom(self, s, env):
        if s.level:
            base = env.module.name.split(".")
            if not env.module.is_pkg:
                base = base[:-1]
            if s.level > 1:
                base = base[: -(s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == "__future__":
            return None
        m = self.load(name)
        for al in s.names:
            if al.name == "*":
                allv = m.ns.get("__all__")
                names = [x for x in m.ns if not x.startswith("_")]
                if isinstance(allv, Obj):
                    names = list(allv.p)
                for n in names:
                    self.store(env, n, self.mod_attr(m, n))
                continue
            v = self.mod_attr(m, al.name)
            if v is MISSING:
                if self.module_file(f"{name}.{al.name}")[0]:
                    v = self.load(f"{name}.{al.name}")
                else:
                    self.raise_("ImportError", f"cannot import name {al.name} from {name}")
            self.store(env, al.asname or al.name, v)
        return None

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.store(env, self.mangle(s.name, env), f)
        return None

    def make_func(self, node, env, name):
        qual = name
        e = env
        if e.kind == "class":
            qual = f"{e.vars.get('__qualname__', '')}.{name}"
        elif e.kind != "module":
            g = e
            while g is not None and g.fn is None:
                g = g.parent
            qual = f"{g.fn.qualname}.<locals>.{name}" if g is not None else name
        f = FuncVal(node, env, name, qual, env.module)
        info = getattr(node, "_scope", None)
        if info is None:
            info = scope_info(node)
            node._scope = info
        f.scope = info
        f.is_gen = info[3]
        f.defaults = [self.ev(d, env) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env)
                        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
                        if d is not None}
        if isinstance(node, ast.FunctionDef):
            f.d["__doc__"] = ast.get_docstring(node, clean=False)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async function")
        return f

    def x_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, env)))
            else:
                bases.append(self.ev(b, env))
        kws = {}
        for k in s.keywords:
            if k.arg is None:
                kws.update(self.kwdict(self.ev(k.value, env)))
            else:
                kws[k.arg] = self.ev(k.value, env)
        cenv = Env(env, "class", env.module)
        glo = {n for x in walk_scope(s.body) if isinstance(x, ast.Global) for n in x.names}
        cenv.globals_ = frozenset(glo)
        qual = s.name
        if env.kind == "class":
            qual = f"{env.vars.get('__qualname__', '')}.{s.name}"
        cenv.vars["__module__"] = env.module.name
        cenv.vars["__qualname__"] = qual
        cenv.cls = s.name
        doc = ast.get_docstring(s, clean=False)
        if doc is not None:
            cenv.vars["__doc__"] = doc
        if getattr(s, "type_params", None):
            self.type_params(s, cenv)
        self.exec_block(s.body, cenv)
        c = self.build_class(s.name, bases, cenv.vars, kws, env.module, qual, s)
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, env), [c], {})
        self.store(env, s.name, c)
        return None

    def type_params(self, s, env):
        for t in s.type_params:
            env.vars[t.name] = Ext(f"typing.TypeVar[{t.name}]")

    def x_TypeAlias(self, s, env):
        e = env
        if getattr(s, "type_params", None):
            e = Env(env, "comp", env.module)
            self.type_params(s, e)
        try:
            v = self.ev(s.value, e)
        except PyExc:
            v = Ext("typing.TypeAliasType")
        self.store(env, s.name.id, v)
        return None

    def as_class(self, b):
        if isinstance(b, ClassVal):
            return b
        if isinstance(b, Ext):
            return self.ext_class(b.name)
        raise Unsupported(f"base class {b!r}")

    def ext_class(self, name):
        key = ("extcls", name)
        c = self.id_map.get(key)
        if c is None:
            base = self.builtins["object"]
            if name.endswith(("Error", "Exception")):
                base = self.builtins["Exception"]
            c = ClassVal(name.split(".")[-1], [base], {}, self.builtins["type"], native=True)
            c.qualname = name
            self.id_map[key] = c
        return c

    def build_class(self, name, bases, ns, kws, module, qual=None, node=None):
        bases = [self.as_class(b) for b in bases] or [self.builtins["object"]]
        meta = kws.pop("metaclass", None)
        cand = [b.meta for b in bases if b.meta is not None]
        for c in cand:
            if meta is None or (isinstance(meta, ClassVal) and c.issub(meta)):
                meta = c
        if meta is None:
            meta = self.builtins["type"]
        self._pending = (module, qual or name, node)
        nsobj = self.new_dict()
        for k, v in ns.items():
            nsobj.p.e.append([("c", k), k, v])
        return self.call(meta, [name, Tup(bases), nsobj], kws)

    def type_new(self, mcs, name, bases, nsobj, kws):
        """type.__new__"""
        module, qual, node = self._pending if self._pending else (None, name, None)
        self._pending = None
        ns = {k: v for k, v in nsobj.p.items()}
        c = ClassVal(name, list(bases), ns, mcs, module)
        c.qualname = qual
        c.node = node
        self.class_list.append(c)
        for b in c.bases:
            if not b.native:
                touch(b)
            b.subs.append(c)
        for v in ns.values():
            self.own(v, c)
        ns.setdefault("__doc__", None)
        for n in ("__init_subclass__", "__class_getitem__"):
            if isinstance(ns.get(n), FuncVal):
                ns[n] = ClassM(ns[n])
        if "__slots__" in ns:
            sl = ns["__slots__"]
            own = {sl} if isinstance(sl, str) else {x for x in self.iterate(sl)}
            rest = [b for b in c.bases if b is not self.builtins["object"]]
            if all(isinstance(x, str) for x in own) and "__dict__" not in own and \
                    all(b.slots is not None for b in rest):
                c.slots = frozenset(own).union(*[b.slots for b in rest])
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        for k, v in list(ns.items()):
            if isinstance(v, Obj):
                sn = v.cls.lookup("__set_name__")
                if sn is not MISSING:
                    self.call(sn, [v, c, k], {})
        if any(b.enum is not None for b in c.mro[1:]):
            from . import lib
            lib.build_enum(self, c)
        isub = MISSING
        for b in c.mro[1:]:
            if "__init_subclass__" in b.ns:
                isub = b.ns["__init_subclass__"]
                break
        if isub is not MISSING and not isinstance(isub, Native):
            f = isub.f if isinstance(isub, ClassM) else isub
            self.call(f, [c], kws)
        # abstract methods
        ab = set()
        for b in c.bases:
            ab |= set(b.abstract)
        ab |= {k for k, v in ns.items() if self.is_abstract(v)}
        c.abstract = frozenset(k for k in ab if self.is_abstract(c.lookup(k)))
        need = {n for b in c.mro[1:] for n in b.needs}
        c.abstract |= frozenset(n for n in need if all(n not in b.ns for b in c.mro
                                                       if b.name != "object"))
        return c

    def is_abstract(self, v):
        if isinstance(v, FuncVal):
            return v.d.get("__isabstractmethod__") is True
        if isinstance(v, (StaticM, ClassM)):
            return self.is_abstract(v.f)
        if isinstance(v, PropVal):
            return any(self.is_abstract(x) for x in (v.fget, v.fset, v.fdel) if x is not None)
        return False

    def own(self, v, c):
        if isinstance(v, FuncVal):
            if v.defcls is None and v.env.kind == "class":
                v.defcls = c
        elif isinstance(v, (StaticM, ClassM)):
            self.own(v.f, c)
        elif isinstance(v, CachedFn):
            self.own(v.f, c)
        elif isinstance(v, PropVal):
            for x in (v.fget, v.fset, v.fdel):
                if x is not None:
                    self.own(x, c)
        elif isinstance(v, BoundM):
            self.own(v.func, c)

    def handler_match(self, h, exc, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        return self.exc_match(exc, t)

    def exc_match(self, exc, t):
        if isinstance(t, Tup):
            return any(self.exc_match(exc, x) for x in t.items)
        return exc.value.cls.issub(self.as_class(t))

    def x_Try(self, s, env):
        sig = None
        try:
            try:
                sig = self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if self.handler_match(h, e, env):
                        sig = self.run_handler(h, e, env)
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.exec_block(s.orelse, env)
        except (Unsupported, Budget):
            raise
        except PyExc:
            if s.finalbody:
                fs = self.exec_block(s.finalbody, env)
                if fs is not None:
                    return fs
            raise
        if s.finalbody:
            fs = self.exec_block(s.finalbody, env)
            if fs is not None:
                return fs
        return sig

    def run_handler(self, h, e, env):
        fr = self.stack[-1]
        prev, fr.exc = fr.exc, e
        if h.name:
            self.store(env, h.name, e.value)
        try:
            return self.exec_block(h.body, env)
        except PyExc as e2:
            self.in_context(e2, e)
            raise
        finally:
            fr.exc = prev
            if h.name and h.name in env.vars:
                touch(env)
                env.vars.pop(h.name, None)

    def in_context(self, new, old):
        if new.value is not old.value and "__context__" not in new.value.d:
            touch(new.value)
            new.value.d["__context__"] = old.value

    def x_With(self, s, env):
        return self._with(s.items, s.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        mgr = self.ev(it.context_expr, env)
        v = self.cm_enter(mgr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            sig = self._with(items[1:], body, env)
        except PyExc as e:
            if self.truth(self.cm_exit(mgr, e)):
                return None
            raise
        self.cm_exit(mgr, None)
        return sig

    def cm_enter(self, mgr):
        if isinstance(mgr, Ext):
            return Ext(f"{mgr.name}.__enter__()")
        return self.call(self.type_method(mgr, "__enter__"), [], {})

    def cm_exit(self, mgr, e):
        if isinstance(mgr, Ext):
            return False
        ex = self.type_method(mgr, "__exit__")
        if e is None:
            self.call(ex, [None, None, None], {})
            return False
        if isinstance(ex, BoundM) and isinstance(ex.func, Native):
            return ex.func.fn(self, [ex.self, e.value.cls, e.value, e], {})
        return self.call(ex, [e.value.cls, e.value, None], {})

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and \
                    (c.guard is None or self.truth(self.ev(c.guard, env))):
                return self.exec_block(c.body, env)
        return None

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(env, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            cl = self.ev(p.cls, env)
            if not self.isinstance(v, cl):
                return False
            names = list(p.kwd_attrs)
            pats = list(p.kwd_patterns)
            if p.patterns:
                if isinstance(cl, ClassVal) and cl.name in (
                        "bool", "bytearray", "bytes", "dict", "float", "frozenset", "int", "list",
                        "set", "str", "tuple") and cl.lookup("__match_args__") is MISSING:
                    if len(p.patterns) > 1:
                        self.raise_("TypeError", f"{cl.name}() accepts 1 positional sub-pattern")
                    if not self.match(p.patterns[0], v, env):
                        return False
                else:
                    ma = self.getattr(cl, "__match_args__", Tup())
                    ma = list(self.iterate(ma))
                    if len(ma) < len(p.patterns):
                        self.raise_("TypeError", f"{cl.name}() accepts {len(ma)} positional "
                                                 f"sub-patterns")
                    names = ma[:len(p.patterns)] + names
                    pats = list(p.patterns) + pats
            for a, q in zip(names, pats):
                try:
                    x = self.getattr(v, a)
                except PyExc as e:
                    if not e.value.cls.issub(self.builtins["AttributeError"]):
                        raise
                    return False
                if not self.match(q, x, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            from .libmods import abc_classes
            t = self.type_of(v)
            if t.issub(self.builtins["str"]) or t.issub(self.builtins["bytes"]) or not \
                    t.issub(abc_classes(self)["Sequence"]):
                return False
            xs = list(self.iterate(v))
            star = next((i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)),
                        None)
            if star is None:
                return len(xs) == len(p.patterns) and all(
                    self.match(q, x, env) for q, x in zip(p.patterns, xs))
            after = len(p.patterns) - star - 1
            if len(xs) < star + after:
                return False
            if not all(self.match(q, x, env) for q, x in zip(p.patterns[:star], xs)):
                return False
            if p.patterns[star].name:
                self.store(env, p.patterns[star].name, self.new_list(xs[star:len(xs) - after]))
            return all(self.match(q, x, env) for q, x in
                       zip(p.patterns[star + 1:], xs[len(xs) - after:]))
        if isinstance(p, ast.MatchMapping):
            from .libmods import abc_classes
            if not self.type_of(v).issub(abc_classes(self)["Mapping"]):
                return False
            used = []
            for kn, q in zip(p.keys, p.patterns):
                kv = self.ev(kn, env)
                used.append(kv)
                x = self.call(self.getattr(v, "get"), [kv, MISSING_KEY], {})
                if x is MISSING_KEY or not self.match(q, x, env):
                    return False
            if p.rest:
                self.store(env, p.rest, self.new_dict(
                    [(a, b) for a, b in self.mapping_items(v)
                     if not any(self.truth(self.eq(a, u)) for u in used)]))
            return True
        raise Unsupported("match pattern")

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.iterate(v))
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                if len(xs) != len(t.elts):
                    self.raise_("ValueError", "wrong number of values to unpack")
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, env)
            else:
                after = len(t.elts) - star - 1
                if len(xs) < star + after:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:star], xs[:star]):
                    self.assign(e, x, env)
                self.assign(t.elts[star].value, self.new_list(xs[star:len(xs) - after]), env)
                for e, x in zip(t.elts[star + 1:], xs[len(xs) - after:]):
                    self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            e = env
            while e is not None:
                if e.kind == "class":
                    return f"_{e.cls.lstrip('_')}{name}"
                e = e.parent
        return name

    # -------------------------------------------------------------- expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(env, self.mangle(n.id, env) if n.id.startswith("__") and False else n.id)

    def e_Tuple(self, n, env):
        return Tup(self.ev_list(n.elts, env))

    def e_List(self, n, env):
        return self.new_list(self.ev_list(n.elts, env))

    def e_Set(self, n, env):
        return self.new_set(self.ev_list(n.elts, env))

    def ev_list(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in self.mapping_items(self.ev(v, env)):
                    d.p.set(self, a, b)
            else:
                kk = self.ev(k, env)
                d.p.set(self, kk, self.ev(v, env))
        return d

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        return self.getattr(o, self.mangle(n.attr, env))

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return Slice(*(None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)))

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.lookup(env, "super")
            if f is self.builtins["super"]:
                return self.zero_super(env)
        f = self.ev(n.func, env)
        args = self.ev_list(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for a, b in self.kwdict(self.ev(k.value, env)).items():
                    if a in kw:
                        self.raise_("TypeError", f"multiple values for keyword {a}")
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, env)
        if f is self.builtins.get("locals") or f is self.builtins.get("vars") and not args:
            d = self.new_dict()
            for k, v in env.vars.items():
                d.p.set(self, k, v)
            return d
        if f is self.builtins.get("globals"):
            return Obj(self.builtins["dict"], ModPD(env.module))
        return self.call(f, args, kw)

    def kwdict(self, v):
        out = {}
        for a, b in self.mapping_items(v):
            if isinstance(a, Obj) and isinstance(a.p, str):
                a = a.p
            if not isinstance(a, (str, Atom)):
                self.raise_("TypeError", "keywords must be strings")
            if isinstance(a, Atom) and a.cls is not self.builtins["str"]:
                self.raise_("TypeError", "keywords must be strings")
            out[a] = b
        return out

    def zero_super(self, env):
        e = env
        while e is not None and e.fn is None:
            e = e.parent
        if e is None:
            raise Unsupported("super() outside function")
        f = e.fn
        g = e
        while f.defcls is None:
            g = g.parent
            while g is not None and g.fn is None:
                g = g.parent
            if g is None:
                raise Unsupported("super(): no __class__")
            f = g.fn
        return SuperVal(f.defcls, e.first)

    def e_Lambda(self, n, env):
        f = self.make_func(n, env, "<lambda>")
        f.is_lambda = True
        return f

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(n.op, ast.And):
                if not t:
                    return self.settle(v, False)
            elif t:
                return self.settle(v, True)
        return v

    def settle(self, v, t):
        if isinstance(v, Atom) and v.cls is self.builtins["bool"]:
            return t
        return v

    def e_UnaryOp(self, n, env):
        return self.unary(n.op, self.ev(n.operand, env))

    def unary(self, op, v):
        if isinstance(op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Obj):
            m = v.cls.lookup({ast.USub: "__neg__", ast.UAdd: "__pos__",
                              ast.Invert: "__invert__"}[type(op)])
            if isinstance(m, FuncVal):
                return self.call(self.bind(m, v, v.cls), [], {})
            if isinstance(v.p, (int, float)):
                v = v.p
        if isinstance(v, (int, float)):
            if isinstance(op, ast.Invert) and isinstance(v, float):
                self.raise_("TypeError", "bad operand type for unary ~: 'float'")
            return -v if isinstance(op, ast.USub) else +v if isinstance(op, ast.UAdd) else ~v
        if isinstance(v, Atom) and (self.numeric(v) is not None or
                                    v.cls is self.builtins["bool"]):
            if v.cls is self.builtins["bool"]:
                return self.unary(op, self.truth(v))
            return self.term(type(op).__name__, v.cls, v)
        if isinstance(v, Ext):
            return Ext(f"-{v.name}")
        self.raise_("TypeError", f"bad operand type for unary operator: "
                                 f"'{self.type_of(v).name}'")

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            res = self.compare(op, left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return False
            left = right
        return res

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.store(e, n.target.id, v)
        return v

    def e_JoinedStr(self, n, env):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                parts.append(self.formatted(x, v, env))
        return self.concat(parts)

    def formatted(self, x, v, env):
        from .lib import do_repr
        if x.conversion in (114, 97):
            v = do_repr(self, v)
        elif x.conversion == 115:
            v = self.to_str(v)
        spec = ""
        if x.format_spec is not None:
            spec = self.ev(x.format_spec, env)
        return self.format_value(v, spec)

    def format_value(self, v, spec=""):
        if isinstance(v, Obj):
            m = v.cls.lookup("__format__")
            if isinstance(m, FuncVal) or isinstance(m, Native) and m.name == "Unit.__format__":
                return self.call(self.bind(m, v, v.cls), [spec], {})
        if spec == "" or spec is None:
            return self.to_str(v)
        if isinstance(v, Obj) and isinstance(v.p, (int, float)):
            v = v.p
        elif isinstance(v, Obj) and isinstance(v.p, str) and v.cls.enum is None:
            v = v.p
        elif isinstance(v, Obj) and v.p is None and v.cls.enum is None and isinstance(spec, str):
            self.raise_("TypeError", f"unsupported format string passed to {v.cls.name}"
                                     f".__format__")
        if isinstance(v, (str, int, float)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError:
                self.raise_("ValueError", "Invalid format specifier")
        return self.term("format", self.builtins["str"], v, spec)

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return self.term("concat", self.builtins["str"], *out)

    def percent(self, text, arg):
        """The text of `text % arg` for a literal template."""
        import re
        from .lib import do_repr
        args = list(arg.items) if isinstance(arg, Tup) else [arg]
        mapped = self.is_mapping(arg)
        parts, pos, used = [], 0, 0

        def nxt():
            nonlocal used
            if used >= len(args):
                self.raise_("TypeError", "not enough arguments for format string")
            used += 1
            return args[used - 1]
        for m in re.finditer(r"%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.?)", text,
                             re.S):
            parts.append(text[pos:m.start()])
            pos = m.end()
            name, flags, width, prec, conv = m.groups()
            if conv == "%":
                parts.append("%")
                continue
            if conv not in "diouxXeEfFgGcrsa" or not conv:
                self.raise_("ValueError", "unsupported format character")
            if width == "*":
                width = str(nxt())
            if prec == "*":
                prec = str(nxt())
            if name is not None:
                if not mapped:
                    self.raise_("TypeError", "format requires a mapping")
                v = self.getitem(arg, name)
                used = len(args)
            else:
                v = nxt()
            rest = flags + (width or "") + (f".{prec}" if prec is not None else "")
            if conv in "sra":
                v = self.strval(self.to_str(v) if conv == "s" else do_repr(self, v))
                if rest and isinstance(v, str):
                    v = ("%" + rest + "s") % v
                elif rest:
                    v = self.term("format", self.builtins["str"], v, rest)
                parts.append(v)
                continue
            if isinstance(v, Obj) and isinstance(v.p, (int, float)):
                v = v.p
            if isinstance(v, (int, float, str)):
                try:
                    parts.append(("%" + rest + conv) % v)
                except TypeError as e:
                    self.raise_("TypeError", str(e))
                except ValueError as e:
                    self.raise_("ValueError", str(e))
            elif self.numeric(v) is not None:
                parts.append(self.term("format", self.builtins["str"], v, rest + conv))
            else:
                self.raise_("TypeError", f"%{conv} format: a real number is required, not "
                                         f"{self.type_of(v).name}")
        parts.append(text[pos:])
        if used < len(args) and not mapped:
            self.raise_("TypeError", "not all arguments converted during string formatting")
        return self.concat(parts)

    def e_FormattedValue(self, n, env):
        return self.formatted(n, self.ev(n.value, env), env)

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_ListComp(self, n, env):
        return self.new_list(list(self.comp(n.elt, n.generators, env)))

    def e_SetComp(self, n, env):
        return self.new_set(list(self.comp(n.elt, n.generators, env)))

    def e_GeneratorExp(self, n, env):
        first = self.ev(n.generators[0].iter, env)
        it = self.iterate(first)
        return GenVal(self.comp(n.elt, n.generators, env, it), "generator expression")

    def e_DictComp(self, n, env):
        d = self.new_dict()
        for k, v in self.comp((n.key, n.value), n.generators, env):
            d.p.set(self, k, v)
        return d

    def comp(self, elt, gens, env, first=None):
        cenv = Env(env, "comp", env.module)
        yield from self._comp(elt, gens, 0, cenv, env, first)

    def _comp(self, elt, gens, i, cenv, env, first=None):
        if i == len(gens):
            if isinstance(elt, tuple):
                yield (self.ev(elt[0], cenv), self.ev(elt[1], cenv))
            else:
                yield self.ev(elt, cenv)
            return
        g = gens[i]
        if first is None:
            src = self.iterate(self.ev(g.iter, env if i == 0 else cenv))
        else:
            src = first
        for v in src:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted")
            self.assign(g.target, v, cenv)
            if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                yield from self._comp(elt, gens, i + 1, cenv, env)

    def e_Yield(self, n, env):
        raise Unsupported("yield in an expression position")

    # -------------------------------------------------------------- generators
    def gexec_block(self, body, env):
        for s in body:
            if contains_yield(s):
                self.tick(s)
                sig = yield from self.gexec(s, env)
            else:
                sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def g_yield(self, n, env):
        if isinstance(n, ast.Yield):
            v = self.ev(n.value, env) if n.value is not None else None
            r = yield v
            return r
        src = self.ev(n.value, env)
        if isinstance(src, GenVal):
            r = yield from src.it
            return r
        for v in self.iterate(src):
            yield v
        return None

    def gexec(self, s, env):
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            yield from self.g_yield(s.value, env)
            return None
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.g_yield(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.g_yield(s.value, env)
            return (RET, v)
        if isinstance(s, ast.If):
            t = yield from self.gev(s.test, env)
            b = s.body if self.truth(t) else s.orelse
            return (yield from self.gexec_block(b, env))
        if isinstance(s, ast.While) and contains_yield(s.test):
            while True:
                t = yield from self.gev(s.test, env)
                if not self.truth(t):
                    return (yield from self.gexec_block(s.orelse, env))
                self.tick(s)
                sig = yield from self.gexec_block(s.body, env)
                if sig is not None:
                    if sig[0] == BRK:
                        return None
                    if sig[0] == RET:
                        return sig
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                v = yield from self.gev(s.iter, env)
                src = self.iterate(v)
            else:
                def cond():
                    while self.truth(self.ev(s.test, env)):
                        yield None
                src = cond()
            for v in src:
                self.tick(s)
                if isinstance(s, ast.For):
                    self.assign(s.target, v, env)
                sig = yield from self.gexec_block(s.body, env)
                if sig is not None:
                    if sig[0] == BRK:
                        return None
                    if sig[0] == RET:
                        return sig
            return (yield from self.gexec_block(s.orelse, env))
        if isinstance(s, ast.With):
            return (yield from self._gwith(s.items, s.body, env))
        if isinstance(s, ast.Try):
            sig, path = None, self.path
            try:
                try:
                    sig = yield from self.gexec_block(s.body, env)
                except PyExc as e:
                    for h in s.handlers:
                        if self.handler_match(h, e, env):
                            fr = self.stack[-1]
                            prev, fr.exc = fr.exc, e
                            if h.name:
                                self.store(env, h.name, e.value)
                            try:
                                sig = yield from self.gexec_block(h.body, env)
                            except PyExc as e2:
                                self.in_context(e2, e)
                                raise
                            finally:
                                fr.exc = prev
                                if h.name and h.name in env.vars:
                                    touch(env)
                                    env.vars.pop(h.name, None)
                            break
                    else:
                        raise
                else:
                    if sig is None:
                        sig = yield from self.gexec_block(s.orelse, env)
            except PyExc:
                if s.finalbody:
                    fs = yield from self.gexec_block(s.finalbody, env)
                    if fs is not None:
                        return fs
                raise
            except GeneratorExit:
                if s.finalbody and not self.building and self.path is path:
                    self.exec_block(s.finalbody, env)
                raise
            if s.finalbody:
                fs = yield from self.gexec_block(s.finalbody, env)
                if fs is not None:
                    return fs
            return sig
        if isinstance(s, ast.Match):
            v = yield from self.gev(s.subject, env)
            for c in s.cases:
                if self.match(c.pattern, v, env) and \
                        (c.guard is None or self.truth(self.ev(c.guard, env))):
                    return (yield from self.gexec_block(c.body, env))
            return None
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return,
                          ast.Raise, ast.Assert, ast.Delete)):
            s2, names = yield from self.hoist(s, env)
            sig = self.exec(s2, env)
            for n in names:
                env.vars.pop(n, None)
            return sig
        raise Unsupported("yield inside an unmodelled statement")

    def gev(self, n, env):
        """Evaluate an expression that contains a yield."""
        if not contains_yield(n):
            return self.ev(n, env)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            if n.value is not None and contains_yield(n.value):
                v = yield from self.gev(n.value, env)
                env.vars["#y"] = v
                n = type(n)(value=ast.copy_location(ast.Name("#y", ast.Load()), n))
            return (yield from self.g_yield(n, env))
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = yield from self.gev(x, env)
                t = self.truth(v)
                if t != isinstance(n.op, ast.And):
                    return self.settle(v, t)
            return v
        if isinstance(n, ast.IfExp):
            t = yield from self.gev(n.test, env)
            return (yield from self.gev(n.body if self.truth(t) else n.orelse, env))
        n2, names = yield from self.hoist(n, env)
        v = self.ev(n2, env)
        for x in names:
            env.vars.pop(x, None)
        return v

    def hoist(self, n, env):
        """Copy of a node whose subexpressions have been evaluated, in order, to temporaries."""
        import copy
        n = copy.copy(n)
        for a in ("_has_yield", "_scope"):
            if hasattr(n, a):
                delattr(n, a)
        names = []

        def sub(x):
            if isinstance(x, ast.expr) and isinstance(getattr(x, "ctx", None),
                                                      (ast.Store, ast.Del)):
                return x
            if isinstance(x, (ast.Starred, ast.keyword, ast.FormattedValue, ast.Slice)) and \
                    contains_yield(x):
                y, more = yield from self.hoist(x, env)
                names.extend(more)
                return y
            if isinstance(x, ast.Constant) or not isinstance(x, ast.expr) or \
                    isinstance(x, (ast.Starred, ast.FormattedValue)):
                return x
            v = yield from self.gev(x, env)
            self.temps = getattr(self, "temps", 0) + 1
            nm = f"#y{self.temps}"
            env.vars[nm] = v
            names.append(nm)
            return ast.copy_location(ast.Name(nm, ast.Load()), x)
        fields = list(n._fields)
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            fields = ["value"]
        for f in fields:
            v = getattr(n, f, None)
            if isinstance(v, list):
                out = []
                for x in v:
                    out.append((yield from sub(x)))
                setattr(n, f, out)
            elif isinstance(v, ast.AST):
                setattr(n, f, (yield from sub(v)))
        return n, names

    def _gwith(self, items, body, env):
        if not items:
            return (yield from self.gexec_block(body, env))
        it = items[0]
        mgr = yield from self.gev(it.context_expr, env)
        v = self.cm_enter(mgr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        path = self.path
        try:
            sig = yield from self._gwith(items[1:], body, env)
        except GeneratorExit:
            if not self.building and self.path is path:
                self.cm_exit(mgr, self.make_exc(self.builtins["GeneratorExit"]))
            raise
        except PyExc as e:
            if self.truth(self.cm_exit(mgr, e)):
                return None
            raise
        self.cm_exit(mgr, None)
        return sig

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, CachedFn):
            return self.call_cached(f, args, kw)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is MISSING:
                self.raise_("TypeError", f"'{f.cls.name}' object is not callable")
            return self.call(self.bind(m, f, f.cls), args, kw)
        if isinstance(f, Ext):
            self.events.append(("ext", f.name, tuple(args), self.where()))
            return Ext(f"{f.name}()")
        if isinstance(f, Atom):
            fn = f.flags.get("call")
            if fn is not None:
                return fn(self, args, kw)
            self.raise_("TypeError", f"'{f.cls.name}' object is not callable")
        self.raise_("TypeError", "object is not callable")

    def call_cached(self, f, args, kw):
        parts = list(args)
        for k, v in kw.items():
            parts += [Tup([k, v])]
        if f.typed:
            parts += [self.type_of(x) for x in list(args) + list(kw.values())]
        key = Tup(parts) if len(parts) != 1 or kw else parts[0]
        hit = f.store.find(self, key)
        if hit is not None:
            return hit[2]
        r = self.call(f.f, args, kw)
        touch(f)
        f.store.set(self, key, r)
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.raise_("TypeError", f"{f.qualname}() takes {n} positional arguments but "
                                     f"{len(args)} were given")
        for name, v in zip(pos, args):
            vals[name] = v
        extra = list(args[n:])
        kwextra = {}
        konly = [x.arg for x in a.kwonlyargs]
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if isinstance(k, str) and ((k in pos and k not in ponly) or k in konly):
                if k in vals:
                    self.raise_("TypeError", f"{f.qualname}() got multiple values for "
                                             f"argument '{k}'")
                vals[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            else:
                self.raise_("TypeError", f"{f.qualname}() got an unexpected keyword "
                                         f"argument '{k}'")
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in vals:
                j = i - (n - nd)
                if j < 0:
                    self.raise_("TypeError", f"{f.qualname}() missing required argument: "
                                             f"'{name}'")
                vals[name] = f.defaults[j]
        for name in konly:
            if name not in vals:
                if name not in f.kwdefaults:
                    self.raise_("TypeError", f"{f.qualname}() missing required keyword-only "
                                             f"argument: '{name}'")
                vals[name] = f.kwdefaults[name]
        if a.vararg is not None:
            vals[a.vararg.arg] = Tup(extra)
        if a.kwarg is not None:
            d = self.new_dict()
            for k, v in kwextra.items():
                d.p.set(self, k, v)
            vals[a.kwarg.arg] = d
        first = vals[pos[0]] if pos else (extra[0] if extra else MISSING)
        return vals, first

    def call_func(self, f, args, kw):
        h = self.hooks.get(f.full) if self.hooks else None
        if h is not None:
            r = h(self, f, list(args), kw)
            if r is not MISSING:
                return r
        if f.d and "__deprecated__" in f.d:
            self.events.append(("warn", f"{f.name} is deprecated", "DeprecationWarning",
                                self.where()))
        vals, first = self.bind_args(f, args, kw)
        env = Env(f.env, "func", f.module, f.scope[0], f.scope[1], f.scope[2])
        env.vars = vals
        env.fn = f
        env.first = first
        if getattr(f.node, "type_params", None):
            tenv = Env(f.env, "func", f.module)
            self.type_params(f.node, tenv)
            env.parent = tenv
        if not self.building and f.module.path is not None:
            self.functions_seen.add(f.full)
            if len(self.stack) == 1:
                self.client_calls.append(f)
        if f.is_lambda and f.is_gen:
            return GenVal(self.run_gen(f, env), "generator <lambda>")
        if f.is_lambda:
            fr = Frame(f.module, f.qualname, f)
            fr.line = f.node.lineno
            self.push(fr)
            try:
                return self.ev(f.node.body, env)
            finally:
                self.stack.pop()
        if f.is_gen:
            return GenVal(self.run_gen(f, env), f"generator {f.qualname}")
        fr = Frame(f.module, f.qualname, f)
        fr.line = f.node.lineno
        self.push(fr)
        try:
            sig = self.exec_block(f.node.body, env)
        finally:
            self.stack.pop()
        return sig[1] if sig is not None else None

    def push(self, fr):
        if len(self.stack) > self.max_depth:
            self.raise_("RecursionError", "maximum recursion depth exceeded")
        self.stack.append(fr)

    def run_gen(self, f, env):
        body = f.node.body
        if f.is_lambda:
            body = [ast.copy_location(ast.Return(f.node.body), f.node.body)]
        g = self.gexec_block(body, env)
        send = None
        exc = None
        fr = Frame(f.module, f.qualname, f)
        fr.line = f.node.lineno
        while True:
            self.push(fr)
            try:
                try:
                    if exc is not None:
                        e, exc = exc, None
                        v = g.throw(e)
                    else:
                        v = g.send(send)
                except StopIteration as st:
                    return st.value[1] if st.value is not None else None
                except PyExc as e3:
                    if e3.value.cls.issub(self.builtins["StopIteration"]):
                        new = self.make_exc(self.builtins["RuntimeError"],
                                            "generator raised StopIteration")
                        new.value.d["__cause__"] = e3.value
                        raise new
                    raise
            finally:
                self.stack.pop()
            try:
                send = yield v
            except PyExc as e2:
                exc = e2

    # -------------------------------------------------------------- attribute access
    def type_of(self, v):
        b = self.builtins
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Atom):
            return v.cls
        if v is None:
            return b["NoneType"]
        if isinstance(v, bool):
            return b["bool"]
        if isinstance(v, int):
            return b["int"]
        if isinstance(v, float):
            return b["float"]
        if isinstance(v, str):
            return b["str"]
        if isinstance(v, complex):
            return b["complex"]
        if isinstance(v, JsonText):
            return b["str"]
        if isinstance(v, bytes):
            return b["bytes"]
        if isinstance(v, Tup):
            return b["tuple"]
        if isinstance(v, ClassVal):
            return v.meta or b["type"]
        if isinstance(v, (FuncVal, CachedFn, Native)):
            return b["function"]
        if isinstance(v, BoundM):
            return b["method"]
        if isinstance(v, GenVal):
            return b["generator"]
        if isinstance(v, PropVal):
            return b["property"]
        if isinstance(v, View):
            return b["dict_" + v.kind]
        if isinstance(v, ModuleVal):
            return b["module"]
        if isinstance(v, Ext):
            return self.ext_class("type:" + v.name)
        if isinstance(v, HashVal):
            return b["int"]
        if isinstance(v, Slice):
            return b["slice"]
        if isinstance(v, StaticM):
            return b["staticmethod"]
        if isinstance(v, ClassM):
            return b["classmethod"]
        if v is Ellipsis or v is NotImplemented:
            return b["object"]
        if isinstance(v, SuperVal):
            return b["super"]
        raise Unsupported(f"type of {v!r}")

    def bind(self, v, obj, cls):
        """Descriptor __get__ for functions and friends."""
        if isinstance(v, (FuncVal, CachedFn, Native)):
            if obj is None or isinstance(v, Native) and v.plain:
                return v
            return BoundM(obj, v)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return BoundM(cls, v.f)
        if isinstance(v, PropVal):
            if obj is None:
                return v
            if v.cached is not None:
                val = self.call(v.fget, [obj], {})
                touch(obj)
                obj.d[v.cached] = val
                return val
            if v.fget is None:
                self.raise_("AttributeError", "unreadable attribute")
            return self.call(v.fget, [obj], {})
        if isinstance(v, Obj):
            g = v.cls.lookup("__get__")
            if g is not MISSING:
                return self.call(g, [v, obj, cls], {})
        return v

    def getattr(self, o, name, default=MISSING):
        try:
            r = self._getattr(o, name)
        except PyExc as e:
            if default is not MISSING and e.value.cls.issub(self.builtins["AttributeError"]):
                return default
            raise
        if r is MISSING:
            self.unmodelled(o, name)
            if default is not MISSING:
                return default
            self.raise_("AttributeError",
                        f"'{self.type_of(o).name}' object has no attribute '{name}'")
        return r

    COMPLETE = ("ABC", "ABCMeta", "Generic", "Protocol", "Enum", "EnumMeta", "EnumType", "object")

    def unmodelled(self, o, name):
        """Give up (rather than claim AttributeError) on library attributes not modelled."""
        import builtins as hb
        for c in list(self.type_of(o).mro) + (o.mro if isinstance(o, ClassVal) else []):
            if not c.native or c.name == "object" and name not in dir(object):
                continue
            h = getattr(hb, c.name, None) or {
                "function": type(hb.print), "method": type(lambda: 0), "NoneType": type(None),
                "generator": type(x for x in ()), "dict_keys": type({}.keys()),
                "dict_values": type({}.values()), "dict_items": type({}.items()),
                "module": type(ast), "Mapping": dict, "MutableMapping": dict,
                "Sequence": list, "MutableSequence": list, "Set": set, "Iterable": list,
                "Collection": list, "Hashable": object, "Sized": list, "Callable": object,
            }.get(c.name)
            if isinstance(h, type):
                if hasattr(h, name):
                    raise Unsupported(f"attribute {c.name}.{name} is not modelled")
            elif c.name not in self.COMPLETE:
                raise Unsupported(f"attribute {c.name}.{name} is not modelled")

    def _getattr(self, o, name):
        if isinstance(name, Atom) or not isinstance(name, str):
            if isinstance(name, Obj) and isinstance(name.p, str):
                name = name.p
            elif isinstance(name, Atom):
                return MISSING
            else:
                self.raise_("TypeError", "attribute name must be string")
        if isinstance(o, Obj):
            cls = o.cls
            ga = cls.lookup("__getattribute__")
            if isinstance(ga, FuncVal):
                return self.call(ga, [o, name], {})
            return self.obj_getattr(o, name)
        if isinstance(o, SuperVal):
            return self.super_getattr(o, name)
        if isinstance(o, ClassVal):
            return self.class_getattr(o, name)
        if isinstance(o, ModuleVal):
            return self.mod_attr(o, name)
        if isinstance(o, Ext):
            if name in o.d:
                return o.d[name]
            if name == "__class__":
                return self.type_of(o)
            v = Ext(f"{o.name}.{name}")
            o.d[name] = v
            return v
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, (FuncVal, CachedFn, Native)):
            return self.func_getattr(o, name)
        if isinstance(o, PropVal):
            if name in ("fget", "fset", "fdel"):
                return getattr(o, name)
            if name in ("setter", "getter", "deleter"):
                def mk(I, a, k, o=o, name=name):
                    return PropVal(a[0] if name == "getter" else o.fget,
                                   a[0] if name == "setter" else o.fset,
                                   a[0] if name == "deleter" else o.fdel)
                return Native("property." + name, mk)
            if name == "__doc__":
                return o.doc if getattr(o, "doc", None) is not None else (
                    None if o.fget is None else self.getattr(o.fget, "__doc__", None))
            if name == "__get__":
                return Native("property.__get__", lambda I, a, k: I.bind(o, a[0], None))
            if name == "__set__":
                return Native("property.__set__", lambda I, a, k: I.call(o.fset, [a[0], a[1]], {}))
            if name == "__isabstractmethod__":
                return self.is_abstract(o)
            return MISSING
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, (StaticM, ClassM)) and name == "__func__":
            return o.f
        if isinstance(o, Atom):
            fl = o.flags.get("attrs")
            if fl is not None and name in fl:
                return fl[name]
        if isinstance(o, Slice) and name in ("start", "stop", "step"):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        c = self.type_of(o)
        v = c.lookup(name)
        if v is MISSING:
            return MISSING
        return self.bind(v, o, c)

    def obj_getattr(self, o, name):
        cls = o.cls
        if name == "__class__":
            return cls
        if name == "__dict__":
            d = Obj(self.builtins["dict"], AttrPD(o))
            return d
        if name == "__dict__" and cls.slots is not None:
            return MISSING
        v = cls.lookup(name)
        if isinstance(v, PropVal) and not (v.cached and name in o.d):
            return self.guard_getattr(o, name, lambda: self.bind(v, o, cls))
        if isinstance(v, Obj) and (v.cls.lookup("__set__") is not MISSING or
                                   v.cls.lookup("__delete__") is not MISSING):
            return self.guard_getattr(o, name, lambda: self.bind(v, o, cls))
        if name in o.d:
            return o.d[name]
        if v is not MISSING:
            if name == "__hash__" and v is None:
                return None
            if isinstance(v, Obj):
                return self.guard_getattr(o, name, lambda: self.bind(v, o, cls))
            return self.bind(v, o, cls)
        return self.guard_getattr(o, name, lambda: MISSING)

    def guard_getattr(self, o, name, f):
        ga = o.cls.lookup("__getattr__")
        if ga is MISSING:
            return f()
        try:
            r = f()
        except PyExc as e:
            if not e.value.cls.issub(self.builtins["AttributeError"]):
                raise
            r = MISSING
        if r is MISSING:
            return self.call(ga, [o, name], {})
        return r

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, ClassVal) and (obj.issub(s.cls)):
            start = obj
            mro = start.mro
            inst = None
        elif isinstance(obj, ClassVal):
            start = obj.meta
            mro = start.mro
            inst = obj
        else:
            start = self.type_of(obj)
            mro = start.mro
            inst = obj
        if s.cls not in mro:
            self.raise_("TypeError", "super(type, obj): obj must be an instance of type")
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if inst is None:
                    if isinstance(v, ClassM):
                        return BoundM(obj, v.f)
                    return self.bind(v, None, obj)
                if name == "__new__":
                    return v.f if isinstance(v, StaticM) else v
                return self.bind(v, inst, start)
        return MISSING

    def class_getattr(self, c, name):
        meta = c.meta or self.builtins["type"]
        mv = meta.lookup(name)
        if isinstance(mv, PropVal):
            return self.bind(mv, c, meta)
        if name == "__dict__":
            d = self.new_dict()
            for k, v in c.ns.items():
                d.p.e.append([("c", k), k, v])
            return d
        if name == "__name__":
            return c.name
        if name == "__qualname__":
            return c.qualname
        if name == "__module__":
            return c.module.name if c.module is not None else "builtins"
        if name == "__bases__":
            return Tup(c.bases)
        if name == "__base__":
            return c.bases[0] if c.bases else None
        if name == "__mro__":
            return Tup(c.mro)
        if name == "mro":
            return Native("mro", lambda I, a, k: I.new_list(list(c.mro)))
        if name == "__class__":
            return meta
        if name == "__abstractmethods__":
            return self.new_frozenset(sorted(c.abstract))
        if name == "__subclasses__":
            return Native("__subclasses__", lambda I, a, k: I.new_list(
                [x for x in c.subs]))
        if name == "__doc__":
            return c.ns.get("__doc__")
        if name == "__annotations__":
            return c.ns["__annotations__"] if "__annotations__" in c.ns else self.new_dict()
        if name == "__members__" and c.enum is not None:
            d = self.new_dict()
            for m in c.enum:
                d.p.set(self, m.d["_name_"], m)
            return d
        if name == "__init__" and c.lookup(name) is MISSING:
            return MISSING
        v = c.lookup(name)
        if v is not MISSING:
            if isinstance(v, ClassM):
                return BoundM(c, v.f)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, Obj) and c.enum is None:
                return self.bind(v, None, c)
            return v
        if mv is not MISSING:
            return self.bind(mv, c, meta)
        return MISSING

    def func_getattr(self, f, name):
        d = f.d
        if name in d:
            return d[name]
        if isinstance(f, CachedFn):
            if name == "cache_clear":
                def clear(I, a, k):
                    touch(f)
                    f.store = PD()
                    I.events.append(("cache_clear", self.fname(f), None, I.where()))
                return Native("cache_clear", clear)
            if name == "__wrapped__":
                return f.f
            if name == "cache_info":
                return Native("cache_info", lambda I, a, k: Ext("cache_info()"))
            return self.func_getattr(f.f, name) if not isinstance(f.f, (StaticM, ClassM, ClassVal)) \
                else MISSING
        if name == "__name__":
            return f.name
        if name == "__qualname__":
            return f.qualname if isinstance(f, FuncVal) else f.name
        if name == "__module__":
            return f.module.name if isinstance(f, FuncVal) else "builtins"
        if name == "__doc__":
            return None
        if name == "__dict__":
            return Obj(self.builtins["dict"], AttrPD(f))
        if name == "__isabstractmethod__":
            return MISSING
        if name == "__get__":
            return Native("__get__", lambda I, a, k: I.bind(f, a[0], None))
        if name == "__call__":
            return f
        if name == "__annotations__" and isinstance(f, FuncVal):
            out = self.new_dict()
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None:
                    out.p.set(self, x.arg, self.annotation(f, x))
            return out
        if name == "__defaults__" and isinstance(f, FuncVal):
            return Tup(f.defaults) if f.defaults else None
        if name == "__hash__":
            return BoundM(f, self.builtins["object"].ns["__hash__"])
        if name in ("__eq__", "__ne__"):
            return BoundM(f, self.builtins["object"].ns[name])
        return MISSING

    def annotation(self, f, arg):
        if arg.annotation is None:
            return self.param_empty
        try:
            return self.ev(arg.annotation, f.env)
        except PyExc:
            return Ext("annotation")

    def fname(self, f):
        while isinstance(f, (CachedFn, StaticM, ClassM)):
            f = f.f
        return f.full if isinstance(f, FuncVal) else getattr(f, "name", repr(f))

    def setattr(self, o, name, v):
        if not isinstance(name, str):
            if isinstance(name, Obj) and isinstance(name.p, str):
                name = name.p
            else:
                raise Unsupported("non-constant attribute name")
        if isinstance(o, Obj):
            sa = o.cls.lookup("__setattr__")
            if isinstance(sa, FuncVal):
                self.call(sa, [o, name, v], {})
                return
            self.obj_setattr(o, name, v)
        elif isinstance(o, ClassVal):
            mv = (o.meta or self.builtins["type"]).lookup(name)
            if isinstance(mv, PropVal):
                if mv.fset is None:
                    self.raise_("AttributeError", f"can't set attribute '{name}'")
                self.call(mv.fset, [o, v], {})
                return
            touch(o)
            if name == "__class__":
                o.meta = v
                return
            if name == "__name__":
                o.name = v
                return
            o.ns[name] = v
            self.own(v, o)
        elif isinstance(o, ModuleVal):
            touch(o)
            o.ns[name] = v
        elif isinstance(o, (FuncVal, CachedFn)):
            touch(o)
            if name == "__name__" and isinstance(o, FuncVal):
                o.name = v
            else:
                o.d[name] = v
        elif isinstance(o, Native):
            o.d[name] = v
        elif isinstance(o, Ext):
            o.d[name] = v
        else:
            self.raise_("AttributeError",
                        f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def obj_setattr(self, o, name, v):
        cv = o.cls.lookup(name)
        if isinstance(cv, PropVal) and cv.cached is None:
            if cv.fset is None:
                self.raise_("AttributeError", f"property '{name}' has no setter")
            self.call(cv.fset, [o, v], {})
            return
        if isinstance(cv, Obj):
            st = cv.cls.lookup("__set__")
            if st is not MISSING:
                self.call(st, [cv, o, v], {})
                return
            if cv.cls.lookup("__delete__") is not MISSING:
                self.raise_("AttributeError", "__set__")
        if name == "__class__":
            touch(o)
            o.cls = v
            return
        if name == "__dict__":
            touch(o)
            o.d = {k: x for k, x in self.mapping_items(v)}
            return
        if o.cls.native and o.p is not None and o.cls.name in ("list", "dict", "set", "object"):
            self.raise_("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if o.cls.slots is not None and name not in o.cls.slots:
            self.raise_("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        touch(o)
        o.d[name] = v
        o.w[name] = self.where()

    def delattr(self, o, name):
        if isinstance(o, Obj):
            da = o.cls.lookup("__delattr__")
            if isinstance(da, FuncVal):
                self.call(da, [o, name], {})
                return
        self.raw_delattr(o, name)

    def raw_delattr(self, o, name):
        if isinstance(o, Obj):
            cv = o.cls.lookup(name)
            if isinstance(cv, Obj) and cv.cls.lookup("__delete__") is not MISSING:
                self.call(cv.cls.lookup("__delete__"), [cv, o], {})
                return
            if isinstance(cv, Obj) and cv.cls.lookup("__set__") is not MISSING:
                self.raise_("AttributeError", "__delete__")
            if isinstance(cv, PropVal) and not cv.cached:
                if cv.fdel is None:
                    self.raise_("AttributeError", f"can't delete attribute '{name}'")
                self.call(cv.fdel, [o], {})
                return
            if name not in o.d:
                self.raise_("AttributeError", name)
            touch(o)
            del o.d[name]
        elif isinstance(o, ClassVal):
            touch(o)
            if name not in o.ns:
                self.raise_("AttributeError", name)
            del o.ns[name]
        elif isinstance(o, ModuleVal):
            touch(o)
            if name not in o.ns:
                self.raise_("AttributeError", name)
            del o.ns[name]
        elif isinstance(o, (FuncVal, CachedFn, Native)):
            if not isinstance(o, Native):
                touch(o)
            if name not in o.d:
                self.raise_("AttributeError", name)
            del o.d[name]
        else:
            self.raise_("AttributeError", name)

    def type_method(self, o, name):
        c = self.type_of(o)
        v = c.lookup(name)
        if v is MISSING:
            self.raise_("AttributeError" if not name.startswith("__") else "TypeError",
                        f"'{c.name}' object does not support {name}")
        return self.bind(v, o, c)

    # -------------------------------------------------------------- instantiation
    def instantiate(self, cls, args, kw):
        meta = cls.meta
        if meta is not None and not meta.native:
            mc = meta.lookup("__call__")
            if isinstance(mc, FuncVal):
                return self.call(mc, [cls] + list(args), kw)
        return self.type_call(cls, args, kw)

    def type_call(self, cls, args, kw):
        if cls is self.builtins["type"] and len(args) == 1:
            return self.type_of(args[0])
        if cls.enum is not None and cls.mro[0].ns.get("__enum_final__"):
            from . import lib
            return lib.enum_call(self, cls, args, kw)
        if cls.abstract:
            self.raise_("TypeError", f"Can't instantiate abstract class {cls.name}")
        new = cls.lookup("__new__")
        new = new.f if isinstance(new, StaticM) else new
        o = self.call(new, [cls] + list(args), kw)
        if isinstance(o, Obj) and o.cls.issub(cls) or isinstance(o, ClassVal) and \
                cls.issub(self.builtins["type"]):
            t = self.type_of(o)
            init = t.lookup("__init__")
            if init is not MISSING:
                if isinstance(init, Native) and init.name == "object.__init__":
                    if (args or kw) and isinstance(new, Native) and new.name == "object.__new__":
                        self.raise_("TypeError", f"{cls.name}() takes no arguments")
                else:
                    self.call(self.bind(init, o, t), args, kw)
        return o

    # -------------------------------------------------------------- containers
    def new_list(self, xs=()):
        return Obj(self.builtins["list"], list(xs))

    def new_dict(self, items=()):
        d = Obj(self.builtins["dict"], PD())
        for k, v in items:
            d.p.set(self, k, v)
        return d

    def new_set(self, xs=()):
        s = Obj(self.builtins["set"], PD())
        for x in xs:
            s.p.set(self, x, True)
        return s

    def new_frozenset(self, xs=()):
        s = Obj(self.builtins["frozenset"], PD())
        for x in xs:
            s.p.set(self, x, True)
        return s

    def is_mapping(self, v):
        return isinstance(v, Obj) and isinstance(v.p, (PD, AttrPD)) and \
            v.cls.issub(self.builtins["dict"])

    def is_setlike(self, v):
        return isinstance(v, Obj) and isinstance(v.p, PD) and (
            v.cls.issub(self.builtins["set"]) or v.cls.issub(self.builtins["frozenset"]))

    def mapping_items(self, v):
        if self.is_mapping(v):
            if isinstance(v.cls.lookup("keys"), Native) and \
                    isinstance(v.cls.lookup("__getitem__"), Native):
                return v.p.items()
            if v.cls.issub(self.builtins["dict"]):
                return v.p.items()      # CPython fast path copies dict subclasses directly
        if isinstance(v, Obj) and v.cls.lookup("keys") is not MISSING:
            ks = list(self.iterate(self.call(self.getattr(v, "keys"), [], {})))
            return [(k, self.getitem(v, k)) for k in ks]
        self.raise_("TypeError", f"'{self.type_of(v).name}' object is not a mapping")

    def iterate(self, v):
        """Host iterator over the abstract elements of v."""
        if isinstance(v, Tup):
            return iter(v.items)
        if isinstance(v, GenVal):
            return self._drive(v)
        if isinstance(v, Obj):
            it = v.cls.lookup("__iter__")
            if it is None:
                self.raise_("TypeError", f"'{v.cls.name}' object is not iterable")
            if isinstance(it, Native) or it is MISSING and v.p is not None:
                return self._iter_payload(v)
            if it is MISSING:
                gi = v.cls.lookup("__getitem__")
                if gi is not MISSING:
                    return self._iter_getitem(v)
                self.raise_("TypeError", f"'{v.cls.name}' object is not iterable")
            r = self.call(self.bind(it, v, v.cls), [], {})
            if isinstance(r, Obj) and r is not v and not isinstance(r.cls.lookup("__next__"), FuncVal):
                return self.iterate(r)
            if isinstance(r, Obj):
                return self._iter_next(r)
            return self.iterate(r)
        if isinstance(v, View):
            return self._iter_view(v)
        if isinstance(v, str):
            return iter(list(v))
        if isinstance(v, bytes):
            return iter(list(v))
        if isinstance(v, range):
            return iter(v)
        if isinstance(v, Atom):
            if v.cls.issub(self.builtins["str"]):
                if v.term and v.term[0] == "char":
                    return iter([v])
                return iter([self.term("char", self.builtins["str"], v)])
            el = v.flags.get("elements")
            if el is not None:
                return iter(list(el))
            self.raise_("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, JsonText):
            raise Unsupported("iteration over serialized text")
        if isinstance(v, Ext):
            el = v.d.get("__elements__")
            if el is not None:
                return iter(el)
            raise Unsupported(f"iteration over external value {v.name}")
        if isinstance(v, ClassVal):
            if v.enum is not None:
                return iter(list(v.enum))
            if v.meta is not None:
                it = v.meta.lookup("__iter__")
                if isinstance(it, FuncVal):
                    return self.iterate(self.call(it, [v], {}))
        self.raise_("TypeError", f"'{self.type_of(v).name}' object is not iterable")

    def _drive(self, g):
        while True:
            try:
                v = next(g.it)
            except StopIteration:
                g.done = True
                return
            yield v

    def _iter_payload(self, v):
        if isinstance(v.p, list):
            i = 0
            while i < len(v.p):
                yield v.p[i]
                i += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("step budget exhausted")
        elif isinstance(v.p, (PD, AttrPD)):
            n = len(v.p)
            for x in list(v.p.e):
                if len(v.p) != n:
                    self.raise_("RuntimeError", "dictionary/set changed size during iteration")
                yield x[1]
            if len(v.p) != n:
                self.raise_("RuntimeError", "dictionary/set changed size during iteration")
        elif isinstance(v.p, str):
            yield from list(v.p)
        elif isinstance(v.p, Tup):
            yield from v.p.items
        else:
            nx = v.cls.lookup("__next__")
            if isinstance(nx, Native):
                while True:
                    try:
                        x = self.call(nx, [v], {})
                    except PyExc as e:
                        if e.value.cls.issub(self.builtins["StopIteration"]):
                            return
                        raise
                    yield x
            raise Unsupported(f"iteration over {v!r}")

    def _iter_view(self, v):
        n = len(v.o.p)
        for x in list(v.o.p.e):
            if len(v.o.p) != n:
                self.raise_("RuntimeError", "dictionary changed size during iteration")
            yield x[1] if v.kind == "keys" else x[2] if v.kind == "values" else Tup([x[1], x[2]])
        if len(v.o.p) != n:
            self.raise_("RuntimeError", "dictionary changed size during iteration")

    def _iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if e.value.cls.issub(self.builtins["IndexError"]):
                    return
                raise
            yield x
            i += 1

    def _iter_next(self, r):
        nx = r.cls.lookup("__next__")
        while True:
            try:
                x = self.call(nx, [r], {})
            except PyExc as e:
                if e.value.cls.issub(self.builtins["StopIteration"]):
                    return
                raise
            yield x

    def index_host(self, i):
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, Obj) and isinstance(i.p, int):
            return i.p
        if isinstance(i, Obj):
            m = i.cls.lookup("__index__")
            if isinstance(m, FuncVal):
                return self.index_host(self.call(m, [i], {}))
        return None

    def getitem(self, o, k):
        if isinstance(o, Tup):
            if isinstance(k, Slice):
                return Tup(o.items[k.host()])
            i = self.index_host(k)
            if i is None:
                raise Unsupported("symbolic tuple index")
            try:
                return o.items[i]
            except IndexError:
                self.raise_("IndexError", "tuple index out of range")
        if isinstance(o, Obj):
            g = o.cls.lookup("__getitem__")
            if g is MISSING:
                if o.cls.lookup("__class_getitem__") is not MISSING:
                    return o
                self.raise_("TypeError", f"'{o.cls.name}' object is not subscriptable")
            return self.call(self.bind(g, o, o.cls), [k], {})
        if isinstance(o, ClassVal):
            if o.enum is not None:
                for m in o.enum:
                    if self.truth(self.eq(m.d["_name_"], k)):
                        return m
                mg = o.meta.lookup("__getitem__") if o.meta else MISSING
                if isinstance(mg, FuncVal):
                    return self.call(mg, [o, k], {})
                self.raise_("KeyError", k)
            mg = o.meta.lookup("__getitem__") if o.meta else MISSING
            if isinstance(mg, FuncVal):
                return self.call(mg, [o, k], {})
            cg = o.lookup("__class_getitem__")
            if isinstance(cg, ClassM):
                return self.call(cg.f, [o, k], {})
            return o           # generic alias
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[k.host()]
            i = self.index_host(k)
            if i is None:
                raise Unsupported("symbolic string index")
            try:
                return o[i]
            except IndexError:
                self.raise_("IndexError", "string index out of range")
        if isinstance(o, Atom) and o.cls.issub(self.builtins["str"]):
            return self.term("getitem", self.builtins["str"], o,
                             repr((k.a, k.b, k.c)) if isinstance(k, Slice) else k)
        if isinstance(o, Atom):
            self.raise_("TypeError", f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, Ext):
            return Ext(f"{o.name}[]")
        if isinstance(o, (FuncVal, Native)):
            self.raise_("TypeError", "object is not subscriptable")
        if isinstance(o, HOST):
            self.raise_("TypeError", f"'{self.type_of(o).name}' object is not subscriptable")
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        if isinstance(o, Ext):
            return
        m = self.type_of(o).lookup("__setitem__")
        if m is MISSING:
            self.raise_("TypeError", f"'{self.type_of(o).name}' object does not support item "
                                     f"assignment")
        self.call(self.bind(m, o, self.type_of(o)), [k, v], {})

    def delitem(self, o, k):
        m = self.type_of(o).lookup("__delitem__")
        if m is MISSING:
            self.raise_("TypeError", "object does not support item deletion")
        self.call(self.bind(m, o, self.type_of(o)), [k], {})

    # -------------------------------------------------------------- hashing / equality
    def hashkey(self, v):
        if isinstance(v, HOST):
            return ("c", v)
        if isinstance(v, Tup):
            return ("t",) + tuple(self.hashkey(x) for x in v.items)
        if isinstance(v, Atom):
            if v.cls.lookup("__hash__") is None:
                self.raise_("TypeError", f"unhashable type: '{v.cls.name}'")
            return ("a", v.oid)
        if isinstance(v, Obj):
            h = v.cls.lookup("__hash__")
            if h is None:
                self.raise_("TypeError", f"unhashable type: '{v.cls.name}'")
            if isinstance(h, (FuncVal, BoundM)) or isinstance(h, Native) and \
                    h.name == "Unit.__hash__":
                r = self.call(self.bind(h, v, v.cls), [], {})
                if isinstance(r, HashVal):
                    return r.hk
                return self.hashkey(r)
            if isinstance(v.p, (str, int, float)):
                return ("c", v.p)
            if isinstance(v.p, Atom):
                return ("a", v.p.oid)
            if isinstance(v.p, Tup):
                return self.hashkey(v.p)
            if isinstance(v.p, PD):
                return ("fs", frozenset(x[0] for x in v.p.e))
            return ("o", v.oid)
        if isinstance(v, HashVal):
            return v.hk
        if isinstance(v, BoundM):
            return ("bm", self.ident(v.self), self.ident(v.func))
        if isinstance(v, Slice) or isinstance(v, View) and v.kind != "values":
            self.raise_("TypeError", "unhashable type")
        if isinstance(v, JsonText):
            return ("j",)
        return ("o", self.ident(v))

    def ident(self, v):
        if hasattr(v, "oid"):
            return v.oid
        if isinstance(v, HOST):
            return ("c", type(v).__name__, v)
        return ("h", id(v), v)

    # Functions of text that can map different texts to one.
    _FOLD = ("lower", "upper", "casefold", "title", "capitalize", "swapcase")
    _LOSSY = _FOLD + ("strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace",
                      "expandtabs", "slice", "split0", "split1", "rsplit0", "rsplit1",
                      "partition0", "partition1", "rpartition0", "rpartition1", "translate")

    def lossy(self, a):
        return isinstance(a, Atom) and a.term is not None and a.term[0] in self._LOSSY

    def lossy_root(self, a):
        ops = []
        while self.lossy(a):
            ops.append(a.term[0])
            a = a.term[1]
        return a, ops

    def lossy_eq(self, a, b):
        """Equality of texts at least one of which is derived by a lossy function."""
        ra, ka = self.lossy_root(a)
        rb, kb = self.lossy_root(b)
        if not (isinstance(ra, Atom) and isinstance(rb, Atom)):
            return False
        key = ("lossy",) + tuple(sorted([str(a.oid), str(b.oid)]))
        if ra is rb:
            return self.fork(f"{a!r} == {b!r}", key)
        if ra.term is not None or rb.term is not None \
                or ra.flags.get("apart") and rb.flags.get("apart"):
            return False
        if all(k in self._FOLD for k in ka + kb):
            if not self.fold_eq(ra, rb):
                return False
            return ka == kb or bool(ka and kb) or self.fork(f"{a!r} == {b!r}", key)
        return self.fork(f"{a!r} == {b!r}", key)

    def fold_eq(self, x, y):
        cx = next((c for c in self.folds if x in c), None)
        if cx is None:
            cx = {x}
            self.folds.append(cx)
        if y in cx:
            return True
        cy = next((c for c in self.folds if y in c), None)
        if cy is None:
            cy = {y}
            self.folds.append(cy)
        for u in cx:
            for v in cy:
                if self.memo.get(("apart",) + tuple(sorted([u.oid, v.oid]))):
                    return False
        if self.fork(f"{x!r} and {y!r} differ in case only"):
            cx |= cy
            self.folds.remove(cy)
            return True
        self.memo[("apart",) + tuple(sorted([x.oid, y.oid]))] = True
        return False

    def same_key(self, h1, k1, h2, k2):
        if h1 != h2:
            if self.lossy(k1) or self.lossy(k2):
                return self.truth(self.eq(k1, k2))
            if self._has_free(k1) and self._has_free(k2) or \
                    (isinstance(k1, Atom) and k1.free) or (isinstance(k2, Atom) and k2.free):
                return self.truth(self.eq(k1, k2))
            return False
        if k1 is k2:
            return True
        return self.truth(self.eq(k1, k2))

    def _has_free(self, k):
        if isinstance(k, Atom):
            return k.free
        if isinstance(k, Tup):
            return any(self._has_free(x) for x in k.items)
        return False

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, HOST) and isinstance(b, HOST):
            return type(a) is type(b) and a == b
        if isinstance(b, bool) and isinstance(a, Atom) and a.cls is self.builtins["bool"]:
            return self.truth(a) == b
        if isinstance(a, bool) and isinstance(b, Atom) and b.cls is self.builtins["bool"]:
            return self.truth(b) == a
        if isinstance(a, BoundM) or isinstance(b, BoundM):
            return False
        return False

    def seq_eq(self, xs, ys):
        if len(xs) != len(ys):
            return False
        return all(x is y or self.truth(self.eq(x, y)) for x, y in zip(xs, ys))

    def eq(self, a, b):
        ta, tb = self.type_of(a), self.type_of(b)
        order = [(a, ta, b), (b, tb, a)]
        if ta is not tb and tb.issub(ta) and tb.lookup_cls("__eq__") is not ta.lookup_cls("__eq__"):
            order.reverse()
        for x, tx, y in order:
            m = tx.lookup("__eq__")
            if isinstance(m, (FuncVal, BoundM)) or isinstance(m, Native) and m.name in MODEL_EQ:
                r = self.call(self.bind(m, x, tx), [y], {})
                if r is not NotImplemented:
                    return r
        return self.prim_eq(a, b)

    def numeric(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Atom) and (v.cls.issub(self.builtins["int"]) or
                                    v.cls.issub(self.builtins["float"])):
            if v.cls is self.builtins["bool"]:
                return None
            return v
        if isinstance(v, Obj) and isinstance(v.p, (int, float)) and not isinstance(v.p, bool):
            return v.p
        return None

    def strval(self, v):
        if isinstance(v, Obj) and (isinstance(v.p, str) or isinstance(v.p, Atom)):
            return v.p
        return v

    @staticmethod
    def tupval(v):
        return v.p if isinstance(v, Obj) and isinstance(v.p, Tup) else v

    def prim_eq(self, a, b):
        if a is b:
            if isinstance(a, Atom) and a.flags.get("nan"):
                return False
            return not isinstance(a, float) or a == a
        a, b = self.tupval(a), self.tupval(b)
        na, nb = self.numeric(a), self.numeric(b)
        if na is not None and nb is not None:
            if isinstance(na, Atom) or isinstance(nb, Atom):
                return self.num_rel(na, nb) == "="
            return na == nb
        a, b = self.strval(a), self.strval(b)
        if isinstance(a, HOST) and isinstance(b, HOST):
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_eq(a.items, b.items)
        if isinstance(a, Obj) and isinstance(b, Obj):
            L = self.builtins["list"]
            if isinstance(a.p, list) and isinstance(b.p, list) and a.cls.issub(L) \
                    and b.cls.issub(L):
                return self.seq_eq(a.p, b.p)
            if self.is_mapping(a) and self.is_mapping(b):
                if len(a.p) != len(b.p):
                    return False
                for k, v in a.p.items():
                    e = b.p.find(self, k)
                    if e is None or not (e[2] is v or self.truth(self.eq(v, e[2]))):
                        return False
                return True
            if self.is_setlike(a) and self.is_setlike(b):
                return len(a.p) == len(b.p) and all(
                    b.p.find(self, k) is not None for k in a.p.keys())
            return False
        if isinstance(a, View) and isinstance(b, View) and a.kind == b.kind == "values":
            return False
        if isinstance(b, View) and b.kind != "values" and self.is_setlike(a):
            a, b = b, a
        if isinstance(a, View) and a.kind == "items" and (
                isinstance(b, View) and b.kind == "items" or self.is_setlike(b)):
            xs, ys = list(self.iterate(a)), list(self.iterate(b))
            return len(xs) == len(ys) and all(
                any(self.truth(self.eq(x, y)) for y in ys) for x in xs)
        if isinstance(a, View) and a.kind == "keys" and (
                isinstance(b, View) and b.kind == "keys" or self.is_setlike(b)):
            ks = [k for k in self.iterate(b)]
            return len(ks) == len(a.o.p) and all(a.o.p.find(self, k) is not None for k in ks)
        if isinstance(a, Atom) or isinstance(b, Atom):
            if (isinstance(a, Atom) and a.free) or (isinstance(b, Atom) and b.free):
                ta, tb = self.type_of(a), self.type_of(b)
                if ta is tb or ta.issub(tb) or tb.issub(ta):
                    key = ("eq",) + tuple(sorted([str(self.ident(a)), str(self.ident(b))]))
                    return self.fork(f"{a!r} == {b!r}", key)
            if self.lossy(a) or self.lossy(b):
                return self.lossy_eq(a, b)
            return False
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a.self is b.self and a.func is b.func
        if isinstance(a, Ext) or isinstance(b, Ext):
            if isinstance(a, HOST) or isinstance(b, HOST) or isinstance(a, Ext) and \
                    isinstance(b, Ext):
                if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name \
                        and "()" not in a.name:
                    return True
                if (a is None) or (b is None):
                    return False
                self.mark(f"equality of external values {a!r}, {b!r}")
                return self.fork(f"{a!r} == {b!r}",
                                 ("eq",) + tuple(sorted([str(self.ident(a)), str(self.ident(b))])))
            return False
        if isinstance(a, HashVal) and isinstance(b, HashVal):
            return a.hk == b.hk
        if isinstance(a, JsonText) and isinstance(b, JsonText):
            return self.tree_eq(a.tree, b.tree)
        if isinstance(a, (JsonText, str)) and isinstance(b, (JsonText, str)):
            raise Unsupported("comparison of serialized text with a literal")
        return False

    def tree_eq(self, a, b):
        """Equality of two serialized texts (order of keys matters, as in the text)."""
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[0] != b[0] \
                    or len(a[1]) != len(b[1]):
                return False
            if a[0] == "list":
                return all(self.tree_eq(x, y) for x, y in zip(a[1], b[1]))
            return all(self.prim_eq(k, q) and self.tree_eq(x, y)
                       for (k, x), (q, y) in zip(a[1], b[1]))
        ka, kb = self.json_kind(a), self.json_kind(b)
        return ka == kb and self.prim_eq(a, b)

    def json_kind(self, v):
        if v is None or isinstance(v, bool):
            return v
        return self.type_of(v).name

    # -------------------------------------------------------------- ordering
    def num_rel(self, a, b):
        for x in (a, b):
            if isinstance(x, Atom) and x.flags.get("nan"):
                return "?"
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Atom) and x.flags.get("inf") and not (
                    isinstance(y, Atom) and y.flags.get("inf")):
                s = ">" if x.flags["inf"] > 0 else "<"
                return s if not flip else (">" if s == "<" else "<")
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Atom) and x.term and x.term[0] == "int" and x.term[1] is y:
                g = y.flags.get("integral")
                if g is None:
                    g = self.fork(f"{y!r} is integral", ("integral", y.oid))
                if g:
                    return "="
                pos = self.num_rel(y, 0) == ">"
                return "<" if pos != flip else ">"
        if isinstance(a, Atom) and isinstance(b, Atom) and a.term and b.term and \
                a.term[0] == b.term[0] == "conv" and a.term[2:] == b.term[2:]:
            return self.num_rel(a.term[1], b.term[1])     # unit conversion is increasing
        r = self.frame_rel(a, b)
        if r is not None:
            return r
        if self.frames:
            self.sync_frames()
        na, nb = self.orders.node(a), self.orders.node(b)
        opts = self.orders.options(na, nb)
        i = 0
        if len(opts) > 1:
            if self.building:
                raise Unsupported("numeric comparison at import time")
            i = self.choose(f"{a!r} {'/'.join(opts)} {b!r} @{self.where()}", len(opts))
        self.orders.add(na, opts[i], nb)
        return opts[i]

    def frame_rel(self, a, b):
        """Order of two magnitudes in the same unit, at least one the result of a conversion.

        Both are taken to the root unit of the dimension, so that comparing conv(x) with y and
        x with conv(y) are the same question."""
        from .libmods import root_value
        ta = a.term if isinstance(a, Atom) and a.term and a.term[0] == "conv" else None
        tb = b.term if isinstance(b, Atom) and b.term and b.term[0] == "conv" else None
        if ta is None and tb is None:
            return None
        if ta is not None and tb is not None and self.ident(ta[3]) != self.ident(tb[3]):
            return None
        unit = (ta or tb)[3]
        pts = []
        for v, t in ((a, ta), (b, tb)):
            if t is not None:
                v, u = t[1], t[2]
            else:
                u = unit
            if isinstance(v, Atom) and v.term and v.term[0] == "conv":
                return None
            rv = root_value(self, v, u)
            if rv is None:
                return None
            pts.append(rv)
        (da, na), (db, nb) = pts
        if da != db:
            return None
        o = self.frames.get(da)
        if o is None:
            o = self.frames[da] = Orders()
        for n in (na, nb):
            o.le.setdefault(n, {})
        self.sync_frames()
        opts = o.options(na, nb)
        i = 0
        if len(opts) > 1:
            if self.building:
                raise Unsupported("numeric comparison at import time")
            i = self.choose(f"{a!r} {'/'.join(opts)} {b!r} @{self.where()}", len(opts))
        o.add(na, opts[i], nb)
        self.sync_frames()
        return opts[i]

    def sync_frames(self):
        """Conversions are increasing: exchange what is known between the orders."""
        from .libmods import root_value
        plain = self.orders
        for dim, o in self.frames.items():
            atoms = [n for n in o.le if n[0] == "u"]
            for i, n in enumerate(atoms):
                pn = ("a", n[1])
                for q in list(plain.le):
                    if q[0] == "k" and pn in plain.le:
                        rv = root_value(self, q[1], n[3])
                        if rv is not None:
                            o.le.setdefault(rv[1], {})
                            self.carry(plain, pn, q, o, n, rv[1])
                for m in atoms[i + 1:]:
                    if m[2] == n[2]:
                        pm = ("a", m[1])
                        if pn in plain.le and pm in plain.le:
                            self.carry(plain, pn, pm, o, n, m)
                        if o.reach(n, m) is not None or o.reach(m, n) is not None:
                            plain.le.setdefault(pn, {})
                            plain.le.setdefault(pm, {})
                            self.carry(o, n, m, plain, pn, pm)

    @staticmethod
    def carry(src, a, b, dst, x, y):
        for p, q, u, v in ((a, b, x, y), (b, a, y, x)):
            s = src.reach(p, q)
            if s is not None:
                dst.le[u][v] = dst.le[u].get(v, False) or s

    def lt(self, a, b):
        """a < b as a host bool."""
        na, nb = self.numeric(a), self.numeric(b)
        if na is not None and nb is not None:
            if isinstance(na, Atom) or isinstance(nb, Atom):
                return self.num_rel(na, nb) == "<"
            return na < nb
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return a < b
        ta = self.type_of(a)
        m = ta.lookup("__lt__")
        if not isinstance(m, FuncVal):
            a, b = self.tupval(a), self.tupval(b)
        sa, sb = self.strval(a), self.strval(b)
        if isinstance(sa, str) and isinstance(sb, str):
            return sa < sb
        S = self.builtins["str"]
        if self.type_of(sa).issub(S) and self.type_of(sb).issub(S):
            if isinstance(sa, Atom) and isinstance(sb, Atom):
                return sa.oid < sb.oid
            return isinstance(sa, str)
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if not (x is y or self.truth(self.eq(x, y))):
                    return self.lt(x, y)
            return len(a.items) < len(b.items)
        ta = self.type_of(a)
        m = ta.lookup("__lt__")
        if isinstance(m, FuncVal):
            r = self.call(self.bind(m, a, ta), [b], {})
            if r is not NotImplemented:
                return self.truth(r)
        tb = self.type_of(b)
        m = tb.lookup("__gt__")
        if isinstance(m, FuncVal):
            r = self.call(self.bind(m, b, tb), [a], {})
            if r is not NotImplemented:
                return self.truth(r)
        if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.p, list) and \
                isinstance(b.p, list):
            return self.lt(Tup(a.p), Tup(b.p))
        if self.is_setlike(a) and self.is_setlike(b):
            return len(a.p) < len(b.p) and all(b.p.find(self, k) is not None for k in a.p.keys())
        if isinstance(a, Ext) or isinstance(b, Ext):
            self.mark("ordering of external values")
            return self.fork(f"{a!r} < {b!r}")
        self.raise_("TypeError", f"'<' not supported between instances of '{ta.name}' and "
                                 f"'{tb.name}'")

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            ta = self.type_of(a)
            m = ta.lookup("__ne__")
            if isinstance(m, FuncVal):
                r = self.call(self.bind(m, a, ta), [b], {})
                if r is not NotImplemented:
                    return r
            return not self.truth(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.truth(self.contains(b, a))
        na, nb = self.numeric(a), self.numeric(b)
        if na is not None and nb is not None and (isinstance(na, Atom) or isinstance(nb, Atom)):
            r = self.num_rel(na, nb)
            return {ast.Lt: r == "<", ast.Gt: r == ">", ast.LtE: r in "<=" and r != "?",
                    ast.GtE: r in ">=" and r != "?"}[type(op)]
        if isinstance(a, View) and a.kind != "values" and (
                isinstance(b, View) and b.kind != "values" or self.is_setlike(b)):
            a = self.new_set(list(self.iterate(a)))
        if self.is_setlike(a) and isinstance(b, View) and b.kind != "values":
            b = self.new_set(list(self.iterate(b)))
        if self.is_setlike(a) and self.is_setlike(b):
            sub = all(b.p.find(self, k) is not None for k in a.p.keys())
            sup = all(a.p.find(self, k) is not None for k in b.p.keys())
            return {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup,
                    ast.Gt: sup and not sub}[type(op)]
        names = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}
        ta = self.type_of(a)
        m = ta.lookup(names[type(op)])
        if isinstance(m, FuncVal):
            r = self.call(self.bind(m, a, ta), [b], {})
            if r is not NotImplemented:
                return r
        if isinstance(a, View) and isinstance(b, View):
            ka = self.new_set(list(self.iterate(a)))
            kb = self.new_set(list(self.iterate(b)))
            return self.compare(op, ka, kb)
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            return not self.lt(b, a)
        return not self.lt(a, b)

    def contains(self, c, x):
        t = self.type_of(c)
        if isinstance(c, Ext):
            self.mark(f"membership in external value {c!r}")
            return self.fork(f"{x!r} in {c!r}", ("in", c.oid, str(self.ident(x))))
        m = t.lookup("__contains__")
        if isinstance(c, ClassVal) and c.enum is not None:
            return any(x is e for e in c.enum)
        if isinstance(m, (FuncVal,)):
            return self.truth(self.call(self.bind(m, c, t), [x], {}))
        if isinstance(c, Tup):
            return any(y is x or self.truth(self.eq(y, x)) for y in c.items)
        if isinstance(c, View):
            if c.kind == "keys":
                return c.o.p.find(self, x) is not None
            return any(y is x or self.truth(self.eq(y, x)) for y in self.iterate(c))
        if isinstance(c, Obj):
            if isinstance(c.p, (PD, AttrPD)):
                return c.p.find(self, x) is not None
            if isinstance(c.p, str):
                c = c.p
            elif isinstance(c.p, list):
                for y in c.p:
                    if y is x or self.truth(self.eq(y, x)):
                        return True
                return False
        if isinstance(c, str) and isinstance(self.strval(x), str):
            return self.strval(x) in c
        if self.type_of(c).issub(self.builtins["str"]):
            if not self.type_of(x).issub(self.builtins["str"]):
                self.raise_("TypeError", "'in <string>' requires string as left operand")
            cv = self.strval(c)
            if isinstance(cv, JsonText):
                raise Unsupported("substring search in serialized text")
            if isinstance(cv, Atom) and cv.term:
                self.mark(f"substring search in derived text {cv!r}")
            return self.fork(f"{x!r} in {c!r}",
                             ("in", str(self.ident(c)), str(self.ident(self.strval(x)))))
        for y in self.iterate(c):
            if y is x or self.truth(self.eq(y, x)):
                return True
        return False

    # -------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, HOST):
            if v is NotImplemented:
                return True
            return bool(v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__")
            if isinstance(m, FuncVal):
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            m = v.cls.lookup("__len__")
            if isinstance(m, FuncVal):
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            if isinstance(v.p, (list, PD, AttrPD)):
                return len(v.p) > 0
            if isinstance(v.p, HOST) and v.p is not None:
                return bool(v.p)
            return True
        if isinstance(v, Atom):
            B = self.builtins
            if v.cls is B["bool"]:
                return self.fork(f"{v!r}", ("truth", v.oid))
            if self.numeric(v) is not None:
                if v.flags.get("nan") or v.flags.get("inf"):
                    return True
                return self.num_rel(v, 0) != "="
            if v.cls.issub(B["str"]):
                if v.term is not None:
                    t = self.term_nonempty(v)
                    if t is not None:
                        return t
                return not v.flags.get("empty", False)
            return True
        if isinstance(v, View):
            return len(v.o.p) > 0
        if isinstance(v, Ext):
            if v.d.get("__truth__") is not None:
                return v.d["__truth__"]
            self.mark(f"truth of external value {v!r}")
            return self.fork(f"{v!r}", ("truth", v.oid))
        if isinstance(v, range):
            return len(v) > 0
        return True

    def term_nonempty(self, v):
        op = v.term[0]
        if op == "concat":
            return any(isinstance(x, str) and x for x in v.term[1:]) or None
        if op in ("lower", "upper", "casefold"):
            return self.truth(v.term[1])
        return None

    # -------------------------------------------------------------- terms
    def term(self, op, cls, *args, **flags):
        key = (op, cls.oid) + tuple(str(self.ident(a)) for a in args)
        t = self.terms.get(key)
        if t is None:
            t = Atom(f"{op}({', '.join(map(self.short, args))})", cls, **flags)
            t.term = (op,) + args
            self.terms[key] = t
        return t

    def short(self, a):
        r = a.name if isinstance(a, (Atom, Ext)) else repr(a)
        return r if len(r) < 60 else r[:57] + "..."

    # -------------------------------------------------------------- operators
    _OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
            ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.BitOr: "or",
            ast.BitAnd: "and", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
            ast.MatMult: "matmul"}

    def inplace(self, op, a, b):
        n = self._OPN[type(op)]
        if isinstance(a, Obj):
            m = a.cls.lookup(f"__i{n}__")
            if m is not MISSING:
                r = self.call(self.bind(m, a, a.cls), [b], {})
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        n = self._OPN[type(op)]
        ta, tb = self.type_of(a), self.type_of(b)
        for x, tx, y, nm in ((a, ta, b, f"__{n}__"), (b, tb, a, f"__r{n}__")):
            m = tx.lookup(nm)
            if isinstance(m, FuncVal) or isinstance(m, Native) and isinstance(x, Obj):
                r = self.call(self.bind(m, x, tx), [y], {})
                if r is not NotImplemented:
                    return r
        a2, b2 = self.strval(a), self.strval(b)
        a, b = self.tupval(a), self.tupval(b)
        if isinstance(a, Obj) and isinstance(a.p, (int, float)):
            a2 = a.p
        if isinstance(b, Obj) and isinstance(b.p, (int, float)):
            b2 = b.p
        ha = isinstance(a2, HOST) and a2 is not None
        hb = isinstance(b2, HOST) and b2 is not None
        if ha and hb and not (n == "mod" and isinstance(a2, str)):
            try:
                import operator
                f = {"or": operator.or_, "and": operator.and_}.get(n) or getattr(operator, n)
                return f(a2, b2)
            except TypeError as e:
                self.raise_("TypeError", str(e))
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "division by zero")
        if isinstance(a, Tup) and isinstance(b, Tup) and n == "add":
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and isinstance(b, int) and n == "mul":
            return Tup(a.items * b)
        S = self.builtins["str"]
        if ta.issub(S) and tb.issub(S) and n == "add":
            return self.concat([a2, b2])
        if ta.issub(S) and n == "mod":
            if isinstance(a2, str):
                return self.percent(a2, b)
            return self.term("format", S, a2, b if not isinstance(b, Tup) else repr(b))
        na, nb = self.numeric(a), self.numeric(b)
        if na is not None and nb is not None:
            F, N = self.builtins["float"], self.builtins["int"]
            cls = F if n == "truediv" or ta.issub(F) or tb.issub(F) else N
            return self.term(n, cls, na, nb)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Ext(f"{self.short(a)} {n} {self.short(b)}")
        if n == "or" and isinstance(a, (ClassVal, Tup)) and (isinstance(b, (ClassVal, Tup)) or
                                                             b is None):
            xs = list(a.items) if isinstance(a, Tup) else [a]
            ys = list(b.items) if isinstance(b, Tup) else [
                self.builtins["NoneType"] if b is None else b]
            return Tup(xs + ys)
        if isinstance(a, View) and n in ("or", "and", "sub", "xor"):
            return self.binop(op, self.new_set(list(self.iterate(a))),
                              self.new_set(list(self.iterate(b))))
        self.raise_("TypeError", f"unsupported operand type(s) for {n}: '{ta.name}' and "
                                 f"'{tb.name}'")

    # -------------------------------------------------------------- isinstance / str
    def isinstance(self, v, c):
        if isinstance(c, Tup):
            return any(self.isinstance(v, x) for x in c.items)
        if isinstance(c, Obj) and isinstance(c.p, list):
            self.raise_("TypeError", "isinstance() arg 2 must be a type or tuple of types")
        t = self.type_of(v)
        if isinstance(c, Ext):
            return self.ext_isinstance(v, c)
        if not isinstance(c, ClassVal):
            self.raise_("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a "
                                     "union")
        ic = (c.meta.lookup("__instancecheck__") if c.meta else MISSING)
        if isinstance(ic, FuncVal):
            return self.truth(self.call(ic, [c, v], {}))
        if c is self.builtins["dict"] and t is self.builtins["mappingproxy"]:
            return False
        if isinstance(v, Ext):
            if c is self.builtins["object"]:
                return True
            if isinstance(v.d.get("__class__"), ClassVal):
                return v.d["__class__"].issub(c)
            if v.d.get("__not_builtin__"):
                return False
            self.mark(f"class of external value {v!r}")
            return self.fork(f"isinstance({v!r}, {c.name})", ("isi", v.oid, c.oid))
        return t.issub(c)

    def ext_isinstance(self, v, c):
        if isinstance(v, Ext):
            if c.d.get("__inst__") is not None:
                return v.name in c.d["__inst__"]
            self.mark("isinstance on external values")
            return self.fork(f"isinstance({v!r}, {c!r})", ("isi", v.oid, c.oid))
        if c.name.startswith("typing.") or c.name == "annotation":
            raise Unsupported(f"isinstance against {c.name}")
        t = self.type_of(v)
        ec = self.id_map.get(("extcls", c.name))
        return ec is not None and ec in t.mro

    def issubclass(self, a, c):
        if isinstance(c, Tup):
            return any(self.issubclass(a, x) for x in c.items)
        if not isinstance(a, ClassVal):
            if isinstance(a, Ext):
                self.mark("issubclass of external value")
                return False
            self.raise_("TypeError", "issubclass() arg 1 must be a class")
        if isinstance(c, Ext):
            if c.name.startswith("typing."):
                raise Unsupported(f"issubclass against {c.name}")
            ec = self.id_map.get(("extcls", c.name))
            return ec is not None and ec in a.mro
        if not isinstance(c, ClassVal):
            self.raise_("TypeError", "issubclass() arg 2 must be a class")
        return a.issub(c)

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, HOST):
            return str(v)
        if isinstance(v, JsonText):
            return v
        if isinstance(v, Atom):
            if v.cls is self.builtins["str"]:
                return v
            return self.term("str", self.builtins["str"], v)
        if isinstance(v, (Tup, View)):
            from .lib import plain_repr
            return plain_repr(self, v)
        if isinstance(v, ClassVal):
            from .lib import do_repr
            return do_repr(self, v)
        if isinstance(v, Obj):
            m = v.cls.lookup("__str__")
            if isinstance(m, FuncVal):
                from .lib import text_result
                return text_result(self, self.call(m, [v], {}), "__str__")
            if isinstance(m, Native) and m.name == "object.__str__":
                r = v.cls.lookup("__repr__")
                if isinstance(r, FuncVal) and v.cls.enum is None:
                    from .lib import do_repr
                    return do_repr(self, v)
            if isinstance(m, Native) and m.name in ("Unit.__str__", "Path.__str__",
                                                    "UUID.__str__"):
                return self.call(m, [v], {})
            if v.cls.enum is not None and not any(
                    c.name in ("IntEnum", "StrEnum", "IntFlag") for c in v.cls.mro):
                return f"{v.cls.name}.{v.d.get('_name_')}"
            if isinstance(v.p, (str, int, float)):
                return str(v.p)
            if v.cls.issub(self.builtins["BaseException"]):
                a = v.d.get("args")
                if isinstance(a, Tup) and len(a.items) == 1:
                    if v.cls.issub(self.builtins["KeyError"]):
                        from .lib import do_repr
                        return do_repr(self, a.items[0])
                    return self.to_str(a.items[0])
                if isinstance(a, Tup):
                    return self.to_str(a) if a.items else ""
            if isinstance(v.p, (list, PD)) and v.cls.lookup("__repr__") is not MISSING:
                from .lib import plain_repr
                return plain_repr(self, v)
        if isinstance(v, Ext) and "__str__" in v.d:
            return v.d["__str__"]
        return self.term("str", self.builtins["str"], v)

    # -------------------------------------------------------------- harness helpers
    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        v = self.mod_attr(self.load(mod), name)
        if v is MISSING:
            raise Unsupported(f"anchor {dotted} not found")
        return v

    def meth(self, o, name, /, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

    def atom(self, name, typ="str", free=False, **flags):
        c = typ if isinstance(typ, ClassVal) else self.builtins[typ]
        return Atom(name, c, free, **flags)
