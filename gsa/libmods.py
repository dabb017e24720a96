"""Models of the standard-library / third-party modules the repository imports."""
import ast
import math
import posixpath
import re as hre

from .core import (
    Unsupported, PyExc, touch, Tup, HashVal, Atom, Ext, PD, AttrPD, Obj, ClassVal,
    MISSING, ModuleVal, FuncVal, BoundM, Native, PropVal, StaticM, ClassM, CachedFn, GenVal,
    JsonText, View)
from .lib import (HOST, as_index, to_host, from_host, is_const, host_seq, wrote, do_len, sort_values,
                  to_float, _NO)


def ident_deco(name):
    """decorator factory that returns its argument unchanged."""
    def fac(I, a, k):
        return Native(name + "()", lambda I, b, kk: b[0])
    return Native(name, fac)


def identity(name):
    return Native(name, lambda I, a, k: a[0])


# ------------------------------------------------------------------ ABCs
def abc_classes(I):
    B = I.builtins
    cache = I.id_map.get("abcs")
    if cache is not None:
        return cache
    out = {}

    def has(*names):
        def t(c):
            for n in names:
                v = c.lookup(n)
                if v is MISSING or v is None:
                    return False
            return True
        return t

    def named(*names):
        def t(c):
            for n in names:
                if n in B and B[n] in c.mro:
                    return True
            return any(x.name in names and x.native for x in c.mro)
        return t

    def register(I, a, k):
        touch(a[0])
        a[0].virtual = tuple(a[0].virtual) + (a[1],)
        return a[1]

    def mk(name, test, bases=None):
        c = I.native_class(name, bases)
        c.abc_test = test
        c.ns["register"] = ClassM(Native("register", register))
        out[name] = c
        return c
    mk("Iterable", has("__iter__"))
    mk("Iterator", has("__iter__", "__next__"))
    mk("Generator", named("generator"))
    mk("Container", has("__contains__"))
    mk("Hashable", has("__hash__"))
    mk("Sized", has("__len__"))
    mk("Callable", has("__call__"))
    mk("Reversible", lambda c: has("__reversed__", "__iter__")(c) or named(
        "str", "tuple", "list", "range", "bytes", "deque")(c))
    mk("Collection", has("__len__", "__iter__", "__contains__"))
    mk("Sequence", named("list", "tuple", "str", "range", "bytes", "bytearray", "memoryview",
                         "deque"))
    mk("MutableSequence", named("list", "bytearray", "deque"))
    mk("Mapping", named("dict", "mappingproxy"))
    mk("MutableMapping", named("dict"))
    mk("Set", named("set", "frozenset", "dict_keys", "dict_items"))
    mk("AbstractSet", out["Set"].abc_test)
    mk("MutableSet", named("set"))
    mk("ByteString", named("bytes", "bytearray"))
    mk("KeysView", named("dict_keys"))
    mk("ValuesView", named("dict_values"))
    mk("ItemsView", named("dict_items"))
    mk("MappingView", named("dict_keys", "dict_values", "dict_items"))
    mk("SupportsFloat", has("__float__"))
    mk("SupportsInt", has("__int__"))
    mk("Number", named("int", "float", "complex"))
    mk("Complex", named("int", "float", "complex"))
    mk("Real", named("int", "float"))
    mk("Rational", named("int"))
    mk("Integral", named("int"))
    I.id_map["abcs"] = out
    for n, cs in I.mapping_items(I.pylib("abcs")["MIXINS"]):
        for c in I.iterate(cs):
            for k, v in c.ns.items():
                if k not in ("__module__", "__qualname__", "__doc__"):
                    out[n].ns.setdefault(k, v)
    required = {"Iterable": ["__iter__"], "Iterator": ["__next__"], "Sized": ["__len__"],
                "Container": ["__contains__"], "Callable": ["__call__"],
                "Hashable": ["__hash__"], "Reversible": ["__reversed__", "__iter__"],
                "Collection": ["__len__", "__iter__", "__contains__"],
                "Sequence": ["__getitem__", "__len__"],
                "MutableSequence": ["__getitem__", "__len__", "__setitem__", "__delitem__",
                                    "insert"],
                "Set": ["__contains__", "__iter__", "__len__"],
                "MutableSet": ["__contains__", "__iter__", "__len__", "add", "discard"],
                "Mapping": ["__getitem__", "__iter__", "__len__"],
                "MutableMapping": ["__getitem__", "__iter__", "__len__", "__setitem__",
                                   "__delitem__"]}
    for n, ms in required.items():
        out[n].needs = ms
    return out


def m_typing(I):
    B = I.builtins
    ab = abc_classes(I)
    d = {n: c for n, c in ab.items() if n not in ("Set", "Number", "Complex", "Real", "Rational",
                                                  "Integral")}
    d.update(Tuple=B["tuple"], List=B["list"], Dict=B["dict"], Set=B["set"],
             FrozenSet=B["frozenset"], Type=B["type"], Text=B["str"])
    d["TypeVar"] = Native("TypeVar", lambda I, a, k: Ext(f"typing.TypeVar[{a[0]}]"))
    d["NewType"] = Native("NewType", lambda I, a, k: a[1])
    d["cast"] = Native("cast", lambda I, a, k: a[1])
    for n in ("overload", "final", "no_type_check", "runtime_checkable"):
        d[n] = identity(n)
    lib = I.pylib("typing")
    d["NamedTuple"], d["TypedDict"] = lib["NamedTuple"], lib["TypedDict"]
    for n in ("get_origin", "get_args", "get_type_hints"):
        def refuse(I, a, k, n=n):
            raise Unsupported(f"typing.{n}()")
        d[n] = Native(n, refuse)
    d["TYPE_CHECKING"] = False
    d["Generic"] = I.native_class("Generic")
    d["Protocol"] = I.native_class("Protocol")
    return d


def m_collections_abc(I):
    ab = abc_classes(I)
    return {n: c for n, c in ab.items() if n not in ("AbstractSet", "Number", "Complex", "Real",
                                                     "Rational", "Integral", "SupportsInt",
                                                     "SupportsFloat")}


def m_numbers(I):
    ab = abc_classes(I)
    return {n: ab[n] for n in ("Number", "Complex", "Real", "Rational", "Integral")}


def m_collections(I):
    B = I.builtins
    d = {}
    lib = I.pylib("collections")
    for n in ("OrderedDict", "Counter", "ChainMap", "UserDict", "UserList", "namedtuple"):
        d[n] = lib[n]
    dd = I.native_class("defaultdict", [B["dict"]])

    def dd_init(I, a, k):
        a[0].d["default_factory"] = a[1] if len(a) > 1 else None
        I.call(B["dict"].ns["__init__"], [a[0]] + a[2:], k)
    dd.ns["__init__"] = Native("defaultdict.__init__", dd_init)

    def dd_missing(I, a, k):
        f = a[0].d.get("default_factory")
        if f is None:
            I.raise_("KeyError", a[1])
        v = I.call(f, [], {})
        I.setitem(a[0], a[1], v)
        return v
    dd.ns["__missing__"] = Native("defaultdict.__missing__", dd_missing)
    d["defaultdict"] = dd
    dq = I.native_class("deque")
    ln = B["list"].ns
    for n in ("append", "extend", "clear", "remove", "count", "index", "reverse", "__len__",
              "__iter__", "__contains__", "__getitem__", "__setitem__", "__delitem__",
              "__reversed__", "__iadd__", "insert"):
        dq.ns[n] = ln[n]
    dq.ns["__new__"] = StaticM(Native("deque.__new__", lambda I, a, k: Obj(a[0], [])))
    dq.ns["__init__"] = Native("deque.__init__", lambda I, a, k: I.call(ln["__init__"], a[:2], {}))
    dq.ns["pop"] = Native("deque.pop", lambda I, a, k: I.call(ln["pop"], a, {}))

    def popleft(I, a, k):
        if not a[0].p:
            I.raise_("IndexError", "pop from an empty deque")
        wrote(I, a[0])
        return a[0].p.pop(0)
    dq.ns["popleft"] = Native("deque.popleft", popleft)

    def appendleft(I, a, k):
        wrote(I, a[0])
        a[0].p.insert(0, a[1])
    dq.ns["appendleft"] = Native("deque.appendleft", appendleft)

    def extendleft(I, a, k):
        for x in I.iterate(a[1]):
            wrote(I, a[0])
            a[0].p.insert(0, x)
    dq.ns["extendleft"] = Native("deque.extendleft", extendleft)
    dq.ns["__hash__"] = None
    d["deque"] = dq
    def rotate(I, a, k):
        n = to_host(a[1]) if len(a) > 1 else 1
        xs = a[0].p
        if xs:
            wrote(I, a[0])
            n %= len(xs)
            xs[:] = xs[-n:] + xs[:-n] if n else xs
    dq.ns["rotate"] = Native("deque.rotate", rotate)
    dq.ns["copy"] = Native("deque.copy", lambda I, a, k: I.call(
        a[0].cls, [a[0]] + ([a[0].d["maxlen"]] if a[0].d.get("maxlen") is not None else []), {}))
    dq.ns["maxlen"] = PropVal(Native("deque.maxlen", lambda I, a, k: a[0].d.get("#max")))
    for n in ("__eq__", "__ne__"):
        dq.ns[n] = Native("deque." + n, lambda I, a, k, n=n: NotImplemented if not (
            isinstance(a[1], Obj) and a[1].cls.issub(dq)) else
            I.seq_eq(a[0].p, a[1].p) == (n == "__eq__"))

    def bounded(name, left):
        f = dq.ns[name]

        def g(I, a, k):
            r = f.fn(I, a, k)
            m = a[0].d.get("#max")
            if m is not None and len(a[0].p) > m:
                a[0].p[:] = a[0].p[:m] if left else a[0].p[len(a[0].p) - m:]
            return r
        dq.ns[name] = Native("deque." + name, g)
    for n in ("append", "extend", "__iadd__"):
        bounded(n, False)
    for n in ("appendleft", "extendleft"):
        bounded(n, True)

    def dq_init(I, a, k):
        m = a[2] if len(a) > 2 else k.get("maxlen")
        if m is not None:
            a[0].d["#max"] = to_host(m)
        if len(a) > 1:
            I.call(dq.ns["extend"], a[:2], {})
    dq.ns["__init__"] = Native("deque.__init__", dq_init)
    return d


def m_abc(I):
    B = I.builtins
    meta = I.native_class("ABCMeta", [B["type"]])

    def register(I, a, k):
        touch(a[0])
        a[0].virtual = tuple(a[0].virtual) + (a[1],)
        return a[1]
    meta.ns["register"] = Native("ABCMeta.register", register)
    abc = ClassVal("ABC", [B["object"]], {}, meta, native=True)

    def absm(I, a, k):
        f = a[0]
        if isinstance(f, FuncVal):
            touch(f)
            f.d["__isabstractmethod__"] = True
        elif isinstance(f, (StaticM, ClassM)) and isinstance(f.f, FuncVal):
            f.f.d["__isabstractmethod__"] = True
        elif isinstance(f, PropVal) and isinstance(f.fget, FuncVal):
            f.fget.d["__isabstractmethod__"] = True
        return f
    return {"ABCMeta": meta, "ABC": abc, "abstractmethod": Native("abstractmethod", absm),
            "abstractproperty": Native("abstractproperty", lambda I, a, k: PropVal(
                absm(I, a, k)))}


# ------------------------------------------------------------------ functools
def m_functools(I):
    B = I.builtins
    d = {}

    def lru_cache(I, a, k):
        if a and not isinstance(a[0], (int, type(None), bool)):
            return CachedFn(a[0])
        typed = I.truth(k.get("typed", a[1] if len(a) > 1 else False))
        return Native("lru_cache()", lambda I, b, kk: CachedFn(b[0], typed))
    d["lru_cache"] = Native("lru_cache", lru_cache)
    d["cache"] = Native("cache", lambda I, a, k: CachedFn(a[0]))

    def update(I, dst, src):
        if isinstance(dst, (FuncVal, CachedFn)):
            touch(dst)
            dst.d["__wrapped__"] = src
            n = I.getattr(src, "__name__", None)
            if isinstance(n, str):
                dst.d["__name__"] = n
            if isinstance(src, (FuncVal, CachedFn)):
                for kk, v in src.d.items():
                    if kk not in ("__wrapped__", "__name__"):
                        dst.d[kk] = v
        return dst
    d["wraps"] = Native("wraps", lambda I, a, k: Native("wraps()", lambda I, b, kk: update(
        I, b[0], a[0])))
    d["update_wrapper"] = Native("update_wrapper", lambda I, a, k: update(I, a[0], a[1]))

    lib = I.pylib("functools")
    for n in ("partial", "partialmethod", "total_ordering", "cmp_to_key", "singledispatch",
              "singledispatchmethod"):
        d[n] = lib[n]

    def reduce(I, a, k):
        it = I.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            acc = next(it, _NO)
            if acc is _NO:
                I.raise_("TypeError", "reduce() of empty iterable with no initial value")
        for x in it:
            acc = I.call(a[0], [acc, x], {})
        return acc
    d["reduce"] = Native("reduce", reduce)

    def cached_property(I, a, k):
        p = PropVal(a[0])
        p.cached = I.getattr(a[0], "__name__")
        return p
    d["cached_property"] = Native("cached_property", cached_property)

    d["WRAPPER_ASSIGNMENTS"] = Tup(["__module__", "__name__", "__qualname__", "__doc__"])
    return d


# ------------------------------------------------------------------ inspect
def unwrap(I, f):
    n = 0
    while True:
        if isinstance(f, CachedFn):
            f = f.f
        elif isinstance(f, (StaticM, ClassM)):
            f = f.f
        elif isinstance(f, (FuncVal,)) and "__wrapped__" in f.d:
            f = f.d["__wrapped__"]
        else:
            return f
        n += 1


def m_inspect(I):
    B = I.builtins
    d = {}
    pc = I.native_class("Parameter")
    kinds = {}
    for n in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY",
              "VAR_KEYWORD"):
        e = Ext("inspect.Parameter." + n)
        kinds[n] = e
        pc.ns[n] = e
    pc.ns["empty"] = I.param_empty
    d["Parameter"] = pc
    d["_empty"] = I.param_empty
    sc = I.native_class("Signature")
    sc.ns["empty"] = I.param_empty
    fa = I.native_class("FullArgSpec")

    def params(I, f, follow=True):
        drop = 0
        if isinstance(f, ClassVal):
            f = f.lookup("__init__")
            drop = 1
        while isinstance(f, BoundM):
            drop += 1
            f = f.func
        if follow:
            f = unwrap(I, f)
        elif isinstance(f, CachedFn):
            f = f.f
        out = []

        def mk(arg, kind, default):
            p = Obj(pc)
            p.d.update(name=arg.arg, kind=kinds[kind], default=default)
            if isinstance(f, FuncVal):
                p.d["annotation"] = I.annotation(f, arg)
            return p
        if isinstance(f, Native):
            x = ast.arg("self"), ast.arg("args"), ast.arg("kwargs")
            out = [mk(x[0], "POSITIONAL_OR_KEYWORD", I.param_empty),
                   mk(x[1], "VAR_POSITIONAL", I.param_empty),
                   mk(x[2], "VAR_KEYWORD", I.param_empty)]
            return out[drop:]
        if not isinstance(f, FuncVal):
            I.raise_("TypeError", "unsupported callable")
        a = f.node.args
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        for i, arg in enumerate(pos):
            j = i - (len(pos) - nd)
            out.append(mk(arg, "POSITIONAL_ONLY" if i < len(a.posonlyargs) else
                          "POSITIONAL_OR_KEYWORD", f.defaults[j] if j >= 0 else I.param_empty))
        if a.vararg:
            out.append(mk(a.vararg, "VAR_POSITIONAL", I.param_empty))
        for arg in a.kwonlyargs:
            out.append(mk(arg, "KEYWORD_ONLY", f.kwdefaults.get(arg.arg, I.param_empty)))
        if a.kwarg:
            out.append(mk(a.kwarg, "VAR_KEYWORD", I.param_empty))
        return out[drop:]

    def signature(I, a, k):
        o = Obj(sc)
        o.d["parameters"] = I.new_dict([(p.d["name"], p) for p in params(I, a[0])])
        o.d["return_annotation"] = I.param_empty
        return o
    d["signature"] = Native("signature", signature)
    ba = I.native_class("BoundArguments")

    def bind(I, a, k, partial=False):
        ps = a[0].d["parameters"].p.values()
        left, kw = list(a[1:]), dict(k)
        out = []
        for p in ps:
            kind, n = p.d["kind"], p.d["name"]
            if kind is kinds["VAR_POSITIONAL"]:
                if left:
                    out.append((n, Tup(left)))
                left = []
            elif kind is kinds["VAR_KEYWORD"]:
                if kw:
                    out.append((n, I.new_dict(list(kw.items()))))
                kw = {}
            elif kind is not kinds["KEYWORD_ONLY"] and left:
                if n in kw and kind is not kinds["POSITIONAL_ONLY"]:
                    I.raise_("TypeError", f"multiple values for argument '{n}'")
                out.append((n, left.pop(0)))
            elif n in kw and kind is not kinds["POSITIONAL_ONLY"]:
                out.append((n, kw.pop(n)))
            elif p.d["default"] is I.param_empty and not partial:
                I.raise_("TypeError", f"missing a required argument: '{n}'")
        if left:
            I.raise_("TypeError", "too many positional arguments")
        if kw:
            I.raise_("TypeError", f"got an unexpected keyword argument '{next(iter(kw))}'")
        b = Obj(ba)
        b.d["arguments"], b.d["signature"] = I.new_dict(out), a[0]
        return b
    sc.ns["bind"] = Native("Signature.bind", bind)
    sc.ns["bind_partial"] = Native("Signature.bind_partial",
                                   lambda I, a, k: bind(I, a, k, True))

    def apply_defaults(I, a, k):
        old = a[0].d["arguments"]
        new = []
        for p in a[0].d["signature"].d["parameters"].p.values():
            n, kind = p.d["name"], p.d["kind"]
            x = old.p.find(I, n)
            if x is not None:
                new.append((n, x[2]))
            elif p.d["default"] is not I.param_empty:
                new.append((n, p.d["default"]))
            elif kind is kinds["VAR_POSITIONAL"]:
                new.append((n, Tup()))
            elif kind is kinds["VAR_KEYWORD"]:
                new.append((n, I.new_dict()))
        a[0].d["arguments"] = I.new_dict(new)
    ba.ns["apply_defaults"] = Native("apply_defaults", apply_defaults)

    def spread(I, a, k, want):
        pos, kw = [], []
        for p in a[0].d["signature"].d["parameters"].p.values():
            x = a[0].d["arguments"].p.find(I, p.d["name"])
            if x is None:
                continue
            kind = p.d["kind"]
            if kind is kinds["VAR_POSITIONAL"]:
                pos += host_seq(I, x[2])
            elif kind is kinds["VAR_KEYWORD"]:
                kw += I.mapping_items(x[2])
            elif kind is kinds["KEYWORD_ONLY"]:
                kw.append((p.d["name"], x[2]))
            else:
                pos.append(x[2])
        return Tup(pos) if want == "args" else I.new_dict(kw)
    ba.ns["args"] = PropVal(Native("args", lambda I, a, k: spread(I, a, k, "args")))
    ba.ns["kwargs"] = PropVal(Native("kwargs", lambda I, a, k: spread(I, a, k, "kwargs")))

    def getfullargspec(I, a, k):
        ps = params(I, a[0], follow=False)
        if isinstance(a[0], BoundM):
            ps = params(I, a[0].func, follow=False)
        o = Obj(fa)
        po = [p for p in ps if p.d["kind"] in (kinds["POSITIONAL_ONLY"],
                                              kinds["POSITIONAL_OR_KEYWORD"])]
        ko = [p for p in ps if p.d["kind"] is kinds["KEYWORD_ONLY"]]
        o.d["args"] = I.new_list([p.d["name"] for p in po])
        o.d["varargs"] = next((p.d["name"] for p in ps
                               if p.d["kind"] is kinds["VAR_POSITIONAL"]), None)
        o.d["varkw"] = next((p.d["name"] for p in ps if p.d["kind"] is kinds["VAR_KEYWORD"]), None)
        df = [p.d["default"] for p in po if p.d["default"] is not I.param_empty]
        o.d["defaults"] = Tup(df) if df else None
        o.d["kwonlyargs"] = I.new_list([p.d["name"] for p in ko])
        o.d["kwonlydefaults"] = I.new_dict([(p.d["name"], p.d["default"]) for p in ko
                                            if p.d["default"] is not I.param_empty])
        o.d["annotations"] = I.new_dict([
            (p.d["name"], p.d["annotation"]) for p in ps
            if p.d.get("annotation", I.param_empty) is not I.param_empty])
        return o
    d["getfullargspec"] = Native("getfullargspec", getfullargspec)

    def getmodule(I, a, k):
        v = a[0]
        if isinstance(v, ModuleVal):
            return v
        if isinstance(v, BoundM):
            v = v.func
        v = unwrap(I, v) if isinstance(v, (CachedFn, StaticM, ClassM)) else v
        if isinstance(v, FuncVal):
            return v.module
        if isinstance(v, ClassVal):
            return v.module
        return None
    d["getmodule"] = Native("getmodule", getmodule)

    def getmembers(I, a, k):
        v = a[0]
        if isinstance(v, ModuleVal):
            items = list(v.ns.items())
        elif isinstance(v, ClassVal):
            items = [(n, I.class_getattr(v, n)) for n in
                     sorted({n for c in v.mro for n in c.ns})]
        else:
            names = sorted({n for c in I.type_of(v).mro for n in c.ns} |
                           set(getattr(v, "d", {})))
            items = [(n, I.getattr(v, n)) for n in names]
        out = []
        for n, x in sorted(items, key=lambda t: t[0]):
            if len(a) < 2 or a[1] is None or I.truth(I.call(a[1], [x], {})):
                out.append(Tup([n, x]))
        return I.new_list(out)
    d["getmembers"] = Native("getmembers", getmembers)
    d["isclass"] = Native("isclass", lambda I, a, k: isinstance(a[0], ClassVal))
    d["isfunction"] = Native("isfunction", lambda I, a, k: isinstance(a[0], FuncVal))
    d["ismethod"] = Native("ismethod", lambda I, a, k: isinstance(a[0], BoundM))
    d["isroutine"] = Native("isroutine", lambda I, a, k: isinstance(a[0], (FuncVal, BoundM,
                                                                           Native)))
    d["isabstract"] = Native("isabstract", lambda I, a, k: isinstance(a[0], ClassVal) and
                             bool(a[0].abstract))
    d["isgenerator"] = Native("isgenerator", lambda I, a, k: isinstance(a[0], GenVal))
    d["unwrap"] = Native("unwrap", lambda I, a, k: unwrap(I, a[0]))
    d["getmro"] = Native("getmro", lambda I, a, k: Tup(a[0].mro))
    return d


# ------------------------------------------------------------------ json
def json_tree(I, v, enc, k, active):
    B = I.builtins
    if isinstance(v, (type(None), bool, int, float, str)):
        return v
    if isinstance(v, Obj) and isinstance(v.p, (str, Atom)) and v.cls.issub(B["str"]):
        return v.p
    if isinstance(v, Obj) and isinstance(v.p, (int, float)):
        return v.p
    if isinstance(v, Atom):
        if any(v.cls.issub(B[n]) for n in ("str", "int", "float")):
            if v.cls not in (B["str"], B["int"], B["float"], B["bool"]):
                raise Unsupported("json of subclass atom")
            return v
    seq = None
    if isinstance(v, Tup):
        seq = v.items
    elif isinstance(v, Obj) and isinstance(v.p, Tup):
        seq = v.p.items
    elif isinstance(v, Obj) and isinstance(v.p, list) and v.cls.issub(B["list"]):
        seq = v.p
    key = id(v)
    if key in active:
        I.raise_("ValueError", "Circular reference detected")
    if seq is not None:
        active.add(key)
        out = ("list", [json_tree(I, x, enc, k, active) for x in seq])
        active.discard(key)
        return out
    if I.is_mapping(v):
        active.add(key)
        items = []
        for a, b in v.p.items():
            if isinstance(a, Obj) and isinstance(a.p, (str, Atom)):
                a = a.p
            if isinstance(a, bool) or a is None:
                a2 = {True: "true", False: "false", None: "null"}[a]
            elif isinstance(a, (int, float)):
                a2 = str(a)
            elif isinstance(a, str) or isinstance(a, Atom) and a.cls is B["str"]:
                a2 = a
            elif isinstance(a, Atom) and I.numeric(a) is not None:
                a2 = I.term("str", B["str"], a)
            elif I.truth(k.get("skipkeys", False)):
                continue
            else:
                I.raise_("TypeError", "keys must be str, int, float, bool or None, not "
                                      f"{I.type_of(a).name}")
            items.append((a2, b))
        if I.truth(k.get("sort_keys", False)):
            order = sort_values(I, [Tup([a, i]) for i, (a, _) in enumerate(items)],
                                Native("k", lambda I, x, kk: x[0].items[0]))
            items = [items[t.items[1]] for t in order]
        out = ("dict", [(a, json_tree(I, b, enc, k, active)) for a, b in items])
        active.discard(key)
        return out
    if enc is None:
        I.raise_("TypeError", f"Object of type {I.type_of(v).name} is not JSON serializable")
    active.add(key)
    r = I.call(I.getattr(enc, "default"), [v], {})
    out = json_tree(I, r, enc, k, active)
    active.discard(key)
    return out


def json_build(I, t, hook, pairs_hook=None):
    if isinstance(t, tuple) and t[0] == "list":
        return I.new_list([json_build(I, x, hook, pairs_hook) for x in t[1]])
    if isinstance(t, tuple) and t[0] == "dict":
        items = [(a, json_build(I, b, hook, pairs_hook)) for a, b in t[1]]
        if pairs_hook is not None:
            return I.call(pairs_hook, [I.new_list([Tup(x) for x in items])], {})
        d = I.new_dict(items)
        if hook is not None:
            return I.call(hook, [d], {})
        return d
    return t


def host_tree(v):
    if isinstance(v, dict):
        return ("dict", [(k, host_tree(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [host_tree(x) for x in v])
    return v


def m_json(I):
    B = I.builtins
    enc = I.native_class("JSONEncoder")
    fields = ("skipkeys", "sort_keys", "indent", "separators", "ensure_ascii", "check_circular",
              "allow_nan", "default")

    def enc_init(I, a, k):
        touch(a[0])
        a[0].d["#kw"] = dict(k)
        if k.get("default") is not None:
            a[0].d["default"] = k["default"]
    enc.ns["__init__"] = Native("JSONEncoder.__init__", enc_init)

    def enc_default(I, a, k):
        I.raise_("TypeError", f"Object of type {I.type_of(a[-1]).name} is not JSON serializable")
    enc.ns["default"] = Native("JSONEncoder.default", enc_default)
    enc.ns["encode"] = Native("JSONEncoder.encode", lambda I, a, k: JsonText(
        json_tree(I, a[1], a[0], a[0].d.get("#kw", {}), set())))

    def dumps(I, a, k):
        c = k.get("cls")
        kw = {x: y for x, y in k.items() if x in fields}
        bad = [x for x in k if x not in fields and x != "cls"]
        if c is None and "default" not in k:
            e = None
            if bad:
                I.raise_("TypeError", f"unexpected keyword argument {bad[0]}")
        else:
            e = I.call(c if c is not None else enc, [], {x: y for x, y in k.items() if x != "cls"})
        return JsonText(json_tree(I, a[0], e, kw, set()))

    def loads(I, a, k):
        t = a[0]
        hook = k.get("object_hook")
        ph = k.get("object_pairs_hook")
        bad = [x for x in k if x not in ("object_hook", "object_pairs_hook", "cls", "parse_float",
                                         "parse_int", "parse_constant", "strict")]
        if bad:
            I.raise_("TypeError", f"unexpected keyword argument {bad[0]}")
        if isinstance(t, JsonText):
            return json_build(I, t.tree, hook, ph)
        if isinstance(t, str):
            import json
            try:
                return json_build(I, host_tree(json.loads(t)), hook, ph)
            except ValueError:
                I.raise_(dec, "Expecting value")
        if isinstance(t, Atom) and t.cls.issub(B["str"]):
            I.raise_(dec, "Expecting value")
        I.raise_("TypeError", "the JSON object must be str, bytes or bytearray")
    dec = I.native_class("JSONDecodeError", [B["ValueError"]])
    decoder = I.native_class("JSONDecoder")

    def dec_init(I, a, k):
        touch(a[0])
        a[0].d["#kw"] = dict(k)
    decoder.ns["__init__"] = Native("JSONDecoder.__init__", dec_init)
    decoder.ns["decode"] = Native("JSONDecoder.decode", lambda I, a, k: loads(
        I, [a[1]], a[0].d["#kw"]))
    return {"JSONDecoder": decoder, "JSONEncoder": enc, "dumps": Native("json.dumps", dumps),
            "loads": Native("json.loads", loads), "JSONDecodeError": dec,
            "dump": Native("json.dump", lambda I, a, k: I.meth(a[1], "write",
                                                               dumps(I, [a[0]], k))),
            "load": Native("json.load", lambda I, a, k: loads(I, [I.meth(a[0], "read")], k))}


# ------------------------------------------------------------------ small modules
def m_logging(I):
    c = I.native_class("Logger")
    for lv in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
        def f(I, a, k, lv=lv):
            I.events.append(("log", lv, a[1] if len(a) > 1 else "", I.where()))
        c.ns[lv] = Native("logger." + lv, f)
    for n in ("setLevel", "addHandler", "removeHandler"):
        def g(I, a, k, n=n):
            I.events.append(("logcfg", n, None, I.where()))
        c.ns[n] = Native("logger." + n, g)
    c.ns["isEnabledFor"] = Native("logger.isEnabledFor", lambda I, a, k: Atom(
        "logger.isEnabledFor()", I.builtins["bool"]))
    c.ns["hasHandlers"] = Native("logger.hasHandlers", lambda I, a, k: True)
    c.ns["getEffectiveLevel"] = Native("logger.getEffectiveLevel", lambda I, a, k: 0)
    c.ns["getChild"] = Native("logger.getChild", lambda I, a, k: get(
        I, [I.concat([a[0].d["name"], ".", a[1]])], {}))
    c.ns["level"], c.ns["disabled"], c.ns["propagate"] = 0, False, True
    loggers = {}

    def get(I, a, k):
        n = a[0] if a else "root"
        if n not in loggers:
            loggers[n] = Obj(c)
            loggers[n].d["name"] = n
            loggers[n].label = f"logger {n}"
        return loggers[n]
    d = {"getLogger": Native("getLogger", get), "Logger": c}
    for lv in ("debug", "info", "warning", "error", "critical"):
        def f(I, a, k, lv=lv):
            I.events.append(("log", lv, a[0] if a else "", I.where()))
        d[lv] = Native("logging." + lv, f)
    for i, n in enumerate(("NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")):
        d[n] = i * 10
    return d


def m_warnings(I):
    B = I.builtins
    wm = I.native_class("WarningMessage")

    def warn(I, a, k):
        msg = a[0] if a else k.get("message", "")
        cat = a[1] if len(a) > 1 else k.get("category")
        I.events.append(("warn", msg, cat, I.where()))
        rec = I.id_map.get("recording")
        if rec:
            m = Obj(wm)
            if not (isinstance(msg, Obj) and msg.cls.issub(B["Warning"])):
                c2 = cat if cat is not None else B["UserWarning"]
                m.d["message"], m.d["category"] = I.call(c2, [msg], {}), c2
            else:
                m.d["message"], m.d["category"] = msg, msg.cls
            rec[-1].p.append(m)

    def cfg(name):
        def f(I, a, k):
            I.events.append(("warncfg", name, None, I.where()))
        return Native("warnings." + name, f)
    c = I.native_class("catch_warnings")

    def init(I, a, k):
        a[0].d["#rec"] = I.truth(k.get("record", False))

    def enter(I, a, k):
        if not a[0].d["#rec"]:
            return None
        xs = I.new_list()
        I.id_map.setdefault("recording", []).append(xs)
        return xs

    def leave(I, a, k):
        if a[0].d["#rec"] and I.id_map.get("recording"):
            I.id_map["recording"].pop()
        return False
    c.ns["__init__"] = Native("catch_warnings", init)
    c.ns["__enter__"] = Native("catch_warnings.__enter__", enter)
    c.ns["__exit__"] = Native("catch_warnings.__exit__", leave)
    return {"warn": Native("warnings.warn", warn), "simplefilter": cfg("simplefilter"),
            "filterwarnings": cfg("filterwarnings"), "resetwarnings": cfg("resetwarnings"),
            "catch_warnings": c}


def m_uuid(I):
    c = I.native_class("UUID")

    def new(I, a, k):
        o = Obj(a[0])
        o.d["#src"] = a[1] if len(a) > 1 else None
        return o
    import uuid as hu

    def new(I, a, k):
        o = Obj(a[0])
        v = a[1] if len(a) > 1 else k.get("hex")
        v = I.strval(v)
        if isinstance(v, str):
            try:
                v = str(hu.UUID(v))
            except ValueError:
                I.raise_("ValueError", "badly formed hexadecimal UUID string")
        elif v is not None and not I.type_of(v).issub(I.builtins["str"]):
            I.raise_("AttributeError", "object has no attribute 'replace'")
        o.d["#src"] = v
        return o
    c.ns["__new__"] = StaticM(Native("UUID.__new__", new))
    c.ns["__init__"] = Native("UUID.__init__", lambda I, a, k: None)
    c.ns["__str__"] = Native("UUID.__str__", lambda I, a, k: a[0].d.get("#src") or I.term(
        "str", I.builtins["str"], a[0]))
    c.ns["hex"] = PropVal(Native("UUID.hex", lambda I, a, k: a[0].d["#src"].replace("-", "")
                                 if isinstance(a[0].d.get("#src"), str) else I.term(
        "hex", I.builtins["str"], a[0])))
    c.ns["__repr__"] = Native("UUID.__repr__", lambda I, a, k: I.concat(
        ["UUID('", I.to_str(a[0]), "')"]))

    def ueq(I, a, k):
        if not (isinstance(a[1], Obj) and a[1].cls is c):
            return NotImplemented
        x, y = a[0].d.get("#src"), a[1].d.get("#src")
        return a[0] is a[1] or x is not None and y is not None and I.truth(I.eq(x, y))
    c.ns["__eq__"] = Native("UUID.__eq__", ueq)
    c.ns["__hash__"] = Native("UUID.__hash__", lambda I, a, k: HashVal(
        ("uuid", I.hashkey(a[0].d["#src"])) if a[0].d.get("#src") is not None
        else ("o", a[0].oid)))

    def fresh(I, a, k):
        return Obj(c)
    d = {"UUID": c}
    for n in ("uuid1", "uuid4", "uuid3", "uuid5"):
        if n in ("uuid3", "uuid5"):
            def named(I, a, k, n=n):
                key = ("uuid", n, tuple(str(I.ident(x)) for x in a))
                if key not in I.id_map:
                    I.id_map[key] = Obj(c)
                return I.id_map[key]
            d[n] = Native(n, named)
        else:
            d[n] = Native(n, fresh)
    for n in ("NAMESPACE_DNS", "NAMESPACE_URL"):
        d[n] = Obj(c)
    return d


def m_re(I):
    B = I.builtins
    mc = I.native_class("Match")
    pc = I.native_class("Pattern")

    def wrap(mo):
        if mo is None:
            return None
        o = Obj(mc)
        o.d["#m"] = mo
        return o

    def mfn(name):
        def f(I, a, k):
            mo = a[0].d["#m"]
            return from_host(I, getattr(mo, name)(*[to_host(x) for x in a[1:]]))
        mc.ns[name] = Native("Match." + name, f)
    for n in ("group", "groups", "groupdict", "start", "end", "span"):
        mfn(n)
    mc.ns["__getitem__"] = mc.ns["group"]

    def pat(v):
        if isinstance(v, Obj) and "#re" in v.d:
            return v.d["#re"]
        return to_host(v)

    def symbolic(I, name, a):
        s = a[-1] if name != "sub" else a[2]
        s = I.strval(s)
        if not I.type_of(s).issub(B["str"]):
            I.raise_("TypeError", "expected string or bytes-like object")
        if isinstance(s, Atom):
            fl = s.flags.get("re")
            if fl is not None:
                r = fl(name, pat(a[0]))
                if r is not NotImplemented:
                    return from_host(I, r)
            if s.flags.get("plain") and name in ("match", "search", "fullmatch"):
                return None
            if s.flags.get("plain") and name == "sub":
                return s
        if name == "sub":
            return I.term("re.sub", B["str"], str(pat(a[0])), s, str(I.ident(a[1])))
        I.mark(f"regular expression on symbolic text {s!r}")
        if name in ("match", "search", "fullmatch"):
            if I.fork(f"re.{name}({pat(a[0])!r}, {s!r})"):
                raise Unsupported("match object on symbolic text")
            return None
        raise Unsupported(f"re.{name} on symbolic text")

    def fn(name):
        def f(I, a, k):
            try:
                p = pat(a[0])
                if name == "sub" and not isinstance(a[1], str):
                    s = to_host(a[2])
                    cb = a[1]
                    return hre.sub(p, lambda mo: to_host(I.call(cb, [wrap(mo)], {})), s)
                hargs = [to_host(x) for x in a[1:]]
            except Unsupported:
                return symbolic(I, name, a)
            kw = {x: to_host(y) for x, y in k.items()}
            try:
                r = getattr(hre, name)(p, *hargs, **kw)
            except TypeError:
                I.raise_("TypeError", "expected string or bytes-like object")
            except hre.error:
                I.raise_("ValueError", "regular expression error")
            if name in ("match", "search", "fullmatch"):
                return wrap(r)
            if name == "finditer":
                return GenVal(iter([wrap(x) for x in r]), "finditer")
            return from_host(I, r)
        return Native("re." + name, f)
    d = {n: fn(n) for n in ("match", "search", "fullmatch", "findall", "sub", "split", "finditer")}

    def comp(I, a, k):
        o = Obj(pc)
        o.d["#re"] = hre.compile(to_host(a[0]), *[int(to_host(x)) for x in a[1:]])
        o.d["pattern"] = a[0]
        return o
    d["compile"] = Native("re.compile", comp)
    for n in ("match", "search", "fullmatch", "findall", "sub", "split", "finditer"):
        pc.ns[n] = Native("Pattern." + n, lambda I, a, k, n=n: I.call(d[n], a, k))
    d["escape"] = Native("re.escape", lambda I, a, k: hre.escape(a[0]) if isinstance(a[0], str)
                         else I.term("escape", B["str"], a[0]))
    d["Match"] = mc
    d["Pattern"] = pc
    for n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "ASCII", "A"):
        d[n] = int(getattr(hre, n))
    return d


def m_math(I):
    B = I.builtins

    def num(I, v):
        n = I.numeric(v)
        if n is None:
            if isinstance(v, Atom) and v.cls is B["bool"] or isinstance(v, bool):
                return v
            if isinstance(v, Ext):
                return v
            I.raise_("TypeError", f"must be real number, not {I.type_of(v).name}")
        return n

    def pred(name, flagf):
        def f(I, a, k):
            v = num(I, a[0])
            if isinstance(v, (int, float)):
                try:
                    return getattr(math, name)(v)
                except OverflowError:
                    I.raise_("OverflowError", "int too large to convert to float")
            if isinstance(v, Ext):
                I.mark("math on external value")
                return I.fork(f"{name}({v!r})")
            return flagf(v.flags)
        return Native("math." + name, f)
    d = {"isfinite": pred("isfinite", lambda f: not (f.get("nan") or f.get("inf"))),
         "isnan": pred("isnan", lambda f: bool(f.get("nan"))),
         "isinf": pred("isinf", lambda f: bool(f.get("inf"))),
         "inf": math.inf, "nan": math.nan, "pi": math.pi, "e": math.e}

    def fn(name, cls):
        def f(I, a, k):
            vs = [num(I, x) for x in a]
            if all(isinstance(v, (int, float)) for v in vs):
                try:
                    return getattr(math, name)(*vs, **{x: to_host(y) for x, y in k.items()})
                except (ValueError, OverflowError) as e:
                    I.raise_(type(e).__name__, str(e))
            return I.term("math." + name, B[cls], *vs)
        d[name] = Native("math." + name, f)
    for n in ("floor", "ceil", "trunc", "comb", "perm", "factorial", "gcd", "lcm", "isqrt"):
        fn(n, "int")
    for n in ("sqrt", "log", "log10", "log2", "log1p", "exp", "expm1", "fabs", "copysign", "pow",
              "hypot", "fmod", "cbrt", "sin", "cos", "tan", "atan", "atan2", "degrees", "radians",
              "ldexp", "nextafter", "ulp", "remainder"):
        fn(n, "float")
    d["tau"] = math.tau

    def total(name):
        def f(I, a, k):
            xs = host_seq(I, a[0])
            if all(isinstance(I.numeric(x), (int, float)) for x in xs):
                return getattr(math, name)([I.numeric(x) for x in xs])
            return I.term("math." + name, B["float"], *xs)
        d[name] = Native("math." + name, f)
    total("fsum")
    total("prod")

    def modf(I, a, k):
        v = num(I, a[0])
        if isinstance(v, (int, float)):
            return Tup(math.modf(v))
        return Tup([I.term("math.modf0", B["float"], v), I.term("math.modf1", B["float"], v)])
    d["modf"] = Native("math.modf", modf)

    def isclose(I, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            return math.isclose(*a, **{x: to_host(y) for x, y in k.items()})
        if a[0] is a[1]:
            return True
        I.mark("math.isclose on symbolic numbers")
        return I.fork("isclose", ("isclose",) + tuple(sorted(str(I.ident(x)) for x in a)))
    d["isclose"] = Native("math.isclose", isclose)
    return d


def m_enum(I):
    B = I.builtins
    meta = I.native_class("EnumMeta", [B["type"]])

    def gi(I, a, k):
        for m in a[0].enum or []:
            if I.truth(I.eq(m.d["_name_"], a[1])):
                return m
        v = a[0].ns.get(a[1]) if isinstance(a[1], str) else None
        if isinstance(v, Obj) and v.cls is a[0]:
            return v
        I.raise_("KeyError", a[1])
    meta.ns["__getitem__"] = Native("EnumMeta.__getitem__", gi)
    meta.ns["__iter__"] = Native("EnumMeta.__iter__", lambda I, a, k: GenVal(iter(list(
        a[0].enum or [])), "enum"))
    meta.ns["__len__"] = Native("EnumMeta.__len__", lambda I, a, k: len(a[0].enum or []))
    meta.ns["__contains__"] = Native("EnumMeta.__contains__", lambda I, a, k: any(
        a[1] is m for m in a[0].enum or []))
    meta.ns["__call__"] = Native("EnumMeta.__call__", lambda I, a, k: I.type_call(a[0], a[1:], k))
    E = ClassVal("Enum", [B["object"]], {}, meta, native=True)
    E.enum = []
    E.ns["value"] = PropVal(Native("Enum.value", lambda I, a, k: a[0].d["_value_"]))
    E.ns["name"] = PropVal(Native("Enum.name", lambda I, a, k: a[0].d["_name_"]))
    ie = ClassVal("IntEnum", [B["int"], E], {}, meta, native=True)
    ie.enum = []
    se = ClassVal("StrEnum", [B["str"], E], {}, meta, native=True)
    se.enum = []

    def auto(I, a, k):
        o = Obj(B["object"])
        o.d["__enum_auto__"] = True
        return o
    return {"Enum": E, "IntEnum": ie, "StrEnum": se, "EnumMeta": meta, "EnumType": meta,
            "auto": Native("enum.auto", auto), "unique": identity("enum.unique")}


def m_contextlib(I):
    c = I.native_class("_GeneratorContextManager")

    def enter(I, a, k):
        try:
            return next(a[0].d["#gen"].it)
        except StopIteration:
            I.raise_("RuntimeError", "generator didn't yield")
    c.ns["__enter__"] = Native("cm.__enter__", enter)

    def exit_(I, a, k):
        g = a[0].d["#gen"].it
        e = a[3] if len(a) > 3 and isinstance(a[3], PyExc) else None
        if e is None and len(a) > 2 and isinstance(a[2], Obj):
            e = PyExc(a[2], I.where())
        if e is None:
            try:
                next(g)
            except StopIteration:
                return False
            I.raise_("RuntimeError", "generator didn't stop")
        try:
            g.throw(e)
        except StopIteration:
            return True
        except PyExc as e2:
            if e2 is e or e2.value is e.value:
                return False
            if e2.value.cls.issub(I.builtins["RuntimeError"]) and e.value.cls.issub(
                    I.builtins["StopIteration"]) and e2.value.d.get("__cause__") is e.value:
                return False
            raise
        I.raise_("RuntimeError", "generator didn't stop after throw()")
    c.ns["__exit__"] = Native("cm.__exit__", exit_)

    def contextmanager(I, a, k):
        f = a[0]

        def make(I, b, kk):
            o = Obj(c)
            g = I.call(f, b, kk)
            if not isinstance(g, GenVal):
                raise Unsupported("contextmanager over non-generator")
            o.d["#gen"] = g
            o.d["#again"] = lambda: make(I, b, kk)
            return o
        n = Native("contextmanager", make)
        n.d["__wrapped__"] = f
        n.d["__name__"] = I.getattr(f, "__name__", "cm")
        return n
    sp = I.native_class("suppress")

    def sp_init(I, a, k):
        a[0].d["#excs"] = Tup(a[1:])
    sp.ns["__init__"] = Native("suppress.__init__", sp_init)
    sp.ns["__enter__"] = Native("suppress.__enter__", lambda I, a, k: None)
    sp.ns["__exit__"] = Native("suppress.__exit__", lambda I, a, k: isinstance(a[2], Obj) and any(
        a[2].cls.issub(I.as_class(x)) for x in a[0].d["#excs"].items))
    nc = I.native_class("nullcontext")
    nc.ns["__init__"] = Native("nullcontext.__init__", lambda I, a, k: a[0].d.__setitem__(
        "enter_result", a[1] if len(a) > 1 else None))
    nc.ns["__enter__"] = Native("nullcontext.__enter__", lambda I, a, k: a[0].d["enter_result"])
    nc.ns["__exit__"] = Native("nullcontext.__exit__", lambda I, a, k: False)
    ch = I.native_class("chdir")

    def ch_init(I, a, k):
        touch(a[0])
        a[0].d["path"] = a[1] if len(a) > 1 else k["path"]
        a[0].d["_old_cwd"] = I.new_list([])

    def ch_enter(I, a, k):
        I.load("os")
        I.meth(a[0].d["_old_cwd"], "append", I.proc.d["cwd"].d["#key"])
        change_dir(I, a[0].d["path"])

    def ch_exit(I, a, k):
        change_dir(I, I.meth(a[0].d["_old_cwd"], "pop"))
    ch.ns["__init__"] = Native("chdir.__init__", ch_init)
    ch.ns["__enter__"] = Native("chdir.__enter__", ch_enter)
    ch.ns["__exit__"] = Native("chdir.__exit__", ch_exit)
    cd = I.native_class("ContextDecorator")

    def recreate(I, o):
        again = o.d.get("#again")
        if again is not None:
            return again()
        f = I.getattr(o, "_recreate_cm", None)
        return o if f is None else I.call(f, [], {})

    def decorate(I, a, k):
        me, f = a

        def inner(I, b, kk):
            m = recreate(I, me)
            I.cm_enter(m)
            try:
                out = I.call(f, b, kk)
            except PyExc as e:
                if I.truth(I.cm_exit(m, e)):
                    return None
                raise
            I.cm_exit(m, None)
            return out
        n = Native(I.getattr(f, "__name__", "inner"), inner)
        n.d["__wrapped__"] = f
        for x in ("__name__", "__doc__", "__qualname__", "__module__"):
            n.d[x] = I.getattr(f, x, None)
        return n
    cd.ns["__call__"] = Native("ContextDecorator.__call__", decorate)
    c.ns["__call__"] = cd.ns["__call__"]
    acm = I.native_class("AbstractContextManager")
    acm.ns["__enter__"] = Native("acm.__enter__", lambda I, a, k: a[0])
    es = I.native_class("ExitStack")

    def es_push(o, x):
        touch(o)
        o.d["#cbs"] = o.d["#cbs"] + (x,)

    def es_init(I, a, k):
        touch(a[0])
        a[0].d["#cbs"] = ()

    def es_enter_context(I, a, k):
        v = I.cm_enter(a[1])
        es_push(a[0], lambda e, m=a[1]: I.truth(I.cm_exit(m, e)))
        return v

    def es_callback(I, a, k):
        def run(e, f=a[1], x=list(a[2:]), kk=dict(k)):
            I.call(f, x, kk)
            return False
        es_push(a[0], run)
        return a[1]

    def es_pushm(I, a, k):
        x = a[1]
        if I.type_of(x).lookup("__exit__") is not MISSING:
            es_push(a[0], lambda e: I.truth(I.cm_exit(x, e)))
        else:
            es_push(a[0], lambda e: I.truth(I.call(
                x, [None, None, None] if e is None else [e.value.cls, e.value, None], {})))
        return x

    def es_exit(I, a, k):
        o = a[0]
        e = a[3] if len(a) > 3 and isinstance(a[3], PyExc) else None
        if e is None and len(a) > 2 and isinstance(a[2], Obj):
            e = PyExc(a[2], I.where())
        first = e
        while o.d["#cbs"]:
            f = o.d["#cbs"][-1]
            touch(o)
            o.d["#cbs"] = o.d["#cbs"][:-1]
            try:
                if f(e):
                    e = None
            except PyExc as e2:
                e = e2
        if e is None:
            return first is not None
        if first is not None and (e is first or e.value is first.value):
            return False
        raise e

    def es_pop_all(I, a, k):
        o = I.call(es, [], {})
        touch(a[0])
        o.d["#cbs"], a[0].d["#cbs"] = a[0].d["#cbs"], ()
        return o
    for n, f in (("__init__", es_init), ("__enter__", lambda I, a, k: a[0]),
                 ("__exit__", es_exit), ("enter_context", es_enter_context),
                 ("callback", es_callback), ("push", es_pushm), ("pop_all", es_pop_all),
                 ("close", lambda I, a, k: es_exit(I, [a[0], None, None, None], {}) and None)):
        es.ns[n] = Native("ExitStack." + n, f)
    cl = I.native_class("closing")

    def cl_init(I, a, k):
        a[0].d["thing"] = a[1]
    cl.ns["__init__"] = Native("closing.__init__", cl_init)
    cl.ns["__enter__"] = Native("closing.__enter__", lambda I, a, k: a[0].d["thing"])
    cl.ns["__exit__"] = Native("closing.__exit__", lambda I, a, k: I.meth(
        a[0].d["thing"], "close") and None)
    return {"contextmanager": Native("contextmanager", contextmanager), "suppress": sp,
            "nullcontext": nc, "chdir": ch, "ContextDecorator": cd, "ExitStack": es,
            "closing": cl, "AbstractContextManager": acm}


# ------------------------------------------------------------------ copy
def default_reduce(I, o):
    c = o.cls
    st = I.new_dict(list(o.d.items())) if o.d else None
    li = GenVal(iter(list(o.p)), "listitems") if isinstance(o.p, list) else None
    di = GenVal(iter([Tup(x) for x in o.p.items()]), "dictitems") if I.is_mapping(o) else None
    newobj = Native("copyreg.__newobj__", lambda I, a, k: I.call(
        I.getattr(a[0], "__new__"), list(a), {}))
    return Tup([newobj, Tup([c]), st, li, di])


def reconstruct(I, o, red, deep, memo):
    items = list(red.items) + [None] * (5 - len(red.items))
    f, args, state, li, di = items[:5]
    a = [deepcopy(I, x, memo) if deep else x for x in args.items]
    y = I.call(f, a, {})
    if deep:
        memo[id(o)] = (y, o)
    if state is not None:
        if deep:
            state = deepcopy(I, state, memo)
        ss = I.type_of(y).lookup("__setstate__")
        if ss is not MISSING:
            I.call(I.bind(ss, y, I.type_of(y)), [state], {})
        else:
            touch(y)
            for k, v in I.mapping_items(state):
                y.d[k] = v
    if li is not None:
        for x in I.iterate(li):
            I.meth(y, "append", deepcopy(I, x, memo) if deep else x)
    if di is not None:
        for t in I.iterate(di):
            k, v = t.items
            if deep:
                k, v = deepcopy(I, k, memo), deepcopy(I, v, memo)
            I.setitem(y, k, v)
    return y


def shallow(I, v):
    if not isinstance(v, Obj):
        return v
    if v.cls.enum is not None:
        return v
    m = v.cls.lookup("__copy__")
    if m is not MISSING:
        return I.call(I.bind(m, v, v.cls), [], {})
    B = I.builtins
    if v.cls is B["list"]:
        return I.new_list(v.p)
    if v.cls is B["dict"]:
        return I.new_dict(v.p.items())
    if v.cls is B["set"]:
        return I.new_set(v.p.keys())
    if v.cls is B["frozenset"]:
        return v
    return reconstruct(I, v, get_reduce(I, v), False, {})


def get_reduce(I, v):
    for n in ("__reduce_ex__", "__reduce__"):
        m = v.cls.lookup(n)
        if isinstance(m, FuncVal):
            r = I.call(m, [v] + ([4] if n == "__reduce_ex__" else []), {})
            if not isinstance(r, Tup):
                raise Unsupported("__reduce__ returning a string")
            return r
    r = default_reduce(I, v)
    gs = v.cls.lookup("__getstate__")
    if isinstance(gs, FuncVal):
        r = Tup(r.items[:2] + (I.call(gs, [v], {}),) + r.items[3:])
    if v.cls.issub(I.builtins["set"]):
        return Tup([v.cls, Tup([I.new_list(v.p.keys())]), r.items[2]])
    return r


def deepcopy(I, v, memo):
    if isinstance(v, Tup):
        if id(v) in memo:
            return memo[id(v)][0]
        t = Tup([deepcopy(I, x, memo) for x in v.items])
        if all(x is y for x, y in zip(t.items, v.items)):
            return v
        memo[id(v)] = (t, v)
        return t
    if not isinstance(v, Obj) or v.cls.enum is not None:
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    m = v.cls.lookup("__deepcopy__")
    if m is not MISSING:
        r = I.call(I.bind(m, v, v.cls), [I.new_dict()], {})
        memo[id(v)] = (r, v)
        return r
    B = I.builtins
    if v.cls is B["list"]:
        r = I.new_list()
        memo[id(v)] = (r, v)
        for x in list(v.p):
            r.p.append(deepcopy(I, x, memo))
        return r
    if v.cls is B["dict"]:
        r = I.new_dict()
        memo[id(v)] = (r, v)
        for a, b in v.p.items():
            r.p.set(I, deepcopy(I, a, memo), deepcopy(I, b, memo))
        return r
    return reconstruct(I, v, get_reduce(I, v), True, memo)


def m_copy(I):
    return {"copy": Native("copy.copy", lambda I, a, k: shallow(I, a[0])),
            "deepcopy": Native("copy.deepcopy", lambda I, a, k: deepcopy(I, a[0], {}))}


def m_pickle(I):
    o = I.native_class("PickledBytes")

    def dumps(I, a, k):
        b = Obj(o)
        b.d["#v"] = deepcopy(I, a[0], {})
        return b
    return {"dumps": Native("pickle.dumps", dumps),
            "loads": Native("pickle.loads", lambda I, a, k: deepcopy(I, a[0].d["#v"], {}))}


# ------------------------------------------------------------------ itertools / operator
def m_itertools(I):
    d = {}

    def reg(name):
        def deco(f):
            d[name] = Native("itertools." + name, f)
            return f
        return deco

    def chain(I, a, k):
        def g():
            for x in a:
                yield from I.iterate(x)
        return GenVal(g(), "chain")
    n = Native("itertools.chain", chain)

    def from_iterable(I, a, k):
        def g():
            for x in I.iterate(a[0]):
                yield from I.iterate(x)
        return GenVal(g(), "chain")
    n.d["from_iterable"] = Native("chain.from_iterable", from_iterable)
    d["chain"] = n
    import itertools as hi

    def simple(name, n_iter=1):
        def f(I, a, k):
            xs = [host_seq(I, x) if i < n_iter or n_iter < 0 else to_host(x)
                  for i, x in enumerate(a)]
            kw = {x: to_host(y) for x, y in k.items()}
            return GenVal((Tup(t) for t in getattr(hi, name)(*xs, **kw)), name)
        d[name] = Native("itertools." + name, f)
    simple("product", -1)
    simple("combinations")
    simple("permutations")
    simple("combinations_with_replacement")
    simple("pairwise")

    @reg("accumulate")
    def _(I, a, k):
        f = a[1] if len(a) > 1 else k.get("func")

        def g():
            acc = k.get("initial", _NO)
            if acc is _NO or acc is None:
                acc = _NO
            else:
                yield acc
            for x in I.iterate(a[0]):
                acc = x if acc is _NO else I.binop(ast.Add(), acc, x) if f is None else \
                    I.call(f, [acc, x], {})
                yield acc
        return GenVal(g(), "accumulate")

    @reg("compress")
    def _(I, a, k):
        return GenVal((x for x, y in zip(I.iterate(a[0]), I.iterate(a[1])) if I.truth(y)),
                      "compress")

    @reg("cycle")
    def _(I, a, k):
        return GenVal(hi.cycle(I.iterate(a[0])), "cycle")

    @reg("batched")
    def _(I, a, k):
        def g():
            it = I.iterate(a[0])
            while True:
                xs = list(hi.islice(it, to_host(a[1])))
                if not xs:
                    return
                yield Tup(xs)
        return GenVal(g(), "batched")

    @reg("islice")
    def _(I, a, k):
        return GenVal(hi.islice(I.iterate(a[0]), *[to_host(x) for x in a[1:]]), "islice")

    @reg("zip_longest")
    def _(I, a, k):
        xs = [host_seq(I, x) for x in a]
        return GenVal((Tup(t) for t in hi.zip_longest(*xs, fillvalue=k.get("fillvalue"))),
                      "zip_longest")

    @reg("count")
    def _(I, a, k):
        return GenVal(hi.count(*[to_host(x) for x in a]), "count")

    @reg("repeat")
    def _(I, a, k):
        return GenVal(hi.repeat(a[0], *[to_host(x) for x in a[1:]]), "repeat")

    @reg("starmap")
    def _(I, a, k):
        return GenVal((I.call(a[0], host_seq(I, x), {}) for x in I.iterate(a[1])), "starmap")

    @reg("takewhile")
    def _(I, a, k):
        return GenVal(hi.takewhile(lambda x: I.truth(I.call(a[0], [x], {})), I.iterate(a[1])),
                      "takewhile")

    @reg("dropwhile")
    def _(I, a, k):
        return GenVal(hi.dropwhile(lambda x: I.truth(I.call(a[0], [x], {})), I.iterate(a[1])),
                      "dropwhile")

    @reg("filterfalse")
    def _(I, a, k):
        return GenVal((x for x in I.iterate(a[1]) if not I.truth(
            x if a[0] is None else I.call(a[0], [x], {}))), "filterfalse")

    @reg("tee")
    def _(I, a, k):
        n = to_host(a[1]) if len(a) > 1 else 2
        return Tup([GenVal(t, "tee") for t in hi.tee(I.iterate(a[0]), n)])

    @reg("groupby")
    def _(I, a, k):
        key = a[1] if len(a) > 1 else k.get("key")

        def g():
            cur, run = _NO, []
            for x in host_seq(I, a[0]):
                kx = x if key is None else I.call(key, [x], {})
                if cur is not _NO and I.truth(I.eq(cur, kx)):
                    run.append(x)
                else:
                    if cur is not _NO:
                        yield Tup([cur, GenVal(iter(run), "group")])
                    cur, run = kx, [x]
            if cur is not _NO:
                yield Tup([cur, GenVal(iter(run), "group")])
        return GenVal(g(), "groupby")
    return d


def m_operator(I):
    d = {}
    for n, node in (("add", ast.Add()), ("sub", ast.Sub()), ("mul", ast.Mult()),
                    ("truediv", ast.Div()), ("or_", ast.BitOr()), ("and_", ast.BitAnd()),
                    ("xor", ast.BitXor())):
        d[n] = Native("operator." + n, lambda I, a, k, node=node: I.binop(node, a[0], a[1]))
    for n, node in (("floordiv", ast.FloorDiv()), ("mod", ast.Mod()), ("pow", ast.Pow()),
                    ("lshift", ast.LShift()), ("rshift", ast.RShift()), ("concat", ast.Add())):
        d[n] = Native("operator." + n, lambda I, a, k, node=node: I.binop(node, a[0], a[1]))
    for n, node in (("iadd", ast.Add()), ("isub", ast.Sub()), ("ior", ast.BitOr()),
                    ("iand", ast.BitAnd()), ("imul", ast.Mult()), ("iconcat", ast.Add())):
        d[n] = Native("operator." + n, lambda I, a, k, node=node: I.inplace(node, a[0], a[1]))
    for n, node in (("neg", ast.USub()), ("pos", ast.UAdd()), ("invert", ast.Invert()),
                    ("inv", ast.Invert())):
        d[n] = Native("operator." + n, lambda I, a, k, node=node: I.unary(node, a[0]))
    d["setitem"] = Native("operator.setitem", lambda I, a, k: I.setitem(*a))
    d["delitem"] = Native("operator.delitem", lambda I, a, k: I.delitem(*a))
    d["abs"] = Native("operator.abs", lambda I, a, k: I.call(I.builtins["abs"], a, {}))
    d["index"] = Native("operator.index", lambda I, a, k: as_index(I, a[0]))
    d["countOf"] = Native("operator.countOf", lambda I, a, k: sum(
        1 for x in I.iterate(a[0]) if x is a[1] or I.truth(I.eq(x, a[1]))))

    def index_of(I, a, k):
        for i, x in enumerate(I.iterate(a[0])):
            if x is a[1] or I.truth(I.eq(x, a[1])):
                return i
        I.raise_("ValueError", "sequence.index(x): x not in sequence")
    d["indexOf"] = Native("operator.indexOf", index_of)
    d["length_hint"] = Native("operator.length_hint", lambda I, a, k: do_len(I, a[0]))
    d["call"] = Native("operator.call", lambda I, a, k: I.call(a[0], a[1:], k))
    for n, node in (("lt", ast.Lt()), ("gt", ast.Gt()), ("le", ast.LtE()), ("ge", ast.GtE()),
                    ("eq", ast.Eq()), ("ne", ast.NotEq()), ("is_", ast.Is()),
                    ("is_not", ast.IsNot())):
        d[n] = Native("operator." + n, lambda I, a, k, node=node: I.compare(node, a[0], a[1]))
    d["not_"] = Native("operator.not_", lambda I, a, k: not I.truth(a[0]))
    d["truth"] = Native("operator.truth", lambda I, a, k: I.truth(a[0]))
    d["contains"] = Native("operator.contains", lambda I, a, k: I.contains(a[0], a[1]))
    d["getitem"] = Native("operator.getitem", lambda I, a, k: I.getitem(a[0], a[1]))

    def itemgetter(I, a, k):
        return Native("itemgetter()", lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1
                      else Tup([I.getitem(b[0], x) for x in a]))
    d["itemgetter"] = Native("itemgetter", itemgetter)

    def dig(I, o, path):
        for p in path.split("."):
            o = I.getattr(o, p)
        return o

    def attrgetter(I, a, k):
        return Native("attrgetter()", lambda I, b, kk: dig(I, b[0], a[0]) if len(a) == 1
                      else Tup([dig(I, b[0], x) for x in a]))
    d["attrgetter"] = Native("attrgetter", attrgetter)

    def methodcaller(I, a, k):
        return Native("methodcaller()", lambda I, b, kk: I.call(I.getattr(b[0], a[0]),
                                                                list(a[1:]), k))
    d["methodcaller"] = Native("methodcaller", methodcaller)
    return d


# ------------------------------------------------------------------ files, process state
def path_key(I, v):
    """The text of a path given as a path object, a str or anything with __fspath__."""
    if isinstance(v, Obj) and "#key" in v.d:
        return v.d["#key"]
    if isinstance(v, Obj) and v.cls.lookup("__fspath__") is not MISSING:
        return path_key(I, I.meth(v, "__fspath__"))
    v = I.strval(v)
    if not I.type_of(v).issub(I.builtins["str"]):
        I.raise_("TypeError", "expected str, bytes or os.PathLike object")
    return v


def path_join(I, x, y):
    if isinstance(x, str) and isinstance(y, str):
        return posixpath.join(x, y)
    if isinstance(x, Atom) and x.term and x.term[0] == "parent" and isinstance(y, Atom) and \
            y.term and y.term[0] == "basename" and y.term[1] is x.term[1]:
        return x.term[1]
    return I.term("join", I.builtins["str"], x, y)


def path_abs(I, x):
    if isinstance(x, str):
        if not x.startswith(("/", "~")):
            return path_join(I, I.proc.d["cwd"].d["#key"], x)
        return x
    return x


def path_test(I, n, k):
    if I.building:
        return True
    return I.fork(n, ("path", n.rpartition(".")[2], str(I.ident(k))))


def change_dir(I, v):
    touch(I.proc)
    v = I.mkpath(path_key(I, v))
    if v.d["#key"] != "/abstract-cwd":
        I.fault("directory cannot be entered", "OSError")
    v = I.mkpath(path_abs(I, v.d["#key"]))
    I.proc.d["cwd"] = v
    I.events.append(("chdir", v, None, I.where()))


def files_of(I):
    """path -> content written by the code under analysis (only literal paths are kept)"""
    o = I.proc.d.get("#files")
    if o is None:
        touch(I.proc)
        o = I.proc.d["#files"] = Obj(I.builtins["object"])
        o.label = "files"
    return o


def file_content(I, path, binary):
    hit = files_of(I).d.get(path) if isinstance(path, str) else None
    if hit is not None:
        return hit
    return b"" if binary else Ext("file text")


def write_file(I, path, content, add=False):
    I.events.append(("write_file", path, None, I.where()))
    if isinstance(path, str):
        fs = files_of(I)
        touch(fs)
        old = fs.d.get(path) if add else None
        fs.d[path] = content if old is None or old in ("", b"") else \
            I.binop(ast.Add(), old, content)


def file_class(I):
    hit = I.id_map.get("file")
    if hit is not None:
        return hit
    F = I.native_class("TextIOWrapper")
    I.id_map["file"] = F

    def meth(name):
        def deco(f):
            F.ns[name] = Native("file." + name, lambda I, a, k: f(a[0], *a[1:], **k))
            return f
        return deco

    def live(o):
        if o.d["closed"]:
            I.raise_("ValueError", "I/O operation on closed file.")

    @meth("read")
    def _(o, n=-1):
        live(o)
        touch(o)
        if o.d["#at"] is not None:
            return b"" if o.d["#bin"] else ""
        o.d["#at"] = True
        if o.d["#path"] is None:
            return o.d["#text"]
        return file_content(I, o.d["#path"], o.d["#bin"])

    @meth("getvalue")
    def _(o):
        return o.d["#text"]

    @meth("seek")
    def _(o, *a):
        touch(o)
        o.d["#at"] = None
        return 0

    def lines(o):
        v = I.meth(o, "read")
        if isinstance(v, (str, bytes)):
            return list(v.splitlines(True))
        return [v]
    F.ns["readlines"] = Native("file.readlines", lambda I, a, k: I.new_list(lines(a[0])))
    F.ns["__iter__"] = Native("file.__iter__", lambda I, a, k: GenVal(iter(lines(a[0])), "file"))

    @meth("write")
    def _(o, v):
        live(o)
        touch(o)
        if o.d["#path"] is None:
            o.d["#text"] = v if o.d["#text"] in ("", b"") else \
                I.binop(ast.Add(), o.d["#text"], v)
        else:
            if not set(o.d["mode"]) & set("wax+"):
                I.raise_("OSError", "not writable")
            write_file(I, o.d["#path"], v, o.d["#wrote"] or "a" in o.d["mode"])
            o.d["#wrote"] = True
        return len(v) if isinstance(v, (str, bytes)) else I.term("len", I.builtins["int"], v)

    @meth("writelines")
    def _(o, vs):
        for v in I.iterate(vs):
            I.meth(o, "write", v)

    @meth("close")
    def _(o):
        touch(o)
        o.d["closed"] = True
    F.ns["flush"] = Native("file.flush", lambda I, a, k: None)
    F.ns["readable"] = Native("file.readable", lambda I, a, k: True)
    F.ns["writable"] = Native("file.writable", lambda I, a, k: True)
    F.ns["__enter__"] = Native("file.__enter__", lambda I, a, k: a[0])

    def leave(I, a, k):
        touch(a[0])
        a[0].d["closed"] = True
        return None
    F.ns["__exit__"] = Native("file.__exit__", leave)

    def make(path, mode, text=""):
        o = Obj(F)
        o.d.update({"#path": path, "mode": mode, "name": path, "closed": False, "#at": None,
                    "#bin": "b" in mode, "#text": text, "#wrote": False})
        return o
    I.mkfile = make
    for n, m, t in (("StringIO", "w+", ""), ("BytesIO", "wb+", b"")):
        c = I.native_class(n, [F])

        def new(I, a, k, m=m, t=t):
            o = make(None, m, a[1] if len(a) > 1 else t)
            o.cls = a[0]
            return o
        c.ns["__new__"] = StaticM(Native(n + ".__new__", new))
        c.ns["__init__"] = Native(n + ".__init__", lambda I, a, k: None)
        I.id_map[n] = c
    return F


def open_file(I, path, mode="r", *a, **k):
    if isinstance(path, Ext):
        I.events.append(("open", (path, mode), None, I.where()))
        return Ext("open()")
    file_class(I)
    path = path_abs(I, path_key(I, path))
    I.fault("file cannot be opened", "OSError")
    I.events.append(("open", (path, mode), None, I.where()))
    o = I.mkfile(path, mode)
    if isinstance(mode, str) and "w" in mode and isinstance(path, str):
        fs = files_of(I)
        touch(fs)
        fs.d[path] = b"" if "b" in mode else ""
    return o


def m_io(I):
    file_class(I)
    return {"StringIO": I.id_map["StringIO"], "BytesIO": I.id_map["BytesIO"],
            "open": I.builtins["open"], "TextIOWrapper": I.id_map["file"],
            "IOBase": I.id_map["file"]}


def m_shutil(I):
    I.load("pathlib")

    def copyfileobj(I, a, k):
        I.meth(a[1], "write", I.meth(a[0], "read"))

    def copy(I, a, k):
        src, dst = path_abs(I, path_key(I, a[0])), path_abs(I, path_key(I, a[1]))
        I.fault("file cannot be copied", "OSError")
        write_file(I, dst, file_content(I, src, True))
        return a[1]
    d = {"copyfileobj": Native("shutil.copyfileobj", copyfileobj)}
    for n in ("copy", "copy2", "copyfile"):
        d[n] = Native("shutil." + n, copy)
    return d


def m_pathlib(I):
    B = I.builtins
    P = I.native_class("Path")
    I.path_cls = P

    def key(v):
        return path_key(I, v)

    def mk(k):
        o = Obj(P)
        o.d["#key"] = k
        return o

    def join(x, *ys):
        for y in ys:
            x = path_join(I, x, key(y))
        return x

    def new(I, a, k):
        return mk(join(key(a[1]), *a[2:]) if len(a) > 1 else ".")
    P.ns["__new__"] = StaticM(Native("Path.__new__", new))
    P.ns["__init__"] = Native("Path.__init__", lambda I, a, k: None)
    P.ns["__truediv__"] = Native("Path.__truediv__", lambda I, a, k: mk(join(key(a[0]), a[1])))
    P.ns["__rtruediv__"] = Native("Path.__rtruediv__",
                                  lambda I, a, k: mk(join(key(a[1]), a[0])))
    P.ns["joinpath"] = Native("Path.joinpath", lambda I, a, k: mk(join(key(a[0]), *a[1:])))
    P.ns["cwd"] = ClassM(Native("Path.cwd", lambda I, a, k: I.proc.d["cwd"]))

    def derived(name, f, term, path=False):
        def get(I, a, k):
            x = key(a[0])
            out = f(x) if isinstance(x, str) else I.term(term, B["str"], x)
            return mk(out) if path else out
        P.ns[name] = PropVal(Native("Path." + name, get))
    derived("anchor", lambda x: "/" if x.startswith("/") else "", "anchor")

    def pure(name):
        def f(I, a, k):
            x = key(a[0])
            if not isinstance(x, str) or not all(is_const(y) for y in a[1:]):
                if name.startswith("with_"):
                    return mk(I.term(name, B["str"], x, *a[1:]))
                raise Unsupported(f"Path.{name} of a symbolic path")
            p = pathlib.PurePosixPath(x)
            try:
                r = getattr(p, name)
                r = r(*[path_key(I, y) for y in a[1:]]) if callable(r) else r
            except (ValueError, TypeError) as e:
                I.raise_(type(e).__name__, str(e))
            if isinstance(r, pathlib.PurePath):
                return mk(str(r))
            if name == "parents":
                return Tup([mk(str(y)) for y in r])
            return from_host(I, r)
        return Native("Path." + name, f)
    import pathlib
    for n in ("with_suffix", "with_stem", "relative_to", "is_relative_to", "match"):
        P.ns[n] = pure(n)
    for n in ("parts", "parents", "suffixes"):
        P.ns[n] = PropVal(pure(n))
    derived("parent", posixpath.dirname, "parent", True)
    derived("name", posixpath.basename, "basename")
    derived("stem", lambda x: posixpath.splitext(posixpath.basename(x))[0], "stem")
    derived("suffix", lambda x: posixpath.splitext(x)[1], "suffix")
    P.ns["with_name"] = Native("Path.with_name", lambda I, a, k: mk(path_join(
        I, key(I.getattr(a[0], "parent")), a[1])))
    P.ns["as_posix"] = Native("Path.as_posix", lambda I, a, k: key(a[0]))
    P.ns["is_absolute"] = Native("Path.is_absolute", lambda I, a, k: key(a[0]).startswith("/")
                                 if isinstance(key(a[0]), str) else path_test(
                                     I, "Path.is_absolute", key(a[0])))

    def resolve(I, a, k):
        if I.truth(k.get("strict", a[1] if len(a) > 1 else False)):
            I.fault("path does not exist", "FileNotFoundError")
        return mk(path_abs(I, key(a[0])))
    I.abspath = path_abs
    P.ns["resolve"] = Native("Path.resolve", resolve)
    P.ns["expanduser"] = Native("Path.expanduser", lambda I, a, k: mk(key(a[0])))
    P.ns["absolute"] = Native("Path.absolute", lambda I, a, k: mk(path_abs(I, key(a[0]))))
    for n in ("exists", "is_file", "is_dir"):
        P.ns[n] = Native("Path." + n, lambda I, a, k, n=n: path_test(
            I, "Path." + n, key(a[0])))

    def stat(I, a, k):
        I.fault("path does not exist", "FileNotFoundError")
        return Ext("stat")
    P.ns["stat"] = Native("Path.stat", stat)
    P.ns["mkdir"] = Native("Path.mkdir", lambda I, a, k: I.events.append(
        ("write_file", path_abs(I, key(a[0])), None, I.where())))
    P.ns["unlink"] = P.ns["mkdir"]
    for n in ("write_bytes", "write_text"):
        P.ns[n] = Native("Path." + n, lambda I, a, k: write_file(
            I, path_abs(I, key(a[0])), a[1]))
    P.ns["read_bytes"] = Native("Path.read_bytes", lambda I, a, k: file_content(
        I, path_abs(I, key(a[0])), True))
    P.ns["read_text"] = Native("Path.read_text", lambda I, a, k: file_content(
        I, path_abs(I, key(a[0])), False))
    P.ns["open"] = Native("Path.open", lambda I, a, k: open_file(I, *a, **k))
    P.ns["__str__"] = Native("Path.__str__", lambda I, a, k: key(a[0]))
    P.ns["__fspath__"] = P.ns["__str__"]
    P.ns["__hash__"] = Native("Path.__hash__", lambda I, a, k: HashVal(
        ("path", str(I.ident(key(a[0]))))))

    def peq(I, a, k):
        return I.eq(key(a[0]), key(a[1])) if isinstance(a[1], Obj) and a[1].cls is P \
            else NotImplemented
    P.ns["__eq__"] = Native("Path.__eq__", peq)
    I.proc.d["cwd"] = mk("/abstract-cwd")
    I.mkpath = mk
    return {"Path": P, "PurePath": P, "PosixPath": P, "PurePosixPath": P}


def m_os(I):
    I.load("pathlib")
    env = Obj(I.builtins["dict"], PD())
    env.label = "os.environ"
    path = ModuleVal("os.path", ext=True)

    def pkey(v):
        return path_key(I, v)

    def pterm(name, f, term):
        return Native("os.path." + name, lambda I, a, k: f(pkey(a[0]))
                      if isinstance(pkey(a[0]), str) else
                      I.term(term, I.builtins["str"], pkey(a[0])))

    def pjoin(I, a, k):
        x = pkey(a[0])
        for y in a[1:]:
            x = path_join(I, x, pkey(y))
        return x

    def realpath(I, a, k):
        if I.truth(k.get("strict", False)):
            I.fault("path does not exist", "FileNotFoundError")
        return path_abs(I, pkey(a[0]))
    path.ns.update({
        "dirname": pterm("dirname", posixpath.dirname, "parent"),
        "basename": pterm("basename", posixpath.basename, "basename"),
        "abspath": Native("os.path.abspath", lambda I, a, k: path_abs(I, pkey(a[0]))),
        "realpath": Native("os.path.realpath", realpath),
        "expanduser": Native("os.path.expanduser", lambda I, a, k: pkey(a[0])),
        "join": Native("os.path.join", pjoin), "sep": "/",
        "split": Native("os.path.split", lambda I, a, k: Tup([
            I.call(path.ns["dirname"], a, {}), I.call(path.ns["basename"], a, {})])),
        "splitext": Native("os.path.splitext", lambda I, a, k: Tup(posixpath.splitext(pkey(a[0])))
                           if isinstance(pkey(a[0]), str) else Tup([
                               I.term("splitext0", I.builtins["str"], pkey(a[0])),
                               I.term("splitext1", I.builtins["str"], pkey(a[0]))])),
        "normpath": pterm("normpath", posixpath.normpath, "normpath"),
        "curdir": ".", "pardir": "..", "extsep": ".",
        "isabs": Native("os.path.isabs", lambda I, a, k: pkey(a[0]).startswith("/")
                        if isinstance(pkey(a[0]), str) else path_test(
                            I, "os.path.isabs", pkey(a[0]))),
    })
    for n, m in (("exists", "exists"), ("isfile", "is_file"), ("isdir", "is_dir")):
        path.ns[n] = Native("os.path." + n, lambda I, a, k, m=m: path_test(
            I, "os.path." + m, pkey(a[0])))
    I.os_path = path

    def stat(I, a, k):
        I.fault("path does not exist", "FileNotFoundError")
        return Ext("stat")
    return {"chdir": Native("os.chdir", lambda I, a, k: change_dir(I, a[0])),
            "getcwd": Native("os.getcwd", lambda I, a, k: I.proc.d["cwd"].d["#key"]),
            "environ": env, "path": path, "sep": "/", "linesep": "\n",
            "curdir": ".", "pardir": "..", "name": "posix", "extsep": ".",
            "stat": Native("os.stat", stat),
            "getenv": Native("os.getenv", lambda I, a, k: a[1] if len(a) > 1 else None),
            "PathLike": I.path_cls,
            "fspath": Native("os.fspath", lambda I, a, k: pkey(a[0]))}


def m_tempfile(I):
    c = I.native_class("TemporaryDirectory")

    def init(I, a, k):
        a[0].d["name"] = "/abstract-tmp"
    c.ns["__init__"] = Native("TemporaryDirectory.__init__", init)
    c.ns["__enter__"] = Native("TemporaryDirectory.__enter__", lambda I, a, k: a[0].d["name"])
    c.ns["__exit__"] = Native("TemporaryDirectory.__exit__", lambda I, a, k: False)
    c.ns["cleanup"] = Native("TemporaryDirectory.cleanup", lambda I, a, k: None)
    return {"TemporaryDirectory": c,
            "mkdtemp": Native("mkdtemp", lambda I, a, k: "/abstract-tmp"),
            "gettempdir": Native("gettempdir", lambda I, a, k: "/abstract-tmp")}


def m_importlib_resources(I):
    I.load("pathlib")
    nc = I.load("contextlib").ns["nullcontext"]
    root = "/abstract-resources"
    return {"files": Native("files", lambda I, a, k: I.mkpath(root)),
            "as_file": Native("as_file", lambda I, a, k: I.call(nc, [a[0]], {})),
            "open_binary": Native("open_binary", lambda I, a, k: open_file(
                I, posixpath.join(root, a[1]), "rb")),
            "open_text": Native("open_text", lambda I, a, k: open_file(
                I, posixpath.join(root, a[1]))),
            "read_binary": Native("read_binary", lambda I, a, k: file_content(
                I, posixpath.join(root, a[1]), True)),
            "read_text": Native("read_text", lambda I, a, k: file_content(
                I, posixpath.join(root, a[1]), False))}


def m_tokenize(I):
    import tokenize
    return {n: getattr(tokenize, n) for n in ("NAME", "NUMBER", "OP", "ERRORTOKEN", "NEWLINE",
                                              "STRING", "ENDMARKER")}


def m_string(I):
    import string
    return {n: getattr(string, n) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase",
                                            "digits", "punctuation", "whitespace")}


def m_sys(I):
    import sys
    c = I.native_class("float_info")
    o = Obj(c)
    for n in ("epsilon", "max", "min"):
        o.d[n] = getattr(sys.float_info, n)
    v = Tup([3, 12, 3])
    return {"float_info": o, "maxsize": sys.maxsize, "version_info": v}


# ------------------------------------------------------------------ pint
# unit string -> (long name, dimension, factor, offset)
UNITS = {
    "": ("dimensionless", "1", 1.0, 0.0), "dimensionless": ("dimensionless", "1", 1.0, 0.0),
    "m": ("meter", "L", 1.0, 0.0), "meter": ("meter", "L", 1.0, 0.0),
    "km": ("kilometer", "L", 1000.0, 0.0), "kilometer": ("kilometer", "L", 1000.0, 0.0),
    "mm": ("millimeter", "L", 0.001, 0.0), "millimeter": ("millimeter", "L", 0.001, 0.0),
    "s": ("second", "T", 1.0, 0.0), "second": ("second", "T", 1.0, 0.0),
    "min": ("minute", "T", 60.0, 0.0), "minute": ("minute", "T", 60.0, 0.0),
    "kg": ("kilogram", "M", 1.0, 0.0), "kilogram": ("kilogram", "M", 1.0, 0.0),
    "g": ("gram", "M", 0.001, 0.0), "gram": ("gram", "M", 0.001, 0.0),
    "K": ("kelvin", "Th", 1.0, 0.0), "kelvin": ("kelvin", "Th", 1.0, 0.0),
    "degC": ("degree_Celsius", "Th", 1.0, 273.15),
    "degree_Celsius": ("degree_Celsius", "Th", 1.0, 273.15),
    "radian": ("radian", "rad", 1.0, 0.0), "rad": ("radian", "rad", 1.0, 0.0),
    "eV": ("electron_volt", "E", 1.6e-19, 0.0), "electron_volt": ("electron_volt", "E", 1.6e-19,
                                                                 0.0),
    "cm": ("centimeter", "L", 0.01, 0.0), "centimeter": ("centimeter", "L", 0.01, 0.0),
    "um": ("micrometer", "L", 1e-6, 0.0), "micrometer": ("micrometer", "L", 1e-6, 0.0),
    "meters": ("meter", "L", 1.0, 0.0), "meter": ("meter", "L", 1.0, 0.0),
    "hr": ("hour", "T", 3600.0, 0.0), "hour": ("hour", "T", 3600.0, 0.0),
    "mol": ("mole", "N", 1.0, 0.0), "mole": ("mole", "N", 1.0, 0.0),
    "kJ": ("kilojoule", "E", 1000.0, 0.0), "J": ("joule", "E", 1.0, 0.0),
    "joule": ("joule", "E", 1.0, 0.0), "kilojoule": ("kilojoule", "E", 1000.0, 0.0),
    "degF": ("degree_Fahrenheit", "Th", 5. / 9, 255.37),
    "degree_Fahrenheit": ("degree_Fahrenheit", "Th", 5. / 9, 255.37),
    "liters": ("liter", "L3", 1e-3, 0.0), "liter": ("liter", "L3", 1e-3, 0.0),
    "percent": ("percent", "1", 0.01, 0.0), "%": ("percent", "1", 0.01, 0.0),
    "ppm": ("parts_per_million", "1", 1e-6, 0.0),
    "parts_per_million": ("parts_per_million", "1", 1e-6, 0.0),
    "Pa": ("pascal", "P", 1.0, 0.0), "pascal": ("pascal", "P", 1.0, 0.0),
    "kPa": ("kilopascal", "P", 1000.0, 0.0), "kilopascal": ("kilopascal", "P", 1000.0, 0.0),
    "mg": ("milligram", "M", 1e-6, 0.0), "milligram": ("milligram", "M", 1e-6, 0.0),
    "ml": ("milliliter", "L3", 1e-6, 0.0), "milliliter": ("milliliter", "L3", 1e-6, 0.0),
    "L": ("liter", "L3", 1e-3, 0.0), "inch": ("inch", "L", 0.0254, 0.0),
    "in": ("inch", "L", 0.0254, 0.0), "ft": ("foot", "L", 0.3048, 0.0),
    "foot": ("foot", "L", 0.3048, 0.0), "nm": ("nanometer", "L", 1e-9, 0.0),
    "nanometer": ("nanometer", "L", 1e-9, 0.0),
    "day": ("day", "T", 86400.0, 0.0), "ms": ("millisecond", "T", 1e-3, 0.0),
    "millisecond": ("millisecond", "T", 1e-3, 0.0),
    "gram / mole": ("gram / mole", "M/N", 1e-3, 0.0),
}


def root_value(I, v, unit):
    """(dimension, order node) of magnitude v in `unit`, in the dimension's root unit."""
    info = UNITS.get(unit) or I.extra_units.get(unit)
    if info is None:
        return None
    if isinstance(v, Atom):
        return info[1], ("u", v.oid, info[0], info[0])
    return info[1], ("k", v * info[2] + info[3])


# strings that the definition file certainly does not define
BAD_UNITS = ("not_a_unit", "no_such_unit", "asdf", "flarble")
DEFAULT_DEF = "/abstract-tmp/citrine_en.txt"


def pint_core(I):
    hit = I.id_map.get("pint")
    if hit is not None:
        return hit
    B = I.builtins
    PE = I.native_class("PintError", [B["Exception"]])
    UU = I.native_class("UndefinedUnitError", [B["AttributeError"], PE])
    DE = I.native_class("DimensionalityError", [B["TypeError"], PE])
    DS = I.native_class("DefinitionSyntaxError", [B["ValueError"], PE])
    for c in (UU, DE, DS):
        def init(I, a, k):
            touch(a[0])
            a[0].d["args"] = Tup(a[1:])
            for x, y in k.items():
                a[0].d[x] = y
        c.ns["__init__"] = Native("PintError.__init__", init)
    for c in (UU, DE, DS):
        def new(I, a, k):
            o = Obj(a[0])
            o.d["args"] = Tup(a[1:])
            return o
        c.ns["__new__"] = StaticM(Native("PintError.__new__", new))
    Unit = I.native_class("Unit")
    Quantity = I.native_class("Quantity")
    Reg = I.native_class("UnitRegistry")
    Reg.ns["Unit"] = Unit
    Reg.ns["Quantity"] = Quantity
    Gen = I.native_class("GenericUnitRegistry", [Reg])

    def slug_of(f):
        return "_of_" + "".join(c if c.isalpha() else "_" for c in str(f))
    I.unit_name = lambda name, f: name + slug_of(f)

    def is_default(r):
        return r.d["#file"] == DEFAULT_DEF

    def file_key(v):
        if isinstance(v, Obj) and "#key" in v.d:
            v = v.d["#key"]
        return I.abspath(I, v)

    def reg_init(I, a, k):
        r = a[0]
        touch(r)
        f = k.get("filename", a[1] if len(a) > 1 else "")
        I.fault("unit definitions cannot be read", DS)
        f = file_key(f)
        n = I.proc.d.get("#edits", 0)   # the contents of the other files have changed n times
        r.d["#file"] = f + "_edited" * n if n and isinstance(f, str) and f != DEFAULT_DEF else f
        r.d["#kw"] = {x: y for x, y in k.items() if x != "filename"}
        r.d["Quantity"] = Native("registry.Quantity", lambda I, b, kk: mk_q(I, r, b, kk))
        r.d["Unit"] = Native("registry.Unit", lambda I, b, kk: parse(I, r, b[0]))
        I.events.append(("registry", r, None, I.where()))
    Reg.ns["__init__"] = Native("UnitRegistry.__init__", reg_init)

    def unit_cls(r):
        for n in ("_unit_class", "Unit"):
            v = r.cls.lookup(n)
            if isinstance(v, ClassVal):
                return v
        return Unit

    def parse(I, r, s):
        s = I.strval(s)
        if isinstance(s, Obj) and s.cls.issub(Unit):
            return s
        if not I.type_of(s).issub(B["str"]):
            I.raise_("TypeError", "cannot parse units")
        tab = I.extra_units
        slug = "" if is_default(r) else slug_of(r.d["#file"])
        if not isinstance(s, str):
            raise I.make_exc(UU, s)
        if slug and s in UNITS:
            info = UNITS[s]
            info = (info[0] + slug,) + info[1:]
            tab[info[0]] = info
        elif s in UNITS:
            info = UNITS[s]
        elif slug and s.endswith(slug) and s in tab:
            info = tab[s]
        elif s in BAD_UNITS or s in tab:
            raise I.make_exc(UU, s)
        else:
            raise Unsupported(f"unit expression {s!r} outside the modelled table")
        key = ("uobj", r.oid, str(I.ident(info[0])))
        u = I.memo.get(key)
        if u is None:
            u = Obj(unit_cls(r))
            u.d["#info"] = info
            u.d["#reg"] = r
            u.label = f"unit {info[0]}"
            I.memo[key] = u
        return u
    Reg.ns["parse_units"] = Native("registry.parse_units", lambda I, a, k: parse(I, a[0], a[1]))

    def as_unit(I, r, v):
        if isinstance(v, Obj) and v.cls.issub(Quantity):
            return v.d["#unit"]
        return parse(I, r, v)

    def mk_q(I, r, b, kk):
        q = Obj(Quantity)
        v = b[0]
        if isinstance(v, Obj) and v.cls.issub(Quantity):
            return v
        q.d["#value"] = v
        q.d["#unit"] = as_unit(I, r, b[1] if len(b) > 1 else kk.get("units", ""))
        q.d["#reg"] = r
        return q

    def root(I, a, k):
        r = a[0]
        u = as_unit(I, r, a[1])
        key = ("root", r.oid, u.d["#info"][1])
        x = I.memo.get(key)
        if x is None:
            x = Obj(unit_cls(r))
            x.d["#info"] = (f"root[{u.d['#info'][1]}]", u.d["#info"][1], 1.0, 0.0)
            x.d["#reg"] = r
            I.memo[key] = x
        return Tup([u.d["#info"][2], x])
    def call_registry(I, a, k):
        if len(a) < 2:
            I.raise_("TypeError", "parse_expression() missing required argument")
        return mk_q(I, a[0], [1, a[1]], {})
    Reg.ns["__call__"] = Reg.ns["parse_expression"] = Native("registry.__call__", call_registry)
    Reg.ns["get_root_units"] = Native("registry.get_root_units", root)
    Reg.ns["get_base_units"] = Native("registry.get_base_units", root)
    Reg.ns["get_dimensionality"] = Native("registry.get_dimensionality",
                                          lambda I, a, k: as_unit(I, a[0], a[1]).d["#info"][1])
    Reg.ns["define"] = Native("registry.define", lambda I, a, k: None)
    Reg.ns["__contains__"] = Native("registry.__contains__", lambda I, a, k: a[1] in UNITS)

    def q_to(I, a, k):
        q = a[0]
        r = q.d["#reg"]
        u = as_unit(I, r, a[1])
        s = q.d["#unit"].d["#info"]
        t = u.d["#info"]
        if s[1] != t[1]:
            raise I.make_exc(DE, Tup([s[0], t[0]]))
        out = Obj(Quantity)
        out.d["#reg"], out.d["#unit"] = r, u
        out.d["#value"] = convert(I, q.d["#value"], s, t)
        return out

    def convert(I, v, s, t):
        if s[0] is t[0] or s[0] == t[0]:
            return v
        if isinstance(v, (int, float)) and isinstance(s[0], str) and isinstance(t[0], str):
            return (v * s[2] + s[3] - t[3]) / t[2]
        if isinstance(v, Atom) and v.term and v.term[0] == "conv" and v.term[2] == t[0] and \
                v.term[3] == s[0]:
            return v.term[1]
        if isinstance(v, Atom) and v.term and v.term[0] == "conv" and v.term[3] == s[0]:
            return I.term("conv", B["float"], v.term[1], v.term[2], t[0])
        return I.term("conv", B["float"], v, s[0], t[0])
    Quantity.ns["to"] = Native("Quantity.to", q_to)
    Quantity.ns["m_as"] = Native("Quantity.m_as", lambda I, a, k: q_to(I, a, k).d["#value"])
    Quantity.ns["magnitude"] = PropVal(Native("Quantity.magnitude",
                                              lambda I, a, k: a[0].d["#value"]))
    Quantity.ns["m"] = Quantity.ns["magnitude"]
    Quantity.ns["units"] = PropVal(Native("Quantity.units", lambda I, a, k: a[0].d["#unit"]))
    Unit.ns["__str__"] = Native("Unit.__str__", lambda I, a, k: a[0].d["#info"][0])
    Unit.ns["__format__"] = Native("Unit.__format__", lambda I, a, k: a[0].d["#info"][0])

    def ueq(I, a, k):
        if isinstance(a[1], Obj) and a[1].cls.issub(Unit):
            x, y = a[0].d["#info"], a[1].d["#info"]
            return x[0] is y[0] or x[0] == y[0]
        return NotImplemented
    Unit.ns["__eq__"] = Native("Unit.__eq__", ueq)
    Unit.ns["__hash__"] = Native("Unit.__hash__", lambda I, a, k: HashVal(
        ("unit", str(I.ident(a[0].d["#info"][0])))))
    out = dict(PintError=PE, UndefinedUnitError=UU, DimensionalityError=DE,
               DefinitionSyntaxError=DS, Unit=Unit, Quantity=Quantity, UnitRegistry=Reg,
               GenericUnitRegistry=Gen)
    I.id_map["pint"] = out
    return out


def m_pint(I):
    c = pint_core(I)
    return {"UnitRegistry": c["UnitRegistry"], "register_unit_format": ident_deco(
        "register_unit_format"), "Unit": c["Unit"], "Quantity": c["Quantity"]}


def m_pint_errors(I):
    c = pint_core(I)
    return {n: c[n] for n in ("UndefinedUnitError", "DimensionalityError",
                              "DefinitionSyntaxError", "PintError")}


def m_pint_registry(I):
    c = pint_core(I)
    return {"GenericUnitRegistry": c["GenericUnitRegistry"]}


def m_deprecation(I):
    """Calls of a deprecated function give a DeprecationWarning first."""
    def fac(I, a, k):
        def deco(I, b, kk):
            if isinstance(b[0], FuncVal) and "current_version" not in k:
                touch(b[0])
                b[0].d["__deprecated__"] = True
            return b[0]
        return Native("deprecated()", deco)
    return {"deprecated": Native("deprecated", fac)}


def m_numpy(I):
    return {"ndarray": I.native_class("ndarray")}


def m_types(I):
    B = I.builtins
    mp = B["mappingproxy"]
    lib = I.pylib("types")
    return {"MappingProxyType": mp, "FunctionType": B["function"], "MethodType": B["method"],
            "LambdaType": B["function"], "BuiltinFunctionType": B["function"],
            "GeneratorType": B["generator"], "ModuleType": B["module"],
            "NoneType": B["NoneType"], "TracebackType": B["traceback"],
            "SimpleNamespace": lib["SimpleNamespace"], "new_class": lib["new_class"]}


def m_dataclasses(I):
    lib = I.pylib("dataclasses")
    return {n: lib[n] for n in ("dataclass", "field", "fields", "asdict", "astuple", "replace",
                                "is_dataclass", "MISSING", "KW_ONLY", "Field",
                                "FrozenInstanceError")}


def m_weakref(I):
    lib = I.pylib("weakref")
    return {n: lib[n] for n in ("ref", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet",
                                "proxy", "finalize")}


def m_random(I):
    return {}


def whole(name):
    """Module modelled entirely in gsa/pylib/NAME.py."""
    return lambda I: {n: v for n, v in I.pylib(name).items() if not n.startswith("_")}


def install(I):
    I.proc = Obj(I.builtins["object"])
    I.proc.label = "process state"
    I.faults = False
    I.fault_log = []

    def fault(label, exc):
        if not I.faults or I.building:
            return
        if I.fork(f"fault: {label}"):
            I.events.append(("fault", label, None, I.where()))
            I.raise_(exc, label)
    I.fault = fault
    I.natives.update({
        "typing": m_typing, "typing_extensions": m_typing, "collections": m_collections,
        "collections.abc": m_collections_abc, "numbers": m_numbers, "abc": m_abc,
        "functools": m_functools, "inspect": m_inspect, "json": m_json, "logging": m_logging,
        "warnings": m_warnings, "uuid": m_uuid, "re": m_re, "math": m_math, "enum": m_enum,
        "contextlib": m_contextlib, "copy": m_copy, "pickle": m_pickle, "itertools": m_itertools,
        "operator": m_operator, "pathlib": m_pathlib, "os": m_os, "tempfile": m_tempfile,
        "os.path": lambda I: (I.load("os"), dict(I.os_path.ns))[1],
        "importlib_resources": m_importlib_resources, "importlib.resources":
        m_importlib_resources, "tokenize": m_tokenize, "string": m_string, "sys": m_sys,
        "pint": m_pint, "pint.errors": m_pint_errors, "pint.registry": m_pint_registry,
        "io": m_io, "shutil": m_shutil, "deprecation": m_deprecation, "numpy": m_numpy, "types": m_types, "random": m_random,
        "dataclasses": m_dataclasses, "weakref": m_weakref,
    })
    I.natives.update({n: whole(n) for n in ("contextvars", "threading", "heapq", "bisect",
                                            "graphlib")})
