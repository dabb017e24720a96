"""Models of Python builtins (types and functions) for the abstract interpreter."""
import _string
import ast
import builtins as hb

from .core import (
    Unsupported, PyExc, touch, Tup, HashVal, Atom, Ext, PD, AttrPD, Obj, ClassVal,
    MISSING, ModuleVal, FuncVal, BoundM, Native, PropVal, StaticM, ClassM, CachedFn, GenVal,
    SuperVal, Slice, JsonText, View)

HOST = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))


def wrote(I, o):
    touch(o)
    o.w["#"] = I.where()


def need(I, a, lo, hi, name):
    n = len(a)
    if n < lo or (hi is not None and n > hi):
        I.raise_("TypeError", f"{name}: wrong number of arguments ({n})")


def host_seq(I, v):
    return list(I.iterate(v))


def as_index(I, v, what="index"):
    i = I.index_host(v)
    if i is None:
        if isinstance(v, Atom) and v.cls.issub(I.builtins["int"]):
            raise Unsupported(f"symbolic {what}")
        I.raise_("TypeError", f"{what} must be integers, not {I.type_of(v).name}")
    return i


# ------------------------------------------------------------------ list
def list_methods(I):
    m = {}

    def meth(f):
        name = f.__name__.strip("_") if f.__name__.endswith("_") and not \
            f.__name__.startswith("__") else f.__name__
        m[name] = Native("list." + name, f)
        return f

    def body(o):
        if not (isinstance(o, Obj) and isinstance(o.p, list)):
            I.raise_("TypeError", "descriptor requires a 'list' object")
        return o.p

    def __new__(I, a, k):
        return Obj(a[0], [])
    m["__new__"] = StaticM(Native("list.__new__", __new__))

    @meth
    def __init__(I, a, k):
        need(I, a, 1, 2, "list")
        if k:
            I.raise_("TypeError", "list() takes no keyword arguments")
        body(a[0])
        xs = host_seq(I, a[1]) if len(a) > 1 else []
        if xs or a[0].p:
            wrote(I, a[0])
        a[0].p = xs

    @meth
    def append(I, a, k):
        need(I, a, 2, 2, "append")
        body(a[0])
        wrote(I, a[0])
        a[0].p.append(a[1])

    @meth
    def extend(I, a, k):
        need(I, a, 2, 2, "extend")
        body(a[0])
        if a[1] is a[0]:
            xs = list(a[0].p)
            wrote(I, a[0])
            a[0].p.extend(xs)
            return None
        for x in I.iterate(a[1]):
            wrote(I, a[0])
            a[0].p.append(x)

    @meth
    def __iadd__(I, a, k):
        extend(I, a, k)
        return a[0]

    @meth
    def __imul__(I, a, k):
        n = as_index(I, a[1])
        wrote(I, a[0])
        a[0].p = a[0].p * n
        return a[0]

    @meth
    def insert(I, a, k):
        need(I, a, 3, 3, "insert")
        body(a[0])
        i = as_index(I, a[1])
        wrote(I, a[0])
        a[0].p.insert(i, a[2])

    @meth
    def pop(I, a, k):
        need(I, a, 1, 2, "pop")
        body(a[0])
        i = as_index(I, a[1]) if len(a) > 1 else -1
        try:
            a[0].p[i]
        except IndexError:
            I.raise_("IndexError", "pop index out of range")
        wrote(I, a[0])
        return a[0].p.pop(i)

    @meth
    def remove(I, a, k):
        need(I, a, 2, 2, "remove")
        body(a[0])
        for i, x in enumerate(a[0].p):
            if x is a[1] or I.truth(I.eq(x, a[1])):
                wrote(I, a[0])
                del a[0].p[i]
                return None
        I.raise_("ValueError", "list.remove(x): x not in list")

    @meth
    def clear(I, a, k):
        body(a[0])
        wrote(I, a[0])
        a[0].p = []

    @meth
    def reverse(I, a, k):
        wrote(I, a[0])
        a[0].p.reverse()

    @meth
    def sort(I, a, k):
        body(a[0])
        xs = sort_values(I, a[0].p, k.get("key"), k.get("reverse", False))
        wrote(I, a[0])
        a[0].p = xs

    @meth
    def index(I, a, k):
        for i, x in enumerate(body(a[0])):
            if x is a[1] or I.truth(I.eq(x, a[1])):
                return i
        I.raise_("ValueError", "x is not in list")

    @meth
    def count(I, a, k):
        return sum(1 for x in body(a[0]) if x is a[1] or I.truth(I.eq(x, a[1])))

    @meth
    def copy(I, a, k):
        return I.new_list(body(a[0]))

    @meth
    def __len__(I, a, k):
        return len(body(a[0]))

    @meth
    def __contains__(I, a, k):
        return any(x is a[1] or I.truth(I.eq(x, a[1])) for x in body(a[0]))

    @meth
    def __iter__(I, a, k):
        body(a[0])
        return GenVal(I._iter_payload(a[0]), "list")

    @meth
    def __reversed__(I, a, k):
        return GenVal(iter(list(reversed(body(a[0])))), "reversed")

    @meth
    def __getitem__(I, a, k):
        p = body(a[0])
        if isinstance(a[1], Slice):
            return I.new_list(p[slice_host(I, a[1])])
        i = as_index(I, a[1], "list indices")
        try:
            return p[i]
        except IndexError:
            I.raise_("IndexError", "list index out of range")

    @meth
    def __setitem__(I, a, k):
        need(I, a, 3, 3, "__setitem__")
        p = body(a[0])
        if isinstance(a[1], Slice):
            xs = host_seq(I, a[2])
            try:
                q = list(a[0].p)
                q[slice_host(I, a[1])] = xs
            except ValueError:
                I.raise_("ValueError", "extended slice size mismatch")
            wrote(I, a[0])
            a[0].p = q
            return None
        i = as_index(I, a[1], "list indices")
        try:
            p[i]
        except IndexError:
            I.raise_("IndexError", "list assignment index out of range")
        wrote(I, a[0])
        a[0].p[i] = a[2]

    @meth
    def __delitem__(I, a, k):
        p = body(a[0])
        if isinstance(a[1], Slice):
            wrote(I, a[0])
            del a[0].p[slice_host(I, a[1])]
            return None
        i = as_index(I, a[1], "list indices")
        try:
            p[i]
        except IndexError:
            I.raise_("IndexError", "list assignment index out of range")
        wrote(I, a[0])
        del a[0].p[i]

    @meth
    def __add__(I, a, k):
        if not (isinstance(a[1], Obj) and isinstance(a[1].p, list)):
            return NotImplemented
        return I.new_list(body(a[0]) + a[1].p)

    @meth
    def __mul__(I, a, k):
        if I.index_host(a[1]) is None:
            return NotImplemented
        return I.new_list(body(a[0]) * I.index_host(a[1]))

    m["__rmul__"] = m["__mul__"]

    @meth
    def __eq__(I, a, k):
        if not (isinstance(a[1], Obj) and isinstance(a[1].p, list)):
            return NotImplemented
        return I.prim_eq(a[0], a[1])

    @meth
    def __ne__(I, a, k):
        if not (isinstance(a[1], Obj) and isinstance(a[1].p, list)):
            return NotImplemented
        return not I.truth(I.prim_eq(a[0], a[1]))

    @meth
    def __repr__(I, a, k):
        return I.term("repr", I.builtins["str"], a[0])
    m["__hash__"] = None
    return m


def slice_host(I, s):
    out = []
    for x in (s.a, s.b, s.c):
        if x is None:
            out.append(None)
        else:
            out.append(as_index(I, x, "slice indices"))
    return slice(*out)


def sort_values(I, xs, key=None, reverse=False):
    keys = [x if key is None else I.call(key, [x], {}) for x in xs]
    out = []
    rev = I.truth(reverse)
    for kx, x in zip(keys, xs):
        i = len(out)
        while i > 0:
            if (I.lt(out[i - 1][0], kx) if rev else I.lt(kx, out[i - 1][0])):
                i -= 1
            else:
                break
        out.insert(i, (kx, x))
    return [x for _, x in out]


# ------------------------------------------------------------------ dict
def dict_methods(I):
    m = {}

    def meth(f):
        m[f.__name__] = Native("dict." + f.__name__, f)
        return f

    def body(o):
        if not (isinstance(o, Obj) and isinstance(o.p, (PD, AttrPD))):
            I.raise_("TypeError", "descriptor requires a 'dict' object")
        return o.p

    def __new__(I, a, k):
        return Obj(a[0], PD())
    m["__new__"] = StaticM(Native("dict.__new__", __new__))

    def merge(I, o, args, k):
        if len(args) > 1:
            I.raise_("TypeError", "expected at most 1 argument")
        if args:
            v = args[0]
            if I.is_mapping(v) or (not isinstance(v, (Tup, GenVal, str, Atom)) and
                                   I.getattr(v, "keys", None) is not None):
                pairs = list(I.mapping_items(v))
            else:
                pairs = []
                for e in I.iterate(v):
                    xs = host_seq(I, e)
                    if len(xs) != 2:
                        I.raise_("ValueError", "dictionary update sequence element has wrong "
                                               "length; 2 is required")
                    pairs.append((xs[0], xs[1]))
            for x, y in pairs:
                wrote(I, o)
                o.p.set(I, x, y)
        for x, y in k.items():
            wrote(I, o)
            o.p.set(I, x, y)

    @meth
    def __init__(I, a, k):
        body(a[0])
        merge(I, a[0], a[1:], k)

    @meth
    def update(I, a, k):
        body(a[0])
        merge(I, a[0], a[1:], k)

    @meth
    def __ior__(I, a, k):
        body(a[0])
        merge(I, a[0], a[1:], {})
        return a[0]

    @meth
    def __or__(I, a, k):
        if not I.is_mapping(a[1]):
            return NotImplemented
        d = I.new_dict(body(a[0]).items())
        merge(I, d, [a[1]], {})
        return d

    @meth
    def __getitem__(I, a, k):
        need(I, a, 2, 2, "__getitem__")
        e = body(a[0]).find(I, a[1])
        if e is None:
            ms = a[0].cls.lookup("__missing__")
            if ms is not MISSING:
                return I.call(I.bind(ms, a[0], a[0].cls), [a[1]], {})
            I.raise_("KeyError", a[1])
        return e[2]

    @meth
    def __setitem__(I, a, k):
        need(I, a, 3, 3, "__setitem__")
        body(a[0])
        I.hashkey(a[1])
        wrote(I, a[0])
        a[0].p.set(I, a[1], a[2])

    @meth
    def __delitem__(I, a, k):
        if body(a[0]).find(I, a[1]) is None:
            I.raise_("KeyError", a[1])
        wrote(I, a[0])
        a[0].p.delete(I, a[1])

    @meth
    def __contains__(I, a, k):
        return body(a[0]).find(I, a[1]) is not None

    @meth
    def __len__(I, a, k):
        return len(body(a[0]))

    @meth
    def __iter__(I, a, k):
        body(a[0])
        return GenVal(I._iter_payload(a[0]), "dict")

    @meth
    def __reversed__(I, a, k):
        return GenVal(iter(list(reversed(body(a[0]).keys()))), "reversed")

    @meth
    def get(I, a, k):
        need(I, a, 2, 3, "get")
        e = body(a[0]).find(I, a[1])
        if e is None:
            return a[2] if len(a) > 2 else None
        return e[2]

    @meth
    def setdefault(I, a, k):
        e = body(a[0]).find(I, a[1])
        if e is None:
            v = a[2] if len(a) > 2 else None
            wrote(I, a[0])
            a[0].p.set(I, a[1], v)
            return v
        return e[2]

    @meth
    def pop(I, a, k):
        need(I, a, 2, 3, "pop")
        e = body(a[0]).find(I, a[1])
        if e is None:
            if len(a) > 2:
                return a[2]
            I.raise_("KeyError", a[1])
        v = e[2]
        wrote(I, a[0])
        a[0].p.delete(I, a[1])
        return v

    @meth
    def popitem(I, a, k):
        p = body(a[0])
        if not len(p):
            I.raise_("KeyError", "popitem(): dictionary is empty")
        x, y = p.items()[-1]
        wrote(I, a[0])
        a[0].p.delete(I, x)
        return Tup([x, y])

    @meth
    def clear(I, a, k):
        body(a[0])
        wrote(I, a[0])
        a[0].p.clear()

    @meth
    def keys(I, a, k):
        body(a[0])
        return View(a[0], "keys")

    @meth
    def values(I, a, k):
        body(a[0])
        return View(a[0], "values")

    @meth
    def items(I, a, k):
        body(a[0])
        return View(a[0], "items")

    @meth
    def copy(I, a, k):
        return I.new_dict(body(a[0]).items())

    @meth
    def __eq__(I, a, k):
        if not I.is_mapping(a[1]):
            return NotImplemented
        return I.prim_eq(a[0], a[1])

    @meth
    def __ne__(I, a, k):
        if not I.is_mapping(a[1]):
            return NotImplemented
        return not I.truth(I.prim_eq(a[0], a[1]))

    @meth
    def __repr__(I, a, k):
        return I.term("repr", I.builtins["str"], a[0])

    def fromkeys(I, a, k):
        o = I.call(a[0], [], {})
        v = a[2] if len(a) > 2 else None
        for x in I.iterate(a[1]):
            I.setitem(o, x, v)
        return o
    m["fromkeys"] = ClassM(Native("dict.fromkeys", fromkeys))
    m["__hash__"] = None
    return m


# ------------------------------------------------------------------ set
def set_methods(I, frozen):
    m = {}
    nm = "frozenset" if frozen else "set"

    def meth(f):
        m[f.__name__] = Native(f"{nm}." + f.__name__, f)
        return f

    def body(o):
        if not I.is_setlike(o):
            I.raise_("TypeError", f"descriptor requires a '{nm}' object")
        return o.p

    def other(I, v):
        if I.is_setlike(v):
            return v.p.keys()
        return host_seq(I, v)

    def mk(I, xs):
        return I.new_frozenset(xs) if frozen else I.new_set(xs)

    def __new__(I, a, k):
        o = Obj(a[0], PD())
        if frozen and len(a) > 1:
            for x in I.iterate(a[1]):
                o.p.set(I, x, True)
        return o
    m["__new__"] = StaticM(Native(f"{nm}.__new__", __new__))
    if not frozen:
        @meth
        def __init__(I, a, k):
            need(I, a, 1, 2, "set")
            body(a[0])
            xs = host_seq(I, a[1]) if len(a) > 1 else []
            wrote(I, a[0])
            a[0].p = PD()
            for x in xs:
                a[0].p.set(I, x, True)
    else:
        m["__init__"] = Native("frozenset.__init__", lambda I, a, k: None)

    def find(p, x):
        return p.find(I, x) is not None

    def as_pd(I, v):
        if I.is_setlike(v):
            return v.p
        p = PD()
        for x in I.iterate(v):
            p.set(I, x, True)
        return p

    @meth
    def union(I, a, k):
        s = mk(I, body(a[0]).keys())
        for o in a[1:]:
            for x in other(I, o):
                s.p.set(I, x, True)
        return s

    @meth
    def intersection(I, a, k):
        xs = body(a[0]).keys()
        for o in a[1:]:
            q = as_pd(I, o)
            xs = [x for x in xs if find(q, x)]
        return mk(I, xs)

    @meth
    def difference(I, a, k):
        xs = body(a[0]).keys()
        for o in a[1:]:
            q = as_pd(I, o)
            xs = [x for x in xs if not find(q, x)]
        return mk(I, xs)

    @meth
    def symmetric_difference(I, a, k):
        q = as_pd(I, a[1])
        p = body(a[0])
        return mk(I, [x for x in p.keys() if not find(q, x)] +
                  [x for x in q.keys() if not find(p, x)])

    @meth
    def issubset(I, a, k):
        q = as_pd(I, a[1])
        return all(find(q, x) for x in body(a[0]).keys())

    @meth
    def issuperset(I, a, k):
        p = body(a[0])
        return all(find(p, x) for x in other(I, a[1]))

    @meth
    def isdisjoint(I, a, k):
        p = body(a[0])
        return not any(find(p, x) for x in other(I, a[1]))

    @meth
    def copy(I, a, k):
        return mk(I, body(a[0]).keys())

    @meth
    def __len__(I, a, k):
        return len(body(a[0]))

    @meth
    def __contains__(I, a, k):
        return find(body(a[0]), a[1])

    @meth
    def __iter__(I, a, k):
        body(a[0])
        return GenVal(I._iter_payload(a[0]), nm)

    def op(name, f):
        def g(I, a, k):
            if not I.is_setlike(a[1]):
                if isinstance(a[1], View) and a[1].kind in ("keys", "items"):
                    return f(I, [a[0], I.new_set(host_seq(I, a[1]))], {})
                return NotImplemented
            return f(I, a, k)
        m[name] = Native(f"{nm}.{name}", g)
    op("__or__", union)
    op("__and__", intersection)
    op("__sub__", difference)
    op("__xor__", symmetric_difference)

    @meth
    def __eq__(I, a, k):
        if not I.is_setlike(a[1]):
            return NotImplemented
        return I.prim_eq(a[0], a[1])

    @meth
    def __repr__(I, a, k):
        return I.term("repr", I.builtins["str"], a[0])

    def cmp(name, node):
        def g(I, a, k):
            if not I.is_setlike(a[1]):
                return NotImplemented
            return I.compare(node, a[0], a[1])
        m[name] = Native(f"{nm}.{name}", g)
    cmp("__le__", ast.LtE())
    cmp("__ge__", ast.GtE())
    if frozen:
        def __hash__(I, a, k):
            return HashVal(("fs", frozenset(x[0] for x in a[0].p.e)))
        m["__hash__"] = Native("frozenset.__hash__", __hash__)
        return m
    m["__hash__"] = None

    @meth
    def add(I, a, k):
        body(a[0])
        if a[0].p.find(I, a[1]) is None:
            wrote(I, a[0])
            a[0].p.set(I, a[1], True)

    @meth
    def discard(I, a, k):
        body(a[0])
        wrote(I, a[0])
        a[0].p.delete(I, a[1])

    @meth
    def remove(I, a, k):
        body(a[0])
        if a[0].p.find(I, a[1]) is None:
            I.raise_("KeyError", a[1])
        wrote(I, a[0])
        a[0].p.delete(I, a[1])

    @meth
    def pop(I, a, k):
        if not len(body(a[0])):
            I.raise_("KeyError", "pop from an empty set")
        xs = a[0].p.keys()
        i = 0
        if len(xs) > 1 and not I.building:
            i = I.choose(f"set.pop order @{I.where()}", len(xs))
        wrote(I, a[0])
        a[0].p.delete(I, xs[i])
        return xs[i]

    @meth
    def clear(I, a, k):
        body(a[0])
        wrote(I, a[0])
        a[0].p.clear()

    @meth
    def update(I, a, k):
        body(a[0])
        for o in a[1:]:
            for x in other(I, o):
                wrote(I, a[0])
                a[0].p.set(I, x, True)

    def assign(f):
        def g(I, a, k):
            r = f(I, a, k)
            wrote(I, a[0])
            a[0].p = r.p.copy()
        return g
    m["intersection_update"] = Native("set.intersection_update", assign(intersection))
    m["difference_update"] = Native("set.difference_update", assign(difference))
    m["symmetric_difference_update"] = Native("set.symmetric_difference_update",
                                              assign(symmetric_difference))

    def iop(name, f):
        def g(I, a, k):
            if not I.is_setlike(a[1]):
                return NotImplemented
            f(I, a, k)
            return a[0]
        m[name] = Native(f"set.{name}", g)
    iop("__ior__", update)
    iop("__iand__", assign(intersection))
    iop("__isub__", assign(difference))
    iop("__ixor__", assign(symmetric_difference))
    return m


# ------------------------------------------------------------------ str
_STR_PURE = ["lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize",
             "swapcase", "replace", "split", "rsplit", "splitlines", "startswith", "endswith",
             "find", "rfind", "index", "rindex", "count", "isdigit", "isalpha", "isalnum",
             "isspace", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier", "zfill",
             "center", "ljust", "rjust", "partition", "rpartition", "encode", "removeprefix",
             "removesuffix", "expandtabs", "translate", "isascii", "isprintable", "istitle"]


def to_host(v):
    if isinstance(v, HOST):
        return v
    if isinstance(v, Tup):
        return tuple(to_host(x) for x in v.items)
    if isinstance(v, Obj):
        if isinstance(v.p, (str, int, float)):
            return v.p
        if isinstance(v.p, list):
            return [to_host(x) for x in v.p]
        if isinstance(v.p, PD):
            if v.cls.name in ("set", "frozenset"):
                return {to_host(x) for x in v.p.keys()}
            return {to_host(x): to_host(y) for x, y in v.p.items()}
    raise Unsupported("non-constant value")


def is_const(v):
    try:
        to_host(v)
        return True
    except Unsupported:
        return False


def from_host(I, v):
    if isinstance(v, HOST):
        return v
    if isinstance(v, tuple):
        return Tup([from_host(I, x) for x in v])
    if isinstance(v, list):
        return I.new_list([from_host(I, x) for x in v])
    if isinstance(v, dict):
        return I.new_dict([(from_host(I, x), from_host(I, y)) for x, y in v.items()])
    if isinstance(v, frozenset):
        return I.new_frozenset([from_host(I, x) for x in v])
    if isinstance(v, set):
        return I.new_set([from_host(I, x) for x in sorted(v, key=repr)])
    raise Unsupported(f"host value {type(v).__name__}")


def str_lower(I, s, op):
    if op in s.variants:
        return s.variants[op]
    if s.term and s.term[0] == op:
        return s
    if s.term and s.term[0] == "concat":
        parts = [getattr(x, op)() if isinstance(x, str) else str_lower(I, x, op)
                 for x in s.term[1:]]
        return I.concat(parts)
    if s.flags.get("opaque"):
        pass
    return I.term(op, I.builtins["str"], s)


def str_methods(I):
    m = {}
    S = I.builtins

    def recv(I, v, name):
        if isinstance(v, Obj) and isinstance(v.p, (str, Atom)):
            return v.p
        if isinstance(v, str):
            return v
        if isinstance(v, Atom) and v.cls.issub(S["str"]):
            return v
        if isinstance(v, JsonText):
            raise Unsupported(f"str.{name} on serialized text")
        I.raise_("TypeError", f"descriptor '{name}' for 'str' objects doesn't apply to a "
                              f"'{I.type_of(v).name}' object")

    def mk(name):
        def f(I, a, k):
            need(I, a, 1, None, name)
            s = recv(I, a[0], name)
            if isinstance(s, str) and all(is_const(x) for x in a[1:]) and \
                    all(is_const(x) for x in k.values()):
                try:
                    return from_host(I, getattr(s, name)(*[to_host(x) for x in a[1:]],
                                                         **{x: to_host(y) for x, y in k.items()}))
                except TypeError as e:
                    I.raise_("TypeError", str(e))
                except ValueError as e:
                    I.raise_("ValueError", str(e))
            if isinstance(s, str):
                if name in ("startswith", "endswith", "isdigit"):
                    return I.fork(f"{s!r}.{name}", ("strp", name, s, str(I.ident(a[1]))))
                if name == "replace":
                    return I.term("replace", S["str"], s, *a[1:])
                raise Unsupported(f"str.{name} with symbolic argument")
            if name in ("lower", "upper", "casefold"):
                return str_lower(I, s, name)
            if name in ("strip", "lstrip", "rstrip", "removeprefix", "removesuffix"):
                if name in s.variants:
                    return s.variants[name]
                if s.term and s.term[0] == name and \
                        [repr(x) for x in s.term[2:]] == [repr(x) for x in a[1:]]:
                    return s
                if s.term and s.term[0] in ("lower", "upper", "casefold"):
                    inner = mk(name)(I, [s.term[1]] + list(a[1:]), k)
                    return str_lower(I, inner, s.term[0])
                if s.flags.get("trim", False) or s.flags.get("empty") or not I.fork(
                        f"{s!r}.{name}({', '.join(map(repr, a[1:]))}) removes something",
                        ("strp", name, s.oid) + tuple(repr(x) for x in a[1:])):
                    return s
                return I.term(name, S["str"], s, *a[1:])
            if name in ("title", "capitalize", "swapcase", "zfill", "center", "ljust", "rjust",
                        "replace", "expandtabs"):
                return I.term(name, S["str"], s, *a[1:])
            if name == "encode":
                return I.term(name, S["bytes"], s)
            if name in ("split", "rsplit", "splitlines"):
                sep = a[1] if len(a) > 1 else None
                if s.term and s.term[0] == "concat" and isinstance(sep, str) and name == "split":
                    return split_concat(I, s, sep)
                if s.term or s.flags.get("trim", False) or not I.fork(
                        f"{s!r} contains {sep!r}", ("strp", "contains", s.oid, repr(sep))):
                    return I.new_list([s])
                return I.new_list([I.term(name + "0", S["str"], s, *a[1:]),
                                   I.term(name + "1", S["str"], s, *a[1:])])
            if name in ("partition", "rpartition"):
                if s.term or not I.fork(f"{s!r} contains {a[1]!r}",
                                        ("strp", "contains", s.oid, repr(a[1]))):
                    return Tup([s, "", ""] if name == "partition" else ["", "", s])
                return Tup([I.term(name + "0", S["str"], s, a[1]), a[1],
                            I.term(name + "1", S["str"], s, a[1])])
            if name.startswith("is") or name in ("startswith", "endswith"):
                if name in ("startswith", "endswith") and s.term and s.term[0] == "concat":
                    e = s.term[1] if name == "startswith" else s.term[-1]
                    if isinstance(e, str) and isinstance(a[1], str) and len(e) >= len(a[1]):
                        return getattr(e, name)(a[1])
                if name in s.flags:
                    return s.flags[name]
                return I.fork(f"{s!r}.{name}({', '.join(map(repr, a[1:]))})",
                              ("strp", name, s.oid) + tuple(repr(x) for x in a[1:]))
            if name in ("count", "find", "rfind", "index", "rindex"):
                return I.term(name, S["int"], s, *a[1:])
            raise Unsupported(f"str.{name} on symbolic string")
        return f
    for n in _STR_PURE:
        m[n] = Native("str." + n, mk(n))

    def split_concat(I, s, sep):
        out, cur = [], []
        for x in s.term[1:]:
            if isinstance(x, str):
                bits = x.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(I.concat(cur))
                    cur = [b]
            else:
                cur.append(x)
        out.append(I.concat(cur))
        return I.new_list(out)

    def join(I, a, k):
        sep = recv(I, a[0], "join")
        parts = []
        for i, x in enumerate(I.iterate(a[1])):
            if not I.type_of(x).issub(S["str"]):
                I.raise_("TypeError", f"sequence item {i}: expected str instance, "
                                      f"{I.type_of(x).name} found")
            if i:
                parts.append(sep)
            parts.append(I.strval(x))
        return I.concat(parts)
    m["join"] = Native("str.join", join)

    def fmt(I, a, k):
        s = recv(I, a[0], "format")
        if isinstance(s, str) and all(is_const(x) for x in a[1:]) and \
                all(is_const(x) for x in k.values()):
            try:
                return s.format(*[to_host(x) for x in a[1:]],
                                **{x: to_host(y) for x, y in k.items()})
            except Exception:
                pass
        if isinstance(s, str):
            import string
            parts, auto = [], 0
            try:
                for lit, fld, spec, conv in string.Formatter().parse(s):
                    parts.append(lit)
                    if fld is None:
                        continue
                    first, rest = _string.formatter_field_name_split(fld)
                    if first == "":
                        v, auto = a[1 + auto], auto + 1
                    elif isinstance(first, int):
                        v = a[1 + first]
                    elif first in k:
                        v = k[first]
                    else:
                        I.raise_("KeyError", first)
                    for is_attr, nm in rest:
                        v = I.getattr(v, nm) if is_attr else I.getitem(v, nm)
                    if conv:
                        v = I.to_str(v) if conv == "s" else do_repr(I, v)
                    if spec and "{" in spec:
                        spec = fmt(I, [spec] + a[1 + auto:], k)
                    parts.append(I.strval(I.format_value(v, spec)))
                return I.concat(parts)
            except ValueError as e:
                I.raise_("ValueError", str(e))
            except IndexError:
                I.raise_("IndexError", "Replacement index out of range")
        return I.term("format", S["str"], s, *a[1:])
    m["format"] = Native("str.format", fmt)
    m["format_map"] = Native("str.format_map", lambda I, a, k: fmt(
        I, [a[0]], {x: y for x, y in I.mapping_items(a[1])}))

    def __new__(I, a, k):
        v = a[1] if len(a) > 1 else k.get("object", "")
        r = I.to_str(v)
        if a[0] is S["str"]:
            return r.p if isinstance(r, Obj) else r
        return Obj(a[0], r)
    m["__new__"] = StaticM(Native("str.__new__", __new__))

    def str_of(I, a, k):
        return recv(I, a[0], "__str__")
    m["__str__"] = Native("str.__str__", str_of)
    m["__repr__"] = Native("str.__repr__", lambda I, a, k: plain_repr(I, a[0])
                           if not isinstance(a[0], str) else repr(a[0]))

    def __format__(I, a, k):
        return I.format_value(recv(I, a[0], "__format__"), a[1] if len(a) > 1 else "")
    m["__format__"] = Native("str.__format__", __format__)

    def __len__(I, a, k):
        return str_len(I, recv(I, a[0], "__len__"))
    m["__len__"] = Native("str.__len__", __len__)
    m["__iter__"] = Native("str.__iter__",
                           lambda I, a, k: GenVal(I.iterate(recv(I, a[0], "__iter__")), "str"))
    m["__contains__"] = Native("str.__contains__",
                               lambda I, a, k: I.contains(recv(I, a[0], "__contains__"), a[1]))
    m["__getitem__"] = Native("str.__getitem__",
                              lambda I, a, k: I.getitem(recv(I, a[0], "__getitem__"), a[1]))

    def __eq__(I, a, k):
        if not I.type_of(a[1]).issub(S["str"]):
            return NotImplemented
        return I.prim_eq(a[0], a[1])
    m["__eq__"] = Native("str.__eq__", __eq__)
    m["__hash__"] = Native("str.__hash__",
                           lambda I, a, k: HashVal(I.hashkey(recv(I, a[0], "__hash__"))))

    def maketrans(I, a, k):
        return from_host(I, str.maketrans(*[to_host(x) for x in a]))
    m["maketrans"] = StaticM(Native("str.maketrans", maketrans))
    return m


def str_len(I, s):
    if isinstance(s, str):
        return len(s)
    if s.flags.get("empty"):
        return 0
    return I.term("len", I.builtins["int"], s)


# ------------------------------------------------------------------ tuple
def tuple_methods(I):
    m = {}

    def items(v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Obj) and isinstance(v.p, Tup):
            return v.p.items
        I.raise_("TypeError", "descriptor requires a 'tuple' object")

    def __new__(I, a, k):
        t = Tup(host_seq(I, a[1]) if len(a) > 1 else [])
        if a[0] is I.builtins["tuple"]:
            return t
        return Obj(a[0], t)
    m["__new__"] = StaticM(Native("tuple.__new__", __new__))

    def add(n, f):
        m[n] = Native("tuple." + n, f)

    def index(I, a, k):
        for i, x in enumerate(items(a[0])):
            if x is a[1] or I.truth(I.eq(x, a[1])):
                return i
        I.raise_("ValueError", "tuple.index(x): x not in tuple")
    add("index", index)
    add("count", lambda I, a, k: sum(1 for x in items(a[0])
                                     if x is a[1] or I.truth(I.eq(x, a[1]))))
    add("__len__", lambda I, a, k: len(items(a[0])))
    add("__iter__", lambda I, a, k: GenVal(iter(items(a[0])), "tuple"))
    add("__contains__", lambda I, a, k: any(x is a[1] or I.truth(I.eq(x, a[1]))
                                            for x in items(a[0])))
    add("__getitem__", lambda I, a, k: I.getitem(Tup(items(a[0])), a[1]))
    add("__reversed__", lambda I, a, k: GenVal(iter(items(a[0])[::-1]), "reversed"))

    def __eq__(I, a, k):
        if not I.type_of(a[1]).issub(I.builtins["tuple"]):
            return NotImplemented
        return I.seq_eq(items(a[0]), items(a[1]))
    add("__eq__", __eq__)
    add("__hash__", lambda I, a, k: HashVal(I.hashkey(Tup(items(a[0])))))
    add("__repr__", lambda I, a, k: plain_repr(I, Tup(items(a[0]))))
    return m


# ------------------------------------------------------------------ numbers
def to_float(I, v):
    B = I.builtins
    if isinstance(v, (bool, int, float)):
        try:
            return float(v)
        except OverflowError:
            I.raise_("OverflowError", "int too large to convert to float")
    if isinstance(v, Obj) and isinstance(v.p, (int, float)):
        return float(v.p)
    s = I.strval(v)
    if isinstance(s, str):
        try:
            return float(s)
        except ValueError:
            I.raise_("ValueError", f"could not convert string to float: {s!r}")
    if isinstance(s, Atom):
        c = s.cls
        if c.issub(B["float"]):
            return s
        if c is B["bool"]:
            return I.term("float", B["float"], s)
        if c.issub(B["int"]):
            return I.term("float", B["float"], s)
        if c.issub(B["str"]):
            if s.term and s.term[0] == "str" and isinstance(s.term[1], Atom) and \
                    s.term[1].cls.issub(B["float"]):
                return s.term[1]
            I.raise_("ValueError", "could not convert string to float")
    if isinstance(v, Obj):
        f = v.cls.lookup("__float__")
        if isinstance(f, FuncVal):
            return I.call(f, [v], {})
    if isinstance(v, Ext):
        return I.term("float", B["float"], v)
    I.raise_("TypeError", "float() argument must be a string or a real number")


def to_int(I, v, *base, **k):
    B = I.builtins
    if "base" in k:
        base = (k["base"],)
    if base:
        if isinstance(v, str) and isinstance(base[0], int):
            try:
                return int(v, base[0])
            except ValueError:
                I.raise_("ValueError", "invalid literal for int()")
        raise Unsupported("int() with base")
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        try:
            return int(v)
        except ValueError:
            I.raise_("ValueError", "cannot convert float NaN to integer")
        except OverflowError:
            I.raise_("OverflowError", "cannot convert float infinity to integer")
    if isinstance(v, Obj) and isinstance(v.p, (int, float)):
        return int(v.p)
    s = I.strval(v)
    if isinstance(s, str):
        try:
            return int(s)
        except ValueError:
            I.raise_("ValueError", f"invalid literal for int() with base 10: {s!r}")
    if isinstance(s, Atom):
        c = s.cls
        if c is B["bool"]:
            return I.term("int", B["int"], s)
        if c.issub(B["int"]):
            return s
        if c.issub(B["float"]):
            if s.flags.get("nan"):
                I.raise_("ValueError", "cannot convert float NaN to integer")
            if s.flags.get("inf"):
                I.raise_("OverflowError", "cannot convert float infinity to integer")
            if s.term and s.term[0] == "float" and isinstance(s.term[1], Atom):
                pass
            return I.term("int", B["int"], s)
        if c.issub(B["str"]):
            I.raise_("ValueError", "invalid literal for int() with base 10")
    if isinstance(v, Obj):
        for n in ("__int__", "__index__", "__trunc__"):
            f = v.cls.lookup(n)
            if isinstance(f, FuncVal):
                return I.call(f, [v], {})
    if isinstance(v, Ext):
        return I.term("int", B["int"], v)
    I.raise_("TypeError", "int() argument must be a string, a bytes-like object or a real number")


def num_methods(I, name):
    m = {}
    B = I.builtins
    conv = to_int if name == "int" else to_float

    def __new__(I, a, k):
        v = conv(I, *a[1:], **k) if len(a) > 1 else (0 if name == "int" else 0.0)
        if a[0] is B[name]:
            return v
        return Obj(a[0], v)
    m["__new__"] = StaticM(Native(name + ".__new__", __new__))

    def is_integer(I, a, k):
        v = I.numeric(a[0])
        if isinstance(v, (int, float)):
            return float(v).is_integer()
        if v.cls.issub(B["int"]):
            return True
        f = v.flags.get("integral")
        if f is not None:
            return f
        if v.flags.get("nan") or v.flags.get("inf"):
            return False
        return I.fork(f"{v!r} is integral", ("integral", v.oid))
    m["is_integer"] = Native(name + ".is_integer", is_integer)

    def dunder(nm, fn):
        m[nm] = Native(f"{name}.{nm}", fn)
    dunder("__float__", lambda I, a, k: to_float(I, a[0]))
    dunder("__int__", lambda I, a, k: to_int(I, a[0]))
    dunder("__repr__", lambda I, a, k: I.to_str(a[0]))
    dunder("__str__", lambda I, a, k: I.to_str(a[0]))
    dunder("__hash__", lambda I, a, k: HashVal(I.hashkey(a[0])))
    dunder("conjugate", lambda I, a, k: a[0])

    def __eq__(I, a, k):
        if I.numeric(a[1]) is None:
            return NotImplemented
        return I.prim_eq(a[0], a[1])
    dunder("__eq__", __eq__)
    for nm, node in (("lt", ast.Lt()), ("gt", ast.Gt()), ("le", ast.LtE()), ("ge", ast.GtE())):
        def cmp(I, a, k, node=node):
            if I.numeric(a[1]) is None:
                return NotImplemented
            return I.compare(node, a[0], a[1])
        dunder(f"__{nm}__", cmp)
    if name == "int":
        def bit_length(I, a, k):
            return to_host(a[0]).bit_length()
        m["bit_length"] = Native("int.bit_length", bit_length)
        m["bit_count"] = Native("int.bit_count", lambda I, a, k: to_host(a[0]).bit_count())
        m["numerator"] = PropVal(Native("int.numerator", lambda I, a, k: I.numeric(a[0])))
        m["denominator"] = PropVal(Native("int.denominator", lambda I, a, k: 1))
        dunder("__index__", lambda I, a, k: to_int(I, a[0]))
    else:
        m["hex"] = Native("float.hex", lambda I, a, k: to_host(a[0]).hex())
        m["fromhex"] = StaticM(Native("float.fromhex",
                                      lambda I, a, k: float.fromhex(to_host(a[0]))))

    def ratio(I, a, k):
        v = I.numeric(a[0])
        if isinstance(v, (int, float)):
            try:
                return Tup(v.as_integer_ratio())
            except (ValueError, OverflowError) as e:
                I.raise_(type(e).__name__, str(e))
        raise Unsupported("ratio of a symbolic number")
    m["as_integer_ratio"] = Native(name + ".as_integer_ratio", ratio)
    m["real"] = PropVal(Native(name + ".real", lambda I, a, k: I.numeric(a[0])
                               if I.numeric(a[0]) is not None else a[0]))
    m["imag"] = PropVal(Native(name + ".imag", lambda I, a, k: 0 if name == "int" else 0.0))
    for nm, node in (("add", ast.Add()), ("sub", ast.Sub()), ("mul", ast.Mult()),
                     ("truediv", ast.Div()), ("floordiv", ast.FloorDiv()), ("mod", ast.Mod()),
                     ("pow", ast.Pow())):
        def arith(I, a, k, node=node, flip=False):
            x, y = I.numeric(a[0]), I.numeric(a[1])
            if x is None or y is None:
                return NotImplemented
            return I.binop(node, y, x) if flip else I.binop(node, x, y)
        dunder(f"__{nm}__", arith)
        dunder(f"__r{nm}__", lambda I, a, k, f=arith, node=node: f(I, a, k, node, True))
    for nm, node in (("neg", ast.USub()), ("pos", ast.UAdd())):
        dunder(f"__{nm}__", lambda I, a, k, node=node: I.unary(node, I.numeric(a[0])))
    dunder("__abs__", lambda I, a, k: I.call(B["abs"], a, {}))
    dunder("__bool__", lambda I, a, k: I.truth(I.numeric(a[0])))
    return m


# ------------------------------------------------------------------ enum
def build_enum(I, c):
    if c.enum is None:
        c.enum = []
    B = I.builtins
    names = []
    for k, v in list(c.ns.items()):
        if k.startswith("__") and k.endswith("__") or k in ("_missing_", "_ignore_", "_order_",
                                                             "_generate_next_value_"):
            continue
        if isinstance(v, (FuncVal, PropVal, StaticM, ClassM, Native, CachedFn, ClassVal)):
            continue
        if isinstance(v, Obj) and v.cls.lookup("__get__") is not MISSING:
            continue
        if k.startswith("_") and not k.startswith("__"):
            continue
        names.append(k)
    new = c.lookup("__new__")
    new = new.f if isinstance(new, StaticM) else new
    user_new = isinstance(new, FuncVal)
    count = 0
    for k in names:
        v = c.ns[k]
        if isinstance(v, Obj) and v.d.get("__enum_auto__"):
            count += 1
            v = count
            if c.issub(B["str"]):
                v = k.lower()
        elif isinstance(v, int):
            count = v
        args = list(v.items) if isinstance(v, Tup) else [v]
        if user_new:
            m = I.call(new, [c] + args, {})
            m.d.setdefault("_value_", v)
        else:
            p = None
            if c.issub(B["int"]):
                p = to_int(I, *args)
            elif c.issub(B["str"]):
                p = args[0]
            elif c.issub(B["float"]):
                p = to_float(I, *args)
            m = Obj(c, p)
            m.d["_value_"] = p if p is not None else v
        init = c.lookup("__init__")
        m.d["_name_"] = k
        if isinstance(init, FuncVal):
            I.call(init, [m] + args, {})
        alias = next((x for x in c.enum if I.truth(I.eq(x.d["_value_"], m.d["_value_"]))), None)
        if alias is not None:
            c.ns[k] = alias
            continue
        m.label = f"{c.name}.{k}"
        c.ns[k] = m
        c.enum.append(m)
    if names:
        c.ns["__enum_final__"] = True


def enum_call(I, cls, args, kw):
    if len(args) != 1:
        raise Unsupported("functional enum API")
    v = args[0]
    for m in cls.enum:
        if m is v:
            return m
    for m in cls.enum:
        if I.truth(I.eq(m.d["_value_"], v)):
            return m
    ms = cls.lookup("_missing_")
    if ms is not MISSING:
        f = ms.f if isinstance(ms, ClassM) else ms
        r = I.call(f, [cls, v], {})
        if isinstance(r, Obj) and r.cls.issub(cls):
            return r
        if r is not None:
            I.raise_("TypeError", "error in _missing_")
    I.raise_("ValueError", I.concat([I.to_str(v), f" is not a valid {cls.name}"]))


# ------------------------------------------------------------------ builtin functions
def obj_id(I, v):
    m = I.id_map.setdefault("ids", {})
    key = I.ident(v)
    if key not in m:
        m[key] = 140000000000 + 64 * len(m)
    return m[key]


def do_len(I, v):
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, str) or isinstance(v, bytes):
        return len(v)
    if isinstance(v, View):
        return len(v.o.p)
    if isinstance(v, Obj):
        f = v.cls.lookup("__len__")
        if f is MISSING:
            I.raise_("TypeError", f"object of type '{v.cls.name}' has no len()")
        return I.call(I.bind(f, v, v.cls), [], {})
    if isinstance(v, Atom):
        if v.cls.issub(I.builtins["str"]):
            return str_len(I, v)
        el = v.flags.get("elements")
        if el is not None:
            return len(el)
    if isinstance(v, ClassVal) and v.enum is not None:
        return len(v.enum)
    if isinstance(v, JsonText):
        raise Unsupported("len of serialized text")
    if isinstance(v, Ext):
        return I.term("len", I.builtins["int"], v)
    I.raise_("TypeError", f"object of type '{I.type_of(v).name}' has no len()")


def do_iter(I, v):
    if isinstance(v, GenVal):
        return v
    if isinstance(v, Obj):
        it = v.cls.lookup("__iter__")
        if isinstance(it, FuncVal):
            return I.call(I.bind(it, v, v.cls), [], {})
    return GenVal(I.iterate(v), "iterator")


def do_next(I, a):
    v = a[0]
    if isinstance(v, GenVal):
        try:
            return next(v.it)
        except StopIteration as e:
            if len(a) > 1:
                return a[1]
            ex = I.make_exc(I.builtins["StopIteration"])
            ex.value.d["value"] = e.value
            raise ex
    if isinstance(v, Obj) and v.cls.lookup("__next__") is not MISSING:
        try:
            return I.call(I.bind(v.cls.lookup("__next__"), v, v.cls), [], {})
        except PyExc as e:
            if len(a) > 1 and e.value.cls.issub(I.builtins["StopIteration"]):
                return a[1]
            raise
    if isinstance(v, Ext):
        return Ext(f"next({v.name})")
    I.raise_("TypeError", f"'{I.type_of(v).name}' object is not an iterator")


def text_result(I, r, what):
    if not I.type_of(r).issub(I.builtins["str"]):
        I.raise_("TypeError", f"{what} returned non-string (type {I.type_of(r).name})")
    return r


def do_repr(I, v):
    if isinstance(v, HOST):
        return repr(v)
    if isinstance(v, ClassVal):
        mr = v.meta.lookup("__repr__") if v.meta else MISSING
        if isinstance(mr, FuncVal):
            return text_result(I, I.call(mr, [v], {}), "__repr__")
        if v.module is not None or v.name in I.builtins:
            mod = f"{v.module.name}." if v.module is not None else ""
            return f"<{'enum' if v.enum is not None else 'class'} '{mod}{v.qualname}'>" \
                if v.enum is None else f"<enum '{v.name}'>"
    if isinstance(v, Obj):
        f = v.cls.lookup("__repr__")
        if isinstance(f, FuncVal):
            return text_result(I, I.call(f, [v], {}), "__repr__")
    return plain_repr(I, v)


def plain_repr(I, v):
    """The text the builtin __repr__ of a value gives."""
    B = I.builtins
    if isinstance(v, Atom) and I.numeric(v) is not None and v.cls in (B["int"], B["float"]):
        return I.term("str", B["str"], v)
    if isinstance(v, Obj) and v.cls.enum is not None:
        return I.concat([f"<{v.cls.name}.{v.d.get('_name_')}: ",
                         do_repr(I, v.d.get("_value_")), ">"])
    if isinstance(v, Obj) and v.cls.issub(B["BaseException"]) and \
            isinstance(v.d.get("args"), Tup):
        return I.concat([v.cls.name, "("] + joined(I, v.d["args"].items) + [")"])
    if isinstance(v, Obj) and isinstance(v.p, (str, int, float)) and v.cls.enum is None:
        return repr(v.p)
    items, o, c, key = None, "", "", None
    if isinstance(v, Tup) or isinstance(v, Obj) and isinstance(v.p, Tup):
        items = v.items if isinstance(v, Tup) else v.p.items
        o, c = "(", ",)" if len(items) == 1 else ")"
        key = ("tuple", id(v))
    elif isinstance(v, Obj) and isinstance(v.p, list) and v.cls.issub(B["list"]):
        items, o, c, key = v.p, "[", "]", v.oid
    elif I.is_mapping(v) or I.is_setlike(v):
        key = v.oid
        items = v.p.items() if I.is_mapping(v) else v.p.keys()
        o, c = "{", "}"
        if v.cls.name in ("set", "frozenset", "OrderedDict", "Counter", "defaultdict") or \
                v.cls.issub(B["set"]):
            if v.cls is B["set"] and len(items):
                pass
            elif I.is_setlike(v):
                if not len(items):
                    return f"{v.cls.name}()"
                o, c = v.cls.name + "({", "})"
            else:
                o, c = None, None
    elif isinstance(v, View):
        items, o, c, key = list(I.iterate(v)), f"dict_{v.kind}([", "])", v.oid
    if items is None or o is None:
        return I.term("repr", B["str"], v)
    active = I.id_map.setdefault("repr", set())
    if key in active:
        return "[...]" if o == "[" else "{...}" if o == "{" else "(...)"
    active.add(key)
    try:
        if I.is_mapping(v):
            parts = []
            for a, b in items:
                parts += ([", "] if parts else []) + [do_repr(I, a), ": ", do_repr(I, b)]
        else:
            parts = joined(I, items)
    finally:
        active.discard(key)
    return I.concat([o] + [I.strval(x) for x in parts] + [c])


def joined(I, xs):
    parts = []
    for x in xs:
        parts += ([", "] if parts else []) + [I.strval(do_repr(I, x))]
    return parts


def install_functions(I):
    B = I.builtins

    def reg(name):
        def deco(f):
            B[name] = Native(name, f)
            return f
        return deco

    @reg("isinstance")
    def _(I, a, k):
        need(I, a, 2, 2, "isinstance")
        return I.isinstance(a[0], a[1])

    @reg("issubclass")
    def _(I, a, k):
        need(I, a, 2, 2, "issubclass")
        return I.issubclass(a[0], a[1])

    @reg("getattr")
    def _(I, a, k):
        return I.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING)

    @reg("setattr")
    def _(I, a, k):
        I.setattr(a[0], a[1], a[2])

    @reg("delattr")
    def _(I, a, k):
        I.delattr(a[0], I.strval(a[1]))

    @reg("hasattr")
    def _(I, a, k):
        return I.getattr(a[0], a[1], default=_NO) is not _NO

    @reg("len")
    def _(I, a, k):
        need(I, a, 1, 1, "len")
        return do_len(I, a[0])

    @reg("iter")
    def _(I, a, k):
        if len(a) > 1:
            def g():
                while True:
                    x = I.call(a[0], [], {})
                    if x is a[1] or I.truth(I.eq(x, a[1])):
                        return
                    yield x
            return GenVal(g(), "callable_iterator")
        return do_iter(I, a[0])

    @reg("next")
    def _(I, a, k):
        return do_next(I, a)

    @reg("any")
    def _(I, a, k):
        for x in I.iterate(a[0]):
            if I.truth(x):
                return True
        return False

    @reg("all")
    def _(I, a, k):
        for x in I.iterate(a[0]):
            if not I.truth(x):
                return False
        return True

    @reg("sum")
    def _(I, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x in I.iterate(a[0]):
            acc = I.binop(ast.Add(), acc, x) if acc != 0 or not isinstance(acc, int) or \
                I.numeric(x) is None else x
        return acc

    def minmax(name, pick):
        def f(I, a, k):
            xs = host_seq(I, a[0]) if len(a) == 1 else list(a)
            if not xs:
                if "default" in k:
                    return k["default"]
                I.raise_("ValueError", f"{name}() arg is an empty sequence")
            key = k.get("key")
            best = xs[0]
            bk = I.call(key, [best], {}) if key is not None else best
            for x in xs[1:]:
                kx = I.call(key, [x], {}) if key is not None else x
                if pick(kx, bk):
                    best, bk = x, kx
            return best
        B[name] = Native(name, f)
    minmax("min", lambda x, b: I.lt(x, b))
    minmax("max", lambda x, b: I.lt(b, x))

    @reg("abs")
    def _(I, a, k):
        v = I.numeric(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        if v is None:
            I.raise_("TypeError", "bad operand type for abs()")
        return I.term("abs", v.cls, v)

    @reg("round")
    def _(I, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            return round(*a)
        return I.term("round", B["float"] if len(a) > 1 else B["int"], *a)

    @reg("divmod")
    def _(I, a, k):
        return Tup([I.binop(ast.FloorDiv(), *a), I.binop(ast.Mod(), *a)])

    @reg("pow")
    def _(I, a, k):
        return I.binop(ast.Pow(), a[0], a[1])

    @reg("sorted")
    def _(I, a, k):
        return I.new_list(sort_values(I, host_seq(I, a[0]), k.get("key"),
                                      k.get("reverse", False)))

    @reg("reversed")
    def _(I, a, k):
        v = a[0]
        if isinstance(v, Obj):
            r = v.cls.lookup("__reversed__")
            if isinstance(r, FuncVal):
                return I.call(r, [v], {})
            if isinstance(v.p, (list, PD)) and not I.is_setlike(v):
                return GenVal(iter(list(reversed(host_seq(I, v)))), "reversed")
            if v.cls.lookup("__getitem__") is not MISSING and \
                    v.cls.lookup("__len__") is not MISSING and not I.is_setlike(v):
                n = do_len(I, v)
                return GenVal((I.getitem(v, i) for i in range(n - 1, -1, -1)), "reversed")
            I.raise_("TypeError", f"'{v.cls.name}' object is not reversible")
        if isinstance(v, (Tup, View, str)) or isinstance(v, Atom) and \
                v.cls.issub(B["str"]):
            return GenVal(iter(list(reversed(host_seq(I, v)))), "reversed")
        I.raise_("TypeError", f"'{I.type_of(v).name}' object is not reversible")

    @reg("enumerate")
    def _(I, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        it = I.iterate(a[0])

        def g():
            i = start
            for x in it:
                yield Tup([i, x])
                i += 1
        return GenVal(g(), "enumerate")

    @reg("zip")
    def _(I, a, k):
        its = [I.iterate(x) for x in a]
        strict = I.truth(k.get("strict", False))

        def g():
            if not its:
                return
            while True:
                row = []
                for n, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if strict and (n or any(next(j, _NO) is not _NO for j in its[1:])):
                            I.raise_("ValueError", "zip() arguments have different lengths")
                        return
                yield Tup(row)
        return GenVal(g(), "zip")

    @reg("map")
    def _(I, a, k):
        its = [I.iterate(x) for x in a[1:]]

        def g():
            while True:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield I.call(a[0], row, {})
        return GenVal(g(), "map")

    @reg("filter")
    def _(I, a, k):
        it = I.iterate(a[1])

        def g():
            for x in it:
                if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                    yield x
        return GenVal(g(), "filter")

    @reg("id")
    def _(I, a, k):
        return obj_id(I, a[0])

    @reg("hash")
    def _(I, a, k):
        return HashVal(I.hashkey(a[0]))

    @reg("print")
    def _(I, a, k):
        I.events.append(("print", tuple(a), None, I.where()))

    @reg("repr")
    def _(I, a, k):
        return do_repr(I, a[0])

    @reg("ascii")
    def _(I, a, k):
        return do_repr(I, a[0])

    @reg("format")
    def _(I, a, k):
        return I.format_value(a[0], a[1] if len(a) > 1 else "")

    @reg("callable")
    def _(I, a, k):
        v = a[0]
        if isinstance(v, (FuncVal, BoundM, Native, ClassVal, CachedFn)):
            return True
        if isinstance(v, Obj):
            return v.cls.lookup("__call__") is not MISSING
        if isinstance(v, Ext):
            return True
        return isinstance(v, Atom) and "call" in v.flags

    @reg("vars")
    def _(I, a, k):
        return I.getattr(a[0], "__dict__")

    @reg("locals")
    def _(I, a, k):
        raise Unsupported("locals()")

    @reg("globals")
    def _(I, a, k):
        raise Unsupported("globals()")

    @reg("dir")
    def _(I, a, k):
        v = a[0]
        names = set()
        if isinstance(v, ModuleVal):
            names |= set(v.ns)
        else:
            c = v if isinstance(v, ClassVal) else I.type_of(v)
            for b in c.mro:
                names |= {n for n in b.ns if isinstance(n, str)}
            if isinstance(v, Obj):
                names |= set(v.d)
        return I.new_list(sorted(names))

    @reg("ord")
    def _(I, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        return I.term("ord", B["int"], a[0])

    @reg("chr")
    def _(I, a, k):
        return chr(to_host(a[0]))

    @reg("open")
    def _(I, a, k):
        from gsa.libmods import open_file
        return open_file(I, *a, **k)

    for n in ("bin", "hex", "oct"):
        B[n] = Native(n, lambda I, a, k, n=n: getattr(hb, n)(to_host(a[0])))

    for n in ("exec", "eval", "compile", "__import__", "input", "breakpoint"):
        def f(I, a, k, n=n):
            raise Unsupported(f"{n}()")
        B[n] = Native(n, f)
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["__name__"] = "builtins"


class _No:
    pass


_NO = _No()


# ------------------------------------------------------------------ install
_EXC = """
BaseException
 Exception
  ArithmeticError
   FloatingPointError
   OverflowError
   ZeroDivisionError
  AssertionError
  AttributeError
  BufferError
  EOFError
  ImportError
   ModuleNotFoundError
  LookupError
   IndexError
   KeyError
  MemoryError
  NameError
   UnboundLocalError
  OSError
   FileNotFoundError
   FileExistsError
   PermissionError
   NotADirectoryError
   IsADirectoryError
   TimeoutError
  ReferenceError
  RuntimeError
   NotImplementedError
   RecursionError
  StopIteration
  StopAsyncIteration
  SyntaxError
  SystemError
  TypeError
  ValueError
   UnicodeError
  Warning
   DeprecationWarning
   FutureWarning
   PendingDeprecationWarning
   RuntimeWarning
   SyntaxWarning
   UserWarning
   ImportWarning
   UnicodeWarning
   BytesWarning
   ResourceWarning
 GeneratorExit
 KeyboardInterrupt
 SystemExit
"""


def install(I):
    B = I.builtins
    I._pending = None
    obj = ClassVal("object", [], {}, None, native=True)
    typ = ClassVal("type", [obj], {}, None, native=True)
    obj.meta = typ
    typ.meta = typ
    B["object"], B["type"] = obj, typ

    def cls(name, bases=None, ns=None, meta=None):
        c = ClassVal(name, bases or [obj], ns if ns is not None else {}, meta or typ, native=True)
        B[name] = c
        return c
    I.native_class = lambda name, bases=None, ns=None, meta=None: ClassVal(
        name, bases or [obj], ns if ns is not None else {}, meta or typ, native=True)

    # -- object
    def obj_new(I, a, k):
        c = a[0]
        if not isinstance(c, ClassVal):
            I.raise_("TypeError", "object.__new__(X): X is not a type object")
        if c.abstract:
            I.raise_("TypeError", f"Can't instantiate abstract class {c.name}")
        return Obj(c)
    obj.ns["__new__"] = StaticM(Native("object.__new__", obj_new))
    obj.ns["__init__"] = Native("object.__init__", lambda I, a, k: None)
    obj.ns["__init_subclass__"] = ClassM(Native("object.__init_subclass__", lambda I, a, k: None))
    obj.ns["__hash__"] = Native("object.__hash__",
                                lambda I, a, k: HashVal(("o", I.ident(a[0]))))

    def obj_eq(I, a, k):
        return True if I.is_(a[0], a[1]) else NotImplemented
    obj.ns["__eq__"] = Native("object.__eq__", obj_eq)

    def obj_ne(I, a, k):
        t = I.type_of(a[0])
        m = t.lookup("__eq__")
        r = I.call(I.bind(m, a[0], t), [a[1]], {})
        return NotImplemented if r is NotImplemented else not I.truth(r)
    obj.ns["__ne__"] = Native("object.__ne__", obj_ne)

    def obj_ga(I, a, k):
        o, name = a[0], a[1]
        if isinstance(o, Obj):
            r = I.obj_getattr(o, name)
        else:
            r = I._getattr(o, name)
        if r is MISSING:
            I.raise_("AttributeError", f"'{I.type_of(o).name}' object has no attribute '{name}'")
        return r
    obj.ns["__getattribute__"] = Native("object.__getattribute__", obj_ga)

    def obj_sa(I, a, k):
        if isinstance(a[0], Obj):
            if not isinstance(a[1], str):
                raise Unsupported("non-constant attribute name")
            I.obj_setattr(a[0], a[1], a[2])
        else:
            I.setattr(a[0], a[1], a[2])
    obj.ns["__setattr__"] = Native("object.__setattr__", obj_sa)
    obj.ns["__delattr__"] = Native("object.__delattr__",
                                   lambda I, a, k: I.raw_delattr(a[0], a[1]))
    obj.ns["__repr__"] = Native("object.__repr__", lambda I, a, k: plain_repr(I, a[0]))

    def obj_str(I, a, k):
        f = I.type_of(a[0]).lookup("__repr__")
        if isinstance(f, FuncVal):
            return text_result(I, I.call(f, [a[0]], {}), "__repr__")
        return I.to_str(a[0])
    obj.ns["__str__"] = Native("object.__str__", obj_str)
    obj.ns["__format__"] = Native("object.__format__",
                                  lambda I, a, k: I.to_str(a[0]))
    obj.ns["__dir__"] = Native("object.__dir__", lambda I, a, k: I.call(B["dir"], a, {}))

    def obj_reduce(I, a, k):
        from . import libmods
        return libmods.default_reduce(I, a[0])
    obj.ns["__reduce_ex__"] = Native("object.__reduce_ex__", obj_reduce)
    obj.ns["__reduce__"] = Native("object.__reduce__", obj_reduce)

    # -- type
    def type_new(I, a, k):
        if len(a) == 2:
            return I.type_of(a[1])
        need(I, a, 4, 4, "type.__new__")
        bases = [I.as_class(x) for x in host_seq(I, a[2])]
        win = a[0]
        for b in bases:
            m = b.meta or typ
            if win.issub(m):
                continue
            if m.issub(win):
                win = m
                continue
            I.raise_("TypeError", "metaclass conflict: the metaclass of a derived class must be "
                                  "a (non-strict) subclass of the metaclasses of all its bases")
        if win is not a[0]:
            n = win.lookup("__new__")
            n = n.f if isinstance(n, StaticM) else n
            if isinstance(n, FuncVal):
                return I.call(n, [win] + a[1:], k)
        return I.type_new(win, I.strval(a[1]), bases or [obj], a[3], dict(k))
    typ.ns["__new__"] = StaticM(Native("type.__new__", type_new))
    typ.ns["__init__"] = Native("type.__init__", lambda I, a, k: None)
    typ.ns["__call__"] = Native("type.__call__", lambda I, a, k: I.type_call(a[0], a[1:], k))
    typ.ns["__instancecheck__"] = Native("type.__instancecheck__",
                                         lambda I, a, k: I.type_of(a[1]).issub(a[0]))
    typ.ns["__subclasscheck__"] = Native("type.__subclasscheck__",
                                         lambda I, a, k: a[1].issub(a[0]))
    typ.ns["__or__"] = Native("type.__or__", lambda I, a, k: I.binop_union(a[0], a[1]))
    typ.ns["__prepare__"] = ClassM(Native("type.__prepare__", lambda I, a, k: I.new_dict()))

    # -- simple classes
    for n in ("NoneType", "bytes", "function", "method", "module", "slice", "complex",
              "bytearray", "memoryview", "traceback"):
        cls(n)

    def new_complex(I, a, k):
        xs = list(a[1:]) + [k[x] for x in ("real", "imag") if x in k]
        xs = [x.p if isinstance(x, Obj) and isinstance(x.p, (int, float, str)) else x for x in xs]
        if all(isinstance(x, (int, float, complex, str)) for x in xs):
            try:
                return complex(*xs)
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
        raise Unsupported("complex() of unknown parts")
    B["complex"].ns["__new__"] = StaticM(Native("complex.__new__", new_complex))
    gen = cls("generator")
    gen.ns["__iter__"] = Native("generator.__iter__", lambda I, a, k: a[0])
    gen.ns["__next__"] = Native("generator.__next__", lambda I, a, k: do_next(I, a))

    def resume(I, f):
        try:
            return f()
        except StopIteration as e:
            ex = I.make_exc(B["StopIteration"], "" if e.value is None else e.value)
            ex.value.d["value"] = e.value
            raise ex

    def gsend(I, a, k):
        g = a[0]
        if not hasattr(g.it, "send"):
            raise Unsupported("send to a library iterator")
        if getattr(g.it, "gi_frame", True) is not None and a[1] is not None and \
                getattr(g.it, "gi_suspended", True) is False:
            I.raise_("TypeError", "can't send non-None value to a just-started generator")
        return resume(I, lambda: g.it.send(a[1]))
    gen.ns["send"] = Native("generator.send", gsend)

    def gthrow(I, a, k):
        if not hasattr(a[0].it, "throw"):
            raise Unsupported("throw into a library iterator")
        v = I.call(a[1], [], {}) if isinstance(a[1], ClassVal) else a[1]
        return resume(I, lambda: a[0].it.throw(PyExc(v, I.where())))
    gen.ns["throw"] = Native("generator.throw", gthrow)

    def gclose(I, a, k):
        if hasattr(a[0].it, "throw") and getattr(a[0].it, "gi_suspended", False):
            try:
                a[0].it.throw(I.make_exc(B["GeneratorExit"]))
            except StopIteration:
                pass
            except PyExc as e:
                if not e.value.cls.issub(B["GeneratorExit"]):
                    raise
        elif hasattr(a[0].it, "close"):
            a[0].it.close()
    gen.ns["close"] = Native("generator.close", gclose)
    for kind in ("keys", "values", "items"):
        v = cls("dict_" + kind)
        v.ns["__iter__"] = Native("view.__iter__", lambda I, a, k: GenVal(I._iter_view(a[0]),
                                                                           "view"))
        v.ns["__len__"] = Native("view.__len__", lambda I, a, k: len(a[0].o.p))
        v.ns["__reversed__"] = Native("view.__reversed__", lambda I, a, k: GenVal(
            iter(list(reversed(host_seq(I, a[0])))), "reversed"))
        v.ns["__contains__"] = Native("view.__contains__",
                                      lambda I, a, k: I.contains(a[0], a[1]))
        if kind != "values":
            v.ns["isdisjoint"] = Native("view.isdisjoint", lambda I, a, k: not any(
                I.contains(a[0], x) for x in I.iterate(a[1])))
        v.ns["__hash__"] = None if kind != "values" else obj.ns["__hash__"]

    def mkslice(I, a, k):
        need(I, a, 2, 4, "slice")
        xs = list(a[1:])
        return Slice(None, xs[0], None) if len(xs) == 1 else Slice(*(xs + [None] * (3 - len(xs))))
    B["slice"].ns["__new__"] = StaticM(Native("slice", mkslice))
    B["slice"].ns["__init__"] = Native("slice.__init__", lambda I, a, k: None)
    B["slice"].ns["indices"] = Native("slice.indices", lambda I, a, k: Tup(
        a[0].host().indices(to_host(a[1]))))

    def mkbytes(I, a, k):
        v = a[1] if len(a) > 1 else b""
        if isinstance(v, (int, bytes)) or isinstance(v, str) and len(a) > 2:
            return bytes(*[to_host(x) for x in a[1:]])
        if isinstance(v, str):
            I.raise_("TypeError", "string argument without an encoding")
        if isinstance(v, Atom):
            return I.term("bytes", B["bytes"], v)
        return bytes(to_host(x) for x in I.iterate(v))
    B["bytes"].ns["__new__"] = StaticM(Native("bytes", mkbytes))
    B["bytes"].ns["__init__"] = Native("bytes.__init__", lambda I, a, k: None)

    # -- properties and friends
    def mkprop(I, a, k):
        p = PropVal(a[1] if len(a) > 1 else k.get("fget"),
                    a[2] if len(a) > 2 else k.get("fset"),
                    a[3] if len(a) > 3 else k.get("fdel"))
        p.doc = a[4] if len(a) > 4 else k.get("doc")
        return p
    cls("property", ns={"__new__": StaticM(Native("property", mkprop))})
    cls("staticmethod", ns={"__new__": StaticM(Native("staticmethod",
                                                      lambda I, a, k: StaticM(a[1])))})
    cls("classmethod", ns={"__new__": StaticM(Native("classmethod",
                                                     lambda I, a, k: ClassM(a[1])))})

    def mksuper(I, a, k):
        if len(a) != 3:
            raise Unsupported("super() form")
        return SuperVal(a[1], a[2])
    cls("super", ns={"__new__": StaticM(Native("super", mksuper))})

    # -- containers and scalars
    for n in ("int", "float", "str", "tuple", "list", "dict", "set", "frozenset"):
        cls(n)
    b = cls("bool", [B["int"]])
    B["int"].ns.update(num_methods(I, "int"))
    B["float"].ns.update(num_methods(I, "float"))
    b.ns["__new__"] = StaticM(Native("bool.__new__", lambda I, a, k: I.truth(a[1])
                                     if len(a) > 1 else False))
    B["str"].ns.update(str_methods(I))
    B["tuple"].ns.update(tuple_methods(I))
    B["list"].ns.update(list_methods(I))
    B["dict"].ns.update(dict_methods(I))
    B["set"].ns.update(set_methods(I, False))
    B["frozenset"].ns.update(set_methods(I, True))
    B["bytes"].ns["__iter__"] = Native("bytes.__iter__", lambda I, a, k: GenVal(iter([]), "bytes"))
    B["bytes"].ns["__len__"] = Native("bytes.__len__", lambda I, a, k: len(to_host(a[0])))
    B["bytes"].ns["decode"] = Native("bytes.decode", lambda I, a, k: a[0].decode(*a[1:])
                                     if isinstance(a[0], bytes)
                                     else I.term("decode", B["str"], a[0]))
    B["bytes"].ns["hex"] = Native("bytes.hex", lambda I, a, k: a[0].hex()
                                  if isinstance(a[0], bytes)
                                  else I.term("hex", B["str"], a[0]))
    for n in ("set", "frozenset", "list", "dict", "tuple"):
        pass
    rng = cls("range")

    def mkrange(I, a, k):
        return Obj(rng, list(range(*[as_index(I, x, "range") for x in a[1:]])))
    rng.ns["__new__"] = StaticM(Native("range", mkrange))
    for n in ("__len__", "__iter__", "__contains__", "__getitem__", "__reversed__", "index",
              "count"):
        rng.ns[n] = B["list"].ns[n]
    mp = cls("mappingproxy", [B["dict"]])
    for n in ("__setitem__", "__delitem__", "__ior__"):
        mp.ns[n] = Native("mappingproxy." + n, lambda I, a, k: I.raise_(
            "TypeError", "'mappingproxy' object does not support item assignment"))
    for n in ("update", "pop", "popitem", "clear", "setdefault"):
        mp.ns[n] = Native("mappingproxy." + n, lambda I, a, k, n=n: I.raise_(
            "AttributeError", f"'mappingproxy' object has no attribute '{n}'"))

    def mkproxy(I, a, k):
        if I.is_mapping(a[1]):
            return Obj(mp, a[1].p)
        raise Unsupported("proxy of a mapping class")
    mp.ns["__new__"] = StaticM(Native("mappingproxy", mkproxy))
    mp.ns["__init__"] = Native("mappingproxy.__init__", lambda I, a, k: None)

    # -- exceptions
    stack = []
    for line in _EXC.strip("\n").split("\n"):
        d = len(line) - len(line.lstrip(" "))
        n = line.strip()
        del stack[d:]
        c = cls(n, [stack[-1]] if stack else [obj])
        stack.append(c)
    B["EnvironmentError"] = B["IOError"] = B["OSError"]
    be = B["BaseException"]

    def exc_new(I, a, k):
        o = Obj(a[0])
        o.d["args"] = Tup(a[1:])
        if a[0].issub(B["StopIteration"]):
            o.d["value"] = a[1] if len(a) > 1 else None
        elif a[0].issub(B["SystemExit"]):
            o.d["code"] = a[1] if len(a) > 1 else None
        elif a[0].issub(B["OSError"]) and len(a) > 2:
            o.d["errno"], o.d["strerror"] = a[1], a[2]
            o.d["filename"] = a[3] if len(a) > 3 else None
        elif a[0].issub(B["ImportError"]):
            o.d["name"], o.d["path"] = k.get("name"), k.get("path")
        return o
    be.ns["__new__"] = StaticM(Native("BaseException.__new__", exc_new))
    bg = cls("BaseExceptionGroup", [be])
    cls("ExceptionGroup", [bg, B["Exception"]])
    bg.ns["message"] = PropVal(Native("message", lambda I, a, k: a[0].d["args"].items[0]))
    bg.ns["exceptions"] = PropVal(Native("exceptions", lambda I, a, k: Tup(
        host_seq(I, a[0].d["args"].items[1]))))

    def exc_init(I, a, k):
        touch(a[0])
        a[0].d["args"] = Tup(a[1:])
    be.ns["__init__"] = Native("BaseException.__init__", exc_init)
    be.ns["__str__"] = Native("BaseException.__str__", lambda I, a, k: I.to_str(a[0]))
    be.ns["with_traceback"] = Native("with_traceback", lambda I, a, k: a[0])
    def add_note(I, a, k):
        if "__notes__" not in a[0].d:
            touch(a[0])
            a[0].d["__notes__"] = I.new_list()
        I.meth(a[0].d["__notes__"], "append", a[1])
    be.ns["add_note"] = Native("add_note", add_note)
    be.ns["__suppress_context__"] = False
    be.ns["__repr__"] = Native("BaseException.__repr__", lambda I, a, k: plain_repr(I, a[0]))
    be.ns["__traceback__"] = None
    for n in ("errno", "strerror", "filename", "filename2"):
        B["OSError"].ns[n] = None
    be.ns["__cause__"] = None
    be.ns["__context__"] = None
    for c in ("function", "method"):
        B[c].ns["__call__"] = Native(c + ".__call__", lambda I, a, k: I.call(a[0], a[1:], k))
    B["method"].ns["__new__"] = StaticM(Native("method.__new__",
                                               lambda I, a, k: BoundM(a[2], a[1])))
    install_functions(I)
    for v in B.values():
        if isinstance(v, Native):
            v.plain = True
    I.param_empty = Ext("inspect._empty")
    I.binop_union = lambda a, b: Tup(
        (list(a.items) if isinstance(a, Tup) else [a]) +
        (list(b.items) if isinstance(b, Tup) else [B["NoneType"] if b is None else b]))
    from . import libmods
    libmods.install(I)
