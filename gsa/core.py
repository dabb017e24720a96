"""Abstract values, the abstract heap, decision exploration and bookkeeping.

Nothing in this package imports or executes the code under analysis.  The
analyser reads the Python sources of /repo, parses them with ``ast`` and
computes, for *abstract* inputs (symbolic atoms that stand for every value of a
type), the abstract heap that each public operation can leave behind.
Wherever a branch depends on something the abstraction does not determine, all
alternatives are followed (disjunctive, path-sensitive abstract interpretation).
No solver is involved: the domains are types x identity x a finite preorder.
"""
import itertools


class Unsupported(Exception):
    """The source uses a construct the analyser does not model (path undecided)."""


class Budget(Exception):
    """The exploration budget of one path was exhausted (path undecided)."""


class PyExc(Exception):
    """An exception raised by the *analysed* program on this path."""

    def __init__(self, value, origin=None):
        super().__init__(repr(value))
        self.value = value
        self.origin = origin
        self.cause = None

    @property
    def cls(self):
        return self.value.cls

    @property
    def name(self):
        return self.value.cls.name


# ------------------------------------------------------------------ trail
class _Trail:
    def __init__(self):
        self.epoch = 1
        self.log = []

    def begin(self):
        self.epoch += 1
        self.log = []

    def rollback(self):
        for o, s in reversed(self.log):
            o.restore(s)
        self.log = []
        self.epoch += 1


TRAIL = _Trail()


def touch(o):
    if o.ep != TRAIL.epoch:
        TRAIL.log.append((o, o.snap()))
        o.ep = TRAIL.epoch


_ids = itertools.count(1)


class Mut:
    __slots__ = ("ep", "oid")

    def __init__(self):
        self.ep = TRAIL.epoch
        self.oid = next(_ids)


# ------------------------------------------------------------------ values
class Tup:
    """A tuple of abstract values."""
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ("," if len(self.items) == 1 else "") + ")"


class HashVal:
    __slots__ = ("hk",)

    def __init__(self, hk):
        self.hk = hk


class Atom:
    """A symbolic value: stands for every value of class ``cls``."""
    __slots__ = ("name", "cls", "free", "flags", "oid", "variants", "term")

    def __init__(self, name, cls, free=False, **flags):
        self.name = name
        self.cls = cls
        self.free = free
        self.flags = flags
        self.oid = next(_ids)
        self.variants = {}
        self.term = None

    def __repr__(self):
        return f"<{self.name}:{self.cls.name}>"


class Ext:
    """A value produced by code outside the repository."""
    __slots__ = ("name", "oid", "d")

    def __init__(self, name):
        self.name = name
        self.oid = next(_ids)
        self.d = {}

    def __repr__(self):
        return f"<ext {self.name}>"


class PD:
    """Insertion-ordered association with abstract hash/equality."""
    __slots__ = ("e",)

    def __init__(self, e=None):
        self.e = e if e is not None else []      # [hk, key, value]

    def copy(self):
        return PD([list(x) for x in self.e])

    def __len__(self):
        return len(self.e)

    def keys(self):
        return [x[1] for x in self.e]

    def values(self):
        return [x[2] for x in self.e]

    def items(self):
        return [(x[1], x[2]) for x in self.e]

    def find(self, I, key):
        hk = I.hashkey(key)
        for x in self.e:
            if I.same_key(x[0], x[1], hk, key):
                return x
        return None

    def get(self, I, key, default=None):
        x = self.find(I, key)
        return default if x is None else x[2]

    def set(self, I, key, value):
        hk = I.hashkey(key)
        for x in self.e:
            if I.same_key(x[0], x[1], hk, key):
                x[2] = value
                return
        self.e.append([hk, key, value])

    def delete(self, I, key):
        hk = I.hashkey(key)
        for i, x in enumerate(self.e):
            if I.same_key(x[0], x[1], hk, key):
                del self.e[i]
                return x
        return None

    def clear(self):
        self.e[:] = []


class AttrPD:
    """Live view of an object's attribute dictionary."""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    @property
    def e(self):
        return [[("c", k), k, v] for k, v in self.o.d.items()]

    def copy(self):
        return PD([list(x) for x in self.e])

    def __len__(self):
        return len(self.o.d)

    def keys(self):
        return list(self.o.d)

    def values(self):
        return list(self.o.d.values())

    def items(self):
        return list(self.o.d.items())

    def find(self, I, key):
        if isinstance(key, str) and key in self.o.d:
            return [("c", key), key, self.o.d[key]]
        return None

    def get(self, I, key, default=None):
        return self.o.d.get(key, default) if isinstance(key, str) else default

    def set(self, I, key, value):
        if not isinstance(key, str):
            raise Unsupported("non-constant attribute name")
        touch(self.o)
        self.o.d[key] = value

    def delete(self, I, key):
        touch(self.o)
        if isinstance(key, str) and key in self.o.d:
            v = self.o.d.pop(key)
            return [("c", key), key, v]
        return None

    def clear(self):
        touch(self.o)
        self.o.d.clear()


class ModPD(AttrPD):
    """Live view of a module's names."""
    __slots__ = ()

    @property
    def e(self):
        return [[("c", k), k, v] for k, v in self.o.ns.items()]

    def __len__(self):
        return len(self.o.ns)

    def keys(self):
        return list(self.o.ns)

    def values(self):
        return list(self.o.ns.values())

    def items(self):
        return list(self.o.ns.items())

    def find(self, I, key):
        if isinstance(key, str) and key in self.o.ns:
            return [("c", key), key, self.o.ns[key]]
        return None

    def get(self, I, key, default=None):
        return self.o.ns.get(key, default) if isinstance(key, str) else default

    def set(self, I, key, value):
        if not isinstance(key, str):
            raise Unsupported("non-constant global name")
        touch(self.o)
        self.o.ns[key] = value

    def delete(self, I, key):
        touch(self.o)
        if isinstance(key, str) and key in self.o.ns:
            v = self.o.ns.pop(key)
            return [("c", key), key, v]
        return None

    def clear(self):
        touch(self.o)
        self.o.ns.clear()


class Obj(Mut):
    """A heap object: instance attributes plus an optional builtin payload."""
    __slots__ = ("cls", "d", "p", "w", "label")

    def __init__(self, cls, p=None):
        super().__init__()
        self.cls = cls
        self.d = {}
        self.p = p
        self.w = {}
        self.label = None

    def snap(self):
        p = self.p
        if isinstance(p, list):
            p = list(p)
        elif isinstance(p, PD):
            p = p.copy()
        return (self.cls, dict(self.d), p, dict(self.w))

    def restore(self, s):
        self.cls, self.d, p, self.w = s[0], s[1], s[2], s[3]
        self.p = p

    def __repr__(self):
        if self.label:
            return f"<{self.label}>"
        n = self.d.get("name", self.d.get("_name"))
        extra = f" {n!r}" if isinstance(n, (str, Atom)) else ""
        if isinstance(self.p, list):
            return f"<{self.cls.name} {self.p!r}>"
        if isinstance(self.p, PD):
            return f"<{self.cls.name} {{{', '.join(f'{k!r}: {v!r}' for k, v in self.p.items())}}}>"
        if isinstance(self.p, (str, int, float)):
            return f"<{self.cls.name} {self.p!r}>"
        return f"<{self.cls.name}#{self.oid}{extra}>"


class ClassVal(Mut):
    __slots__ = ("name", "qualname", "bases", "ns", "meta", "mro", "module", "native",
                 "abstract", "abc_test", "enum", "node", "fields", "subs", "virtual", "slots",
                 "needs")

    def __init__(self, name, bases, ns, meta=None, module=None, native=False):
        super().__init__()
        self.name = name
        self.qualname = name
        self.bases = list(bases)
        self.ns = ns
        self.meta = meta
        self.module = module
        self.native = native
        self.abstract = frozenset()
        self.abc_test = None
        self.enum = None
        self.node = None
        self.mro = c3(self)
        self.subs = []
        self.virtual = ()
        self.slots = None
        self.needs = ()

    def snap(self):
        return (dict(self.ns), self.meta, self.abstract, self.name,
                None if self.enum is None else list(self.enum), self.virtual)

    def restore(self, s):
        self.ns, self.meta, self.abstract, self.name, self.enum, self.virtual = s

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def lookup_cls(self, name):
        for c in self.mro:
            if name in c.ns:
                return c
        return None

    def issub(self, other):
        if other in self.mro:
            return True
        if other.abc_test is not None and other.abc_test(self):
            return True
        return any(self.issub(c) for c in other.virtual)

    def __repr__(self):
        return f"<class {self.name}>"


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported(f"inconsistent MRO for {cls.name}")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class ModuleVal(Mut):
    __slots__ = ("name", "ns", "path", "is_pkg", "ext", "tree")

    def __init__(self, name, path=None, is_pkg=False, ext=False):
        super().__init__()
        self.name = name
        self.ns = {}
        self.path = path
        self.is_pkg = is_pkg
        self.ext = ext
        self.tree = None

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()         # in place: the module's scope shares this dict
        self.ns.update(s)

    def __repr__(self):
        return f"<module {self.name}>"


class Env(Mut):
    """One variable scope."""
    __slots__ = ("vars", "parent", "kind", "locals", "globals_", "nonlocals", "module",
                 "fn", "cls", "first")

    def __init__(self, parent, kind, module, locals_=frozenset(), globals_=frozenset(),
                 nonlocals=frozenset()):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.kind = kind
        self.module = module
        self.locals = locals_
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.fn = None
        self.cls = None
        self.first = MISSING

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class FuncVal(Mut):
    __slots__ = ("node", "env", "name", "qualname", "module", "defaults", "kwdefaults",
                 "d", "defcls", "is_gen", "scope", "is_lambda")

    def __init__(self, node, env, name, qualname, module):
        super().__init__()
        self.node = node
        self.env = env
        self.name = name
        self.qualname = qualname
        self.module = module
        self.defaults = []
        self.kwdefaults = {}
        self.d = {}
        self.defcls = None
        self.is_gen = False
        self.scope = None
        self.is_lambda = False

    def snap(self):
        return (dict(self.d), self.defcls, self.name, self.qualname)

    def restore(self, s):
        self.d, self.defcls, self.name, self.qualname = s

    @property
    def full(self):
        return f"{self.module.name}.{self.qualname}"

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundM:
    __slots__ = ("self", "func")

    def __init__(self, self_, func):
        self.self = self_
        self.func = func

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class Native:
    """A modelled library function: fn(I, args, kwargs) -> value."""
    __slots__ = ("name", "fn", "d", "plain")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.d = {}
        self.plain = False      # a builtin function: does not bind as a method

    def __repr__(self):
        return f"<native {self.name}>"


class PropVal(Mut):
    __slots__ = ("fget", "fset", "fdel", "doc", "cached")

    def __init__(self, fget=None, fset=None, fdel=None):
        super().__init__()
        self.fget, self.fset, self.fdel = fget, fset, fdel
        self.cached = None


class StaticM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class CachedFn(Mut):
    """functools.lru_cache-decorated callable, with a modelled memo table."""
    __slots__ = ("f", "store", "d", "typed")

    def __init__(self, f, typed=False):
        super().__init__()
        self.f = f
        self.store = PD()
        self.d = {}
        self.typed = typed

    def snap(self):
        return (self.store.copy(), dict(self.d))

    def restore(self, s):
        self.store, self.d = s

    def __repr__(self):
        return f"<lru_cache {self.f!r}>"


class GenVal:
    """An iterator/generator wrapping a host generator."""
    __slots__ = ("it", "oid", "name", "done", "first")

    def __init__(self, it, name="generator"):
        self.it = it
        self.oid = next(_ids)
        self.name = name
        self.done = False
        self.first = True

    def __repr__(self):
        return f"<{self.name} iterator>"


class SuperVal:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def host(self):
        return slice(self.a, self.b, self.c)


class JsonText:
    """The abstract result of json.dumps: the tree of what was written."""
    __slots__ = ("tree", "oid")

    def __init__(self, tree):
        self.tree = tree
        self.oid = next(_ids)


class View:
    """dict keys/values/items view."""
    __slots__ = ("o", "kind", "oid")

    def __init__(self, o, kind):
        self.o = o
        self.kind = kind
        self.oid = next(_ids)


# ------------------------------------------------------------------ decisions
class Decisions:
    """Replay-based enumeration of undetermined choices."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []          # (label, index, n)

    def choose(self, label, n):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
        self.pos += 1
        self.taken.append((label, i, n))
        return i

    def next_prefix(self):
        t = list(self.taken)
        while t:
            label, i, n = t.pop()
            if i + 1 < n:
                return [x[1] for x in t] + [i + 1]
        return None


class Orders:
    """A finite preorder over numeric terms and constants (no arithmetic)."""

    def __init__(self):
        self.le = {}      # node -> {node: strict?}

    @staticmethod
    def node(v):
        return ("k", float(v)) if isinstance(v, (int, float)) else ("a", v.oid)

    def _edges(self, n):
        for m, s in self.le.get(n, {}).items():
            yield m, s
        if n[0] == "k":
            for m in list(self.le):
                if m[0] == "k" and m[1] > n[1]:
                    yield m, True

    def reach(self, a, b):
        """None if a<=b not known, else strictness."""
        best = None
        seen = {}
        stack = [(a, False)]
        while stack:
            n, s = stack.pop()
            if n in seen and (seen[n] or not s):
                continue
            seen[n] = s or seen.get(n, False)
            if n == b:
                best = bool(best) or s
                continue
            for m, st in self._edges(n):
                stack.append((m, s or st))
            if n[0] == "k" and b[0] == "k" and b[1] > n[1]:
                stack.append((b, True))
        return best

    def options(self, a, b):
        if a == b:
            return ["="]
        if a[0] == "k" and b[0] == "k":
            return ["<" if a[1] < b[1] else ">" if a[1] > b[1] else "="]
        for n in (a, b):
            self.le.setdefault(n, {})
        ab = self.reach(a, b)
        ba = self.reach(b, a)
        out = []
        if ba is None:
            out.append("<")
        if not ab and not ba:
            out.append("=")
        if ab is None:
            out.append(">")
        return out or ["="]

    def add(self, a, rel, b):
        for n in (a, b):
            self.le.setdefault(n, {})
        if rel in ("<", "="):
            self.le[a][b] = self.le[a].get(b, False) or rel == "<"
        if rel in (">", "="):
            self.le[b][a] = self.le[b].get(a, False) or rel == ">"
