"""C17: substituting links for objects and objects for links."""
from gsa.core import Obj
from rules.catalog import FIELDS, DERIVED, differs
from rules.common import LINKS, entity, link, mirror
from rules.graphs import SINGLE, TREE, freeze, single, successors, thawed, world

INFO = {
    "explanation":
        "substitute_links and substitute_objects, in place and not, are interpreted on nested "
        "containers (list, tuple, mapping values and keys, mixtures) with objects, links and "
        "plain values at every position, and on every entity of a full history with objects in "
        "every reference field; each position of the result is compared with what substitution "
        "there has to give, every other position with the original, and the originals with what "
        "they were before. Substituting there and back is compared with the start.",
    "assumptions": ["objects carry at least one uid unless the scenario says otherwise"],
}
SUB_L, SUB_O = "gemd.util.substitute_links", "gemd.util.substitute_objects"
KEYS = ("prt", "cot", "pat", "mt", "pt", "met", "ps", "ms", "ims", "is", "mes", "pr", "mr", "imr",
        "ir", "ir2", "me", "me2", "ime")


def is_link_of(s, y, o, scope=None):
    if not (isinstance(y, Obj) and y.cls.name == "LinkByUID"):
        return False
    u = s.m(s.get(o, "uids"), "get", s.get(y, "scope"))
    if u is None or not s.same(u, s.get(y, "id")):
        return False
    if scope is not None and s.I.contains(s.get(o, "uids"), scope):
        return s.same(s.get(y, "scope"), scope)
    return True


# ------------------------------------------------------------------ containers
def leaves(s):
    a = entity(s, "ProcessRun", s.str("a"), uids=s.dict(("one", s.str("a1")),
                                                        ("two", s.str("a2"))))
    b = entity(s, "PropertyTemplate", s.str("b"), uids=s.dict(("two", s.str("b2"))))
    la = link(s, "one", s.get(s.get(a, "uids"), "get") and s.m(s.get(a, "uids"), "get", "one"))
    lx = link(s, "zzz", s.str("absent"))
    return a, b, la, lx


def shapes(s, xs):
    """Nested structures holding the given leaves, and a function listing the leaves back."""
    x, y, z = xs
    k = s.choose("shape", ["list", "tuple", "dict", "keys", "deep", "mixed", "shared", "nones",
                           "empty"])
    if k == "list":
        return k, s.list(x, y, z)
    if k == "tuple":
        return k, s.tuple(x, y, z)
    if k == "dict":
        return k, s.dict(("p", x), ("q", y), ("r", z))
    if k == "keys":
        return k, s.dict((x, "p"), ("q", y), ("r", z))
    if k == "deep":
        return k, s.list(s.tuple(s.dict(("p", s.list(x))), y), s.list(s.list(s.tuple(z))))
    if k == "mixed":
        return k, s.dict(("p", s.tuple(x, s.list(y))), ("q", s.dict(("r", z))))
    if k == "shared":
        return k, s.list(x, x, s.tuple(x, x), y, z)
    if k == "nones":
        return k, s.dict((x, None), (y, z), (None, s.list(None, x)))
    return k, s.list(s.list(), s.tuple(), s.dict(), x)


def tree(s, v):
    """Structure of nested containers with leaves kept as they are."""
    I = s.I
    if I.is_mapping(v):
        return ("map", [(tree(s, k), tree(s, x)) for k, x in I.mapping_items(v)])
    if isinstance(v, Obj) and isinstance(v.p, list):
        return ("list", [tree(s, x) for x in v.p])
    if hasattr(v, "items") and isinstance(getattr(v, "items"), (list, tuple)):
        return ("tuple", [tree(s, x) for x in v.items])
    return ("leaf", v)


def compare(s, a, b, expect, path="top"):
    """None if tree b is tree a with every leaf x replaced as expect(x, y) accepts."""
    if a[0] != b[0]:
        return f"{path}: a {a[0]} became a {b[0]} ({b[1]!r})"
    if a[0] == "leaf":
        return None if expect(a[1], b[1]) else f"{path}: {a[1]!r} became {b[1]!r}"
    if len(a[1]) != len(b[1]):
        return f"{path}: {len(a[1])} elements became {len(b[1])}"
    if a[0] == "map":
        rest = list(b[1])
        for k, x in a[1]:
            hit = [i for i, (q, y) in enumerate(rest) if compare(s, k, q, expect) is None]
            if len(hit) != 1:
                return f"{path}: key {k[1]!r} found {len(hit)} times"
            q, y = rest.pop(hit[0])
            d = compare(s, x, y, expect, f"{path}[{k[1]!r}]")
            if d:
                return d
        return None
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        d = compare(s, x, y, expect, f"{path}[{i}]")
        if d:
            return d
    return None


def plain(s):
    """Plain values that are easily confused with one another."""
    return {"ints": (1, True, 1.0), "zeros": (0, False, 0.0), "texts": ("1", s.str("t"), ""),
            "mix": (None, 1.0, 1)}[s.choose("plain", ["ints", "zeros", "texts", "mix"])]


def same_plain(s, x, y):
    return s.I.type_of(x) is s.I.type_of(y) and (x is y or s.same(x, y))


def links_in_container(s, inplace):
    a, b, la, lx = leaves(s)
    what = s.choose("leaves", ["objects", "links", "mixture", "plain"])
    xs = {"objects": (a, b, a), "links": (la, lx, la), "mixture": (b, lx, 1),
          "plain": None}[what] or plain(s)
    kind, top = shapes(s, xs)
    if inplace and kind == "tuple":
        s.done()
    t = tree(s, top)
    recs = freeze(s, [a, b])
    scope = s.choose("scope", [None, "one", "two"])
    kw = {"inplace": True} if inplace else {}
    r = s.attempt(s.do, SUB_L, top, *([scope] if scope else []), **kw)
    s.ok(r, "substituting links in a container", f"{kind} of {what}")

    def expect(x, y):
        if x is a or x is b:
            return is_link_of(s, y, x, scope)
        if x is la or x is lx:
            return isinstance(y, Obj) and y.cls is x.cls and s.same(
                s.get(x, "scope"), s.get(y, "scope")) and s.same(s.get(x, "id"), s.get(y, "id"))
        return same_plain(s, x, y)
    d = compare(s, t, tree(s, r.value), expect)
    s.check(d is None, "objects in a container become their links, the rest stays",
            f"{kind} of {what}, in place {inplace}: {d}")
    if inplace:
        s.check(r.value is top, "in place means the same container", kind)
    else:
        d = compare(s, t, tree(s, top), lambda x, y: x is y or same_plain(s, x, y))
        s.check(d is None, "the argument is untouched", f"{kind}: {d}")
    d = thawed(s, recs)
    s.check(d is None, "the objects themselves are untouched", str(d))


def objects_in_container(s, inplace):
    a, b, la, lx = leaves(s)
    lb = link(s, "two", s.m(s.get(b, "uids"), "get", "two"))
    what = s.choose("leaves", ["links", "twins", "mixture", "plain"])
    xs = {"links": (la, lb, lx), "twins": (la, link(s, "one", s.get(la, "id")), lx),
          "mixture": (lb, 1, True), "plain": None}[what] or plain(s)
    kind, top = shapes(s, xs)
    if inplace and kind == "tuple":
        s.done()
    t = tree(s, top)
    idx = s.do("gemd.util.make_index", s.list(a, b))
    kw = {"inplace": True} if inplace else {}
    r = s.attempt(s.do, SUB_O, top, idx, **kw)
    s.ok(r, "substituting objects in a container", f"{kind} of {what}")

    def found(y, o):
        return y is o if inplace else (
            isinstance(y, Obj) and y.cls is o.cls and
            all(differs(s, s.get(o, f), s.get(y, f)) is None for f in FIELDS[o.cls.name]))

    def expect(x, y):
        if isinstance(x, Obj) and x.cls.name == "LinkByUID":
            o = {id(la): a, id(lb): b}.get(id(x), a if s.same(s.get(x, "id"), s.get(la, "id"))
                                          else None)
            if o is not None:
                return found(y, o)
            return isinstance(y, Obj) and y.cls is x.cls and s.same(
                s.get(x, "scope"), s.get(y, "scope")) and s.same(s.get(x, "id"), s.get(y, "id"))
        return same_plain(s, x, y)
    d = compare(s, t, tree(s, r.value), expect)
    s.check(d is None, "known links in a container become their objects, the rest stays",
            f"{kind} of {what}, in place {inplace}: {d}")
    if not inplace:
        d = compare(s, t, tree(s, top), lambda x, y: x is y or same_plain(s, x, y))
        s.check(d is None, "the argument is untouched", f"{kind}: {d}")


# ------------------------------------------------------------------ entities
def entity_links(s, key, inplace):
    g = world(s, s.choose("uids", ["all", "twins", "case"]))
    o = g[key]
    before = {f: s.get(o, f) for f in FIELDS[o.cls.name]}
    copy = {f: tree(s, v) for f, v in before.items()}
    others = freeze(s, [x for x in g.values() if x is not o])
    own = freeze(s, [o])
    r = s.do(SUB_L, o, **({"inplace": True} if inplace else {}))
    s.check(isinstance(r, Obj) and r.cls is o.cls, "the result is of the same class", f"{r!r}")
    s.check((r is o) == inplace, "in place changes the object, otherwise a new one is made", "")

    def pos(x, y):
        if isinstance(x, Obj) and s.isa(x, "BaseEntity"):
            return is_link_of(s, y, x)
        return None
    if inplace:
        for f, t in copy.items():
            d = compare(s, t, tree(s, s.get(o, f)), lambda x, y: expect_field(s, x, y, pos))
            s.check(d is None, "references become links, the rest of the object stays",
                    f"{o.cls.name}.{f}: {d}")
    else:
        for f, v in before.items():
            d = differs(s, v, s.get(r, f), f, None, pos)
            s.check(d is None, "references become links, the rest of the object stays",
                    f"{o.cls.name} {d}")
        d = thawed(s, own)
        s.check(d is None, "the argument is untouched", str(d))
        d = thawed(s, others)
        s.check(d is None, "other objects are untouched", str(d))


def expect_field(s, x, y, pos):
    if isinstance(x, Obj) and s.isa(x, "BaseEntity"):
        return is_link_of(s, y, x)
    if isinstance(x, Obj) and s.isa(x, "DictSerializable"):
        # attributes are changed in place: their own references have become links
        return y is x and all(not refs(s, s.get(y, f)) for f in FIELDS[y.cls.name])
    return x is y or s.same(x, y)


def refs(s, v):
    if isinstance(v, Obj) and s.isa(v, "BaseEntity"):
        return True
    t = tree(s, v)
    if t[0] == "leaf":
        return isinstance(v, Obj) and s.isa(v, "DictSerializable") and any(
            refs(s, s.get(v, f)) for f in FIELDS.get(v.cls.name, ()))
    return any(refs(s, x[1]) for x in flat(t))


def flat(t):
    if t[0] == "leaf":
        return [t]
    if t[0] == "map":
        return [y for k, x in t[1] for y in flat(k) + flat(x)]
    return [y for x in t[1] for y in flat(x)]


def there_and_back(s, key, inplace):
    g = world(s, s.choose("uids", ["all", "twins", "case"]))
    o = g[key]
    idx = s.do("gemd.util.make_index", s.list(*g.values()))
    before = {f: tree(s, s.get(o, f)) for f in FIELDS[o.cls.name]}
    deps = {x.oid for x in s.items(s.m(o, "all_dependencies"))}
    l = s.do(SUB_L, o, **({"inplace": True} if inplace else {}))
    s.check(not any(s.isa(x, "BaseEntity") for x in s.items(s.m(l, "all_dependencies"))),
            "after substituting links no object is referred to", key)
    s.check(len(s.items(s.m(l, "all_dependencies"))) == len(deps),
            "every reference has its link", key)
    mirrored(s, g, f"after substituting links in {o.cls.name}")
    if not inplace:
        return
    b = s.do(SUB_O, l, idx, inplace=True)
    now = {x.oid for x in s.items(s.m(b, "all_dependencies"))}
    s.check(now == deps, "substituting back restores the original references",
            f"{o.cls.name}: {len(now & deps)} of {len(deps)} restored")
    for f, t in before.items():
        d = compare(s, t, tree(s, s.get(o, f)), lambda x, y: x is y or s.same(x, y))
        s.check(d is None, "substituting back restores every field", f"{o.cls.name}.{f}: {d}")
    mirrored(s, g, f"after substituting objects in {o.cls.name}")


def mirrored(s, g, ctx):
    for kind in LINKS:
        mirror(s, kind, [x for x in g.values() if x.cls.name == kind[0]],
               [x for x in g.values() if x.cls.name == kind[2]],
               "reverse views follow substitution", ctx)


def alone(s, path, inplace):
    """One reference of one kind, there and back."""
    h, t = single(s, path)
    idx = s.do("gemd.util.make_index", s.list(t))
    kw = {"inplace": True} if inplace else {}
    deep = s.choose("inside", ["itself", "list", "tuple", "dict"])
    if inplace and deep == "tuple":
        s.done()
    arg = {"itself": lambda: h, "list": lambda: s.list(s.items(s.get(h, path.split(".")[1]))[0]),
           "tuple": lambda: s.tuple(s.items(s.get(h, path.split(".")[1]))[0]),
           "dict": lambda: s.dict(("k", s.items(s.get(h, path.split(".")[1]))[0]))}
    if deep != "itself" and ("." not in path.replace(".", "", 1) or h.cls.name in TREE):
        s.done()
    x = arg[deep]()
    l = s.do(SUB_L, x, **kw)
    s.check(not any(y is t for y in targets(s, l)), "every kind of reference becomes a link", path)
    links = [y for y in targets(s, l) if y.cls.name == "LinkByUID" and is_link_of(s, y, t)]
    s.check(len(links) == 1, "the link names the object referred to", f"{path}: {links!r}")
    b = s.do(SUB_O, l, idx, **kw)
    got = targets(s, b)
    s.check(len(got) == 1 and (got[0] is t if inplace else got[0].cls is t.cls and not any(
        differs(s, s.get(t, f), s.get(got[0], f)) for f in FIELDS[t.cls.name])),
            "substituting back restores every kind of reference", f"{path}: {got!r}")


def targets(s, v):
    """Entities and links referred to inside v (not v itself)."""
    out = []
    for x in ([v] if isinstance(v, Obj) and s.isa(v, "DictSerializable") else
              [y for _, y in flat(tree(s, v))]):
        todo = [x]
        while todo:
            for y in successors(s, todo.pop(), ("measurements", "ingredients", "output_material")):
                (out if s.isa(y, "BaseEntity") or y.cls.name == "LinkByUID" else todo).append(y)
    return out


def partial(s, key):
    """Links that the index does not know stay what they were."""
    g = world(s, s.choose("uids", ["all", "twins", "case"]))
    o = g[key]
    keep = s.choose("unknown", ["none of them", "half"])
    known = [] if keep == "none of them" else list(g.values())[::2]
    idx = s.do("gemd.util.make_index", s.list())
    for x in known:
        s.I.setitem(idx, s.m(x, "to_link"), x)
    l = s.do(SUB_L, o, inplace=True)
    ls = s.items(s.m(l, "all_dependencies"))
    want = [x for x in known if any(is_link_of(s, y, x) for y in ls)]
    s.do(SUB_O, l, idx, inplace=True)
    now = s.items(s.m(l, "all_dependencies"))
    for x in want:
        s.check(any(y is x for y in now), "known links become the indexed object", f"{x!r}")
    for y in now:
        s.check(any(y is x for x in want) or y.cls.name == "LinkByUID",
                "unknown links stay", f"{y!r}")
    s.check(len(now) == len(ls), "no reference is lost", f"{len(ls)} became {len(now)}")


def no_scope(s, inplace):
    """Without fallback an object lacking the scope is refused."""
    a = entity(s, "ProcessRun", s.str("a"), uids=s.dict(("one", s.str("a1"))))
    top = s.list(s.str("x"), a)
    kw = {"inplace": True} if inplace else {}
    fb = s.choose("fallback", [True, False])
    r = s.attempt(s.do, SUB_L, top, "two", allow_fallback=fb, **kw)
    if fb:
        s.ok(r, "fallback to another scope", "")
        s.check(is_link_of(s, s.items(r.value)[1], a), "the fallback link names the object", "")
    else:
        s.raises(r, ("ValueError",), "a scope the object lacks is refused without fallback", "")
        s.check(s.items(top)[1] is a, "a refusal leaves the argument", "")


def attribute_links(s, inplace):
    """Attributes passed directly."""
    t = entity(s, "PropertyTemplate", s.str("t"), uids=s.dict(("x", s.str("ti"))))
    c = entity(s, "ConditionTemplate", s.str("c"), uids=s.dict(("x", s.str("ci"))))
    p = s.new("Property", s.str("p"), template=t, value=s.new("NominalReal", 5, "m"))
    q = s.new("PropertyAndConditions", p, s.list(s.new("Condition", s.str("q"), template=c)))
    r = s.do(SUB_L, q, **({"inplace": True} if inplace else {}))
    rp, rc = s.get(r, "property"), s.items(s.get(r, "conditions"))[0]
    s.check(is_link_of(s, s.get(rp, "template"), t) and is_link_of(s, s.get(rc, "template"), c),
            "templates inside attributes become links", f"{s.get(rp, 'template')!r}")
    s.check(differs(s, s.get(rp, "value"), s.get(p, "value")) is None and
            s.same(s.get(rp, "name"), s.get(p, "name")), "the attribute keeps its content", "")
    if not inplace:
        s.check(s.get(p, "template") is t, "the argument is untouched", "")
    idx = s.do("gemd.util.make_index", s.list(t, c))
    b = s.do(SUB_O, r, idx, inplace=True)
    s.check(s.get(s.get(b, "property"), "template") is t and
            s.get(s.items(s.get(b, "conditions"))[0], "template") is c,
            "links inside attributes become their objects", "")


def run(r):
    for ip in (False, True):
        w = "in place" if ip else "copy"
        r.scenario(f"links in containers, {w}", links_in_container, ip)
        r.scenario(f"objects in containers, {w}", objects_in_container, ip)
        r.scenario(f"missing scope, {w}", no_scope, ip)
        r.scenario(f"attributes, {w}", attribute_links, ip)
        for k in KEYS:
            r.scenario(f"links in {k}, {w}", entity_links, k, ip)
            r.scenario(f"there and back {k}, {w}", there_and_back, k, ip)
        for p in SINGLE:
            r.scenario(f"only {p}, {w}", alone, p, ip)
    for k in KEYS:
        r.scenario(f"partial index {k}", partial, k)
