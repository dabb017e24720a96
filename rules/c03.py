"""C03: saving a history to JSON and loading it back rebuilds the same object graph."""
from rules.catalog import ENTITIES, differs
from rules.common import entity, link
from rules.graphs import SINGLE, freeze, isomorphic, reachable, single, thawed, world

INFO = {
    "explanation":
        "A history with every entity type, shared templates and attributes carrying templates is "
        "built symbolically (with, without and with some uids), serialized from every root and "
        "in containers, and the loaded graph is compared with the original: field by field, and "
        "with the same sharing (a bijection of entities); originals must be unchanged except for "
        "generated uids. Links inside the payload are followed by uid, ignoring scope case.",
    "assumptions": ["json module modelled as faithful for its native types",
                    "uuid4 never repeats", "one representative history shape"],
}
ROOTS = ("mr", "me", "ir", "pr", "ms", "is", "mes", "mt", "pt", "met", "prt", "imr", "ps")


def trip(s, j, obj, how):
    if how == "dumps":
        return s.m(j, "loads", s.m(j, "dumps", obj))
    if how == "indent":
        return s.m(j, "loads", s.m(j, "dumps", obj, indent=2))
    return s.m(j, "copy", obj)


def whole(s, root, uids):
    g = world(s, uids)
    objs = reachable(s, g[root])
    rec = freeze(s, objs)
    j = s.new("GEMDJson") if s.flag("default scope") else s.new("GEMDJson", scope=s.str("mine"))
    back = trip(s, j, g[root], s.choose("how", ["dumps", "copy"]))
    d = thawed(s, rec, but=("uids",))
    s.check(d is None, "saving leaves the originals unchanged", str(d))
    for o in objs:
        old = next(c for x, f, c in rec if x is o and f == "uids")[1]
        new = list(s.I.mapping_items(s.get(o, "uids")))
        s.check(len(new) == max(1, len(old)), "only a missing uid is generated",
                f"{o.cls.name} had {old!r}, has {new!r}")
        if old:
            s.check(all(s.same(x, y) for p, q in zip(old, new) for x, y in zip(p, q)),
                    "existing uids are kept", f"{old!r} -> {new!r}")
    d = isomorphic(s, g[root], back)
    s.check(d is None, "loading rebuilds the same graph", f"from {root}{d}")
    n = len(reachable(s, back))
    s.check(n == len(objs), "same number of objects", f"{n} vs {len(objs)}")
    fresh = not any(x is y for x in reachable(s, back) for y in objs)
    s.check(fresh, "loaded objects are new objects", root)


def containers(s, kind):
    a = entity(s, "MaterialRun", s.str("a"))
    p = entity(s, "ProcessRun", s.str("p"))
    b = entity(s, "MaterialRun", s.str("b"), process=p)
    v = s.new("NominalReal", s.float("x"), "m")
    if kind == "list":
        x = s.list(a, b, a, p, v, s.str("txt"), 3, None, True)
    elif kind == "dict":
        x = s.dict((s.str("k1"), a), (s.str("k2"), s.list(b, a)), (s.str("k3"), v))
    elif kind == "reserved":
        x = s.dict(*[("object", b), ("context", s.list(a)), ("uids", s.str("u"))]
                   [:s.choose("keys", [1, 2, 3])])
    elif kind == "nested":
        x = s.list(s.list(a), s.dict((s.str("k"), s.list(s.dict((s.str("q"), b))))), s.list())
    elif kind == "tuples":
        x = s.list(s.tuple(a, s.list(b)), s.tuple(s.tuple(a), s.dict((s.str("k"), b))))
    elif kind == "empty":
        x = s.list()
    elif kind == "value":
        x = v
    elif kind == "attribute":
        t = entity(s, "PropertyTemplate", bounds=s.new("RealBounds", 0, 10, "m"))
        x = s.new("Property", s.str("n"), template=t, value=s.new("NominalReal", 5, "m"))
    elif kind == "text":
        x = s.str("txt")
    else:
        x = None
    back = s.do("gemd.json.loads", s.do("gemd.json.dumps", x))
    d = isomorphic(s, x, back)
    s.check(d is None, "containers survive with sharing", f"{kind}{d}")


def same_name_twins(s):
    """Objects that are equal in content but distinct stay distinct."""
    nm = s.str("same")
    p = entity(s, "ProcessSpec", s.str("p"))
    m = entity(s, "MaterialSpec", s.str("m"))
    i1 = entity(s, "IngredientSpec", nm, process=p, material=m)
    i2 = entity(s, "IngredientSpec", nm, process=p, material=m)
    t = s.new("Parameter", s.str("t"), value=s.new("NominalInteger", 1))
    t2 = s.new("Parameter", s.get(t, "name"), value=s.new("NominalInteger", 1))
    s.put(p, "parameters", s.list(t, t2))
    back = s.do("gemd.json.loads", s.do("gemd.json.dumps", s.list(i1, i2, p)))
    d = isomorphic(s, s.list(i1, i2, p), back)
    s.check(d is None, "equal but distinct objects stay distinct", f"{d}")


def links_in_payload(s):
    """A LinkByUID to an entity of the payload becomes that entity, whatever the scope case."""
    p = entity(s, "ProcessRun", s.str("p"), uids=s.dict(("My_Scope", s.str("id"))))
    scope = s.choose("scope", ["My_Scope", "my_scope", "MY_SCOPE", "other"])
    lk = s.new("LinkByUID", scope, list(s.I.mapping_items(s.get(p, "uids")))[0][1])
    m = entity(s, "MaterialRun", s.str("m"), process=lk)
    order = s.flag("process first")
    top = s.list(p, m) if order else s.list(m, p)
    back = s.items(s.do("gemd.json.loads", s.do("gemd.json.dumps", top)))
    p2, m2 = back if order else back[::-1]
    if scope == "other":
        s.check(s.tname(s.get(m2, "process")) == "LinkByUID", "an unknown link stays a link",
                f"{s.get(m2, 'process')!r}")
        s.check(differs(s, lk, s.get(m2, "process")) is None, "an unknown link stays the same",
                f"{s.get(m2, 'process')!r}")
    else:
        s.check(s.get(m2, "process") is p2, "a link inside the payload is resolved",
                f"scope {scope}: {s.get(m2, 'process')!r}")
        s.check(s.get(p2, "output_material") is m2, "resolved link is mirrored", "output_material")


def other_uids(s):
    """Several uids per object: any of them identifies it."""
    p = entity(s, "ProcessRun", s.str("p"), uids=s.dict(("first", s.str("id1")),
                                                       ("second", s.str("id2"))))
    u = dict((k, v) for k, v in s.I.mapping_items(s.get(p, "uids")))
    m1 = entity(s, "IngredientRun", process=s.new("LinkByUID", "first", u["first"]))
    m2 = entity(s, "IngredientRun", process=s.new("LinkByUID", "second", u["second"]))
    m3 = entity(s, "IngredientRun", process=p)
    b = s.items(s.do("gemd.json.loads", s.do("gemd.json.dumps", s.list(p, m1, m2, m3))))
    s.check(all(s.get(x, "process") is b[0] for x in b[1:]), "every uid resolves to the object",
            f"{[s.get(x, 'process') for x in b[1:]]!r}")
    s.check(len(s.items(s.get(b[0], "ingredients"))) == 3, "all links mirrored", "ingredients")
    d = differs(s, s.get(p, "uids"), s.get(b[0], "uids"))
    s.check(d is None, "all uids survive", str(d))


def wrong_links(s):
    """Links are not resolved to an object whose id belongs to another scope."""
    i = s.str("id")
    p = entity(s, "ProcessRun", s.str("p"), uids=s.dict(("a", i)))
    q = entity(s, "ProcessRun", s.str("q"), uids=s.dict(("b", i)))
    m1 = entity(s, "IngredientRun", process=s.new("LinkByUID", "b", i))
    b = s.items(s.do("gemd.json.loads", s.do("gemd.json.dumps", s.list(p, q, m1))))
    s.check(s.get(b[2], "process") is b[1], "scope and id both identify the target",
            f"{s.get(b[2], 'process')!r}")


def thin(s, root):
    """thin_dumps: the object itself with links to its neighbours."""
    g = world(s, "some")
    o = g[root]
    objs = reachable(s, o)
    rec = freeze(s, objs)
    j = s.new("GEMDJson")
    text = s.m(j, "thin_dumps", o)
    s.check(thawed(s, rec, but=("uids",)) is None, "thin_dumps leaves the object unchanged",
            str(thawed(s, rec, but=("uids",))))
    back = s.m(j, "raw_loads", text)

    def tolink(x, y):
        from gsa.core import Obj
        if isinstance(x, Obj) and x is not o and s.isa(x, "BaseEntity"):
            if not (isinstance(y, Obj) and y.cls.name == "LinkByUID"):
                return False
            u = s.m(s.get(x, "uids"), "get", s.get(y, "scope"))
            return u is not None and s.same(u, s.get(y, "id"))
        return None
    from rules.catalog import FIELDS
    for f in FIELDS[o.cls.name]:
        d = differs(s, s.get(o, f), s.get(back, f), f, None, tolink)
        s.check(d is None, "thin form keeps every field, with links to other entities",
                f"{root} {d}")


def duplicates(s):
    """The same object listed many times is written once."""
    a = entity(s, "MaterialRun", s.str("a"), uids=s.dict(("x", s.str("i"))))
    b = s.items(s.do("gemd.json.loads", s.do("gemd.json.dumps", s.list(a, s.list(a), s.dict(
        ("k", a))))))
    s.check(b[0] is s.items(b[1])[0], "one object in, one object out", f"{b!r}")
    s.check(b[0] is s.I.getitem(b[2], "k"), "one object in, one object out", f"{b!r}")


def alone(s, path):
    """Two objects connected by one reference of one kind."""
    h, t = single(s, path, s.flag("uids"))
    o = {"holder": h, "target": t, "both": s.list(t, h)}[
        s.choose("from", ["holder", "target", "both"])]
    objs = reachable(s, o)
    rec = freeze(s, objs)
    back = trip(s, s.new("GEMDJson"), o, "dumps")
    d = isomorphic(s, o, back)
    s.check(d is None, "loading rebuilds a single reference", f"{path}{d}")
    s.check(len(reachable(s, back)) == len(objs), "same number of objects", path)
    d = thawed(s, rec, but=("uids",))
    s.check(d is None, "saving leaves the originals unchanged", str(d))


def twice(s):
    """Saving twice gives the same text; loading twice gives independent graphs."""
    g = world(s, "some")
    j = s.new("GEMDJson")
    t1 = s.m(j, "dumps", g["mr"])
    t2 = s.m(j, "dumps", g["mr"])
    s.check(s.eq(t1, t2), "saving is repeatable", "second text differs")
    b1, b2 = s.m(j, "loads", t1), s.m(j, "loads", t1)
    s.check(isomorphic(s, b1, b2) is None and b1 is not b2, "loading is repeatable", "graphs differ")
    xs, ys = reachable(s, b1), reachable(s, b2)
    s.check(not any(x is y for x in xs for y in ys), "two loads share no object",
            "loads of one text share objects")


def same_encoder(s):
    """One encoder for two texts: the second is read on its own."""
    i = s.str("id")
    p = entity(s, "ProcessRun", s.str("p"), uids=s.dict(("x", i)))
    m = entity(s, "MaterialRun", s.str("m"), process=p)
    j, k = s.new("GEMDJson"), s.new("GEMDJson")
    t1 = s.m(k, "dumps", s.list(m))
    other = s.choose("second", ["link", "namesake"])
    if other == "link":
        x = entity(s, "IngredientRun", process=s.new("LinkByUID", "x", i))
    else:
        x = entity(s, "ProcessRun", s.str("q"), uids=s.dict(("x", i)), notes=s.str("n"))
    t2 = s.m(k, "dumps", s.list(x))
    first = s.items(s.m(j, "loads", t1))
    second = s.m(j, "loads", t2)
    d = isomorphic(s, s.list(x), second)
    s.check(d is None, "a load does not depend on earlier loads", f"{other}{d}")
    d = isomorphic(s, m, first[0])
    s.check(d is None, "a load leaves what was loaded earlier alone", f"{other}{d}")
    ys = reachable(s, second)
    s.check(not any(a is b for a in reachable(s, first[0]) for b in ys),
            "two loads share no object", other)


def unknown_type(s):
    how = s.choose("how", ["loads", "raw_loads"])
    j = s.new("GEMDJson")
    d = s.dict(("object", s.dict(("type", "no_such_type"))), ("context", s.list()))
    import_ = s.m(j, "raw_dumps", d)
    r = s.attempt(s.m, j, how, import_)
    s.raises(r, ("TypeError", "ValueError", "KeyError"), "an unknown type is an error", how)


def run(r):
    for root in ROOTS:
        for u in ("none", "some", "all", "twins", "case"):
            r.scenario(f"history from {root}, uids {u}", whole, root, u)
        r.scenario(f"thin {root}", thin, root)
    for k in ("list", "dict", "nested", "tuples", "empty", "value", "attribute", "text", "none", "reserved"):
        r.scenario(f"container {k}", containers, k)
    for p in SINGLE:
        r.scenario(f"only {p}", alone, p)
    r.scenario("twins", same_name_twins)
    r.scenario("links in the payload", links_in_payload)
    r.scenario("several uids", other_uids)
    r.scenario("links need scope and id", wrong_links)
    r.scenario("duplicates", duplicates)
    r.scenario("repeatable", twice)
    r.scenario("one encoder, two texts", same_encoder)
    r.scenario("unknown type", unknown_type)
