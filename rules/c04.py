"""C04: write order - everything a record needs comes before it, each record once."""
from gsa.core import Obj
from rules.catalog import ENTITIES, FIELDS, TYPES, build, optional, differs
from rules.common import entity, link
from rules.graphs import SINGLE, freeze, reachable, single, successors, thawed, world
from rules.c05 import expected_deps

INFO = {
    "explanation":
        "Abstract histories with every entity type are flattened from every root and the "
        "resulting list is checked: a record for each reachable entity exactly once, all "
        "references replaced by links, every dependency strictly earlier, originals untouched. "
        "The sort key is checked for every pair (class, class it can depend on) and every type "
        "tag.",
    "assumptions": ["uuid4 never repeats"],
}
ROOTS = ("mr", "me", "ir", "pr", "ms", "is", "mes", "mt", "pt", "met", "prt", "imr", "ps")


def order_pairs(s, cls):
    o, kw = build(s, cls, None, False)
    k = s.do("gemd.util.writable_sort_order", o)
    kt = s.do("gemd.util.writable_sort_order", TYPES[cls])
    s.check(s.same(k, kt), "object and its type tag sort alike", f"{cls}: {k!r} vs {kt!r}")
    for d in expected_deps(s, o):
        kd = s.do("gemd.util.writable_sort_order", d)
        s.check(s.I.lt(kd, k), "a dependency sorts strictly before",
                f"{cls} has order {k!r} but depends on a {d.cls.name} of order {kd!r}")
    for d in s.items(s.m(o, "all_dependencies")):
        kd = s.do("gemd.util.writable_sort_order", d)
        s.check(s.I.lt(kd, k), "a dependency sorts strictly before",
                f"{cls} has order {k!r} but depends on a {d.cls.name} of order {kd!r}")


def order_rejects(s):
    v = s.choose("what", ["opaque", "none", "text", "link", "value"])
    x = {"opaque": s.opaque(), "none": None, "text": "no_such_type", "link": link(s),
         "value": s.new("NominalInteger", 1)}[v]
    r = s.attempt(s.do, "gemd.util.writable_sort_order", x)
    s.raises(r, ("ValueError", "TypeError"), "only entities and their tags can be ordered", v)


def matches(s, entity_, record):
    """The record carries a uid of the entity."""
    us = list(s.I.mapping_items(s.get(entity_, "uids")))
    vs = list(s.I.mapping_items(s.get(record, "uids")))
    return entity_.cls is record.cls and len(us) == len(vs) > 0 and all(
        s.same(a, b) and s.same(x, y) for (a, x), (b, y) in zip(us, vs))


def flat(s, root, uids):
    g = world(s, uids)
    top = g[root] if isinstance(root, str) and root in g else (
        s.list(*[g[k] for k in reversed(list(g))]) if root == "list" else
        s.dict((s.str("k1"), s.list(g["me"], g["ir"])), (s.str("k2"), g["mt"])))
    objs = reachable(s, top)
    rec = freeze(s, objs)
    if uids in ("all", "twins", "case") and s.flag("no scope"):
        out = s.items(s.do("gemd.util.flatten", top))
    else:
        out = s.items(s.do("gemd.util.flatten", top, s.str("scope")))
    d = thawed(s, rec, but=("uids",))
    s.check(d is None, "flattening leaves the originals unchanged", str(d))
    pos = {}
    for o in objs:
        hits = [i for i, x in enumerate(out) if isinstance(x, Obj) and matches(s, o, x)]
        s.check(len(hits) == 1, "every reachable entity is written exactly once",
                f"{o.cls.name} written {len(hits)} times when flattening from {root}")
        pos[o.oid] = hits[0]
    s.check(len(out) == len(objs), "nothing else is written",
            f"{len(out)} records for {len(objs)} entities")

    def tolink(x, y):
        if isinstance(x, Obj) and s.isa(x, "BaseEntity"):
            if not (isinstance(y, Obj) and y.cls.name == "LinkByUID"):
                return False
            u = s.m(s.get(x, "uids"), "get", s.get(y, "scope"))
            return u is not None and s.same(u, s.get(y, "id"))
        return None
    for o in objs:
        for d in expected_deps(s, o):
            s.check(pos[d.oid] < pos[o.oid], "a dependency is written strictly earlier",
                    f"{o.cls.name} at {pos[o.oid]}, its {d.cls.name} at {pos[d.oid]}")
        x = out[pos[o.oid]]
        for f in FIELDS[o.cls.name]:
            d = differs(s, s.get(o, f), s.get(x, f), f, None, tolink)
            s.check(d is None, "the record is the entity with references replaced by links",
                    f"{o.cls.name} {d}")


def alone(s, path):
    """One reference of one kind: both objects are written, the one referred to first."""
    h, t = single(s, path, s.flag("uids"))
    o = {"holder": h, "target": t}[s.choose("from", ["holder", "target"])]
    want = reachable(s, o)
    out = s.items(s.do("gemd.util.flatten", o, "auto"))
    s.check(len(out) == len(want), "a single reference is followed",
            f"{path}: {len(out)} records for {len(want)} entities")
    for x, y in zip(out, (t, h) if len(want) == 2 else (o,)):
        s.check(matches(s, y, x), "what is referred to is written first", f"{path}: {out!r}")


def same_uid(s):
    """Two copies of one record (same uid) are written once."""
    u = s.dict((s.str("scope"), s.str("id")))
    a = entity(s, "MaterialRun", s.str("a"), uids=u)
    b = entity(s, "MaterialRun", s.get(a, "name"), uids=u)
    c = entity(s, "MaterialRun", s.get(a, "name"), uids=s.dict((s.str("scope"), s.str("id2"))))
    out = s.items(s.do("gemd.util.flatten", s.list(a, b, c)))
    s.check(len(out) == 2, "one record per uid", f"{len(out)} records")


def several_uids(s):
    """Copies overlapping in one of several uids are one record."""
    i = s.str("id")
    own = [("x", s.str("x1")), ("y", i), ("z", s.str("z1"))]
    at = s.choose("shared", [0, 1, 2])
    own.insert(at, own.pop(1))
    a = entity(s, "MaterialRun", s.str("a"), uids=s.dict(*own))
    more = s.choose("own ids of the copy", [0, 1, 2])
    other = [("y", i)] + [("u", s.str("u1"))] * (more > 0)
    b = entity(s, "MaterialRun", s.str("b"), uids=s.dict(*(other[::-1] if more == 2 else other)))
    out = s.items(s.do("gemd.util.flatten", s.list(a, b) if s.flag("order") else s.list(b, a)))
    s.check(len(out) == 1, "one record per uid", f"{len(out)} records")


def no_uid(s, cls):
    o = entity(s, cls, s.str("o"))
    r = s.attempt(s.do, "gemd.util.flatten", o)
    s.raises(r, ("ValueError",), "flatten needs uids or a scope", cls)


def run(r):
    for cls in ENTITIES:
        r.scenario(f"order {cls}", order_pairs, cls)
        r.scenario(f"no uid {cls}", no_uid, cls)
    r.scenario("order of other things", order_rejects)
    for root in ROOTS + ("list", "dict"):
        for u in ("none", "some", "all", "twins", "case"):
            r.scenario(f"flatten {root}, uids {u}", flat, root, u)
    for p in SINGLE:
        r.scenario(f"only {p}", alone, p)
    r.scenario("copies with one uid", same_uid)
    r.scenario("copies with several uids", several_uids)
