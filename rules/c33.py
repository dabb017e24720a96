"""C33: objects stay the same set members and dictionary keys whatever happens to them."""
from gsa.core import Obj
from rules.catalog import ENTITIES, FIELDS, argument, build
from rules.common import entity
from rules.graphs import world

INFO = {
    "explanation":
        "Effect analysis of hashing: the hash of an object of every class is taken before and "
        "after every field is assigned, its lists and mappings are changed in place, it is "
        "linked from elsewhere, identified, saved, flattened and compared, by abstract "
        "interpretation with symbolic contents; sets and dictionaries made before are asked for "
        "the object afterwards.",
    "assumptions": ["links are values: their hash is that of scope and id (C16)"],
    "min_scenarios": 40, "min_sites": 0,
}


def taken(s, o, what):
    h = s.ok(s.attempt(s.I.call, s.I.builtins["hash"], [o], {}), "every object can be hashed", what)
    return h


def before(s, o, what):
    return taken(s, o, what), s.I.call(s.I.builtins["set"], [s.list(o)], {}), \
        s.dict((o, "found"))


def after(s, o, was, what):
    h, members, keyed = was
    s.check(s.same(h, taken(s, o, what)), "the hash of an object never changes", what)
    s.check(s.I.truth(s.I.contains(members, o)), "an object stays the same set member", what)
    s.check(s.same(s.m(keyed, "get", o), "found"), "an object stays the same key", what)


def assigned(s, cls):
    o, kw = build(s, cls, () if s.flag("bare") else None, s.flag("links"))
    was = before(s, o, cls)
    after(s, o, was, cls)
    if not FIELDS[cls]:
        return
    f = s.choose("field", list(FIELDS[cls]))
    if kw is None:
        o2, _ = build(s, cls, None, True)
        new = s.get(o2, f)
    else:
        new = argument(s, cls, f, s.flag("new links"))
    r = s.attempt(s.put, o, f, new)
    after(s, o, was, f"{cls}.{f} {'assigned' if r.ok else 'refused'}")
    if cls in ENTITIES and r.ok and f != "name":
        r = s.attempt(s.put, o, f, None)
        after(s, o, was, f"{cls}.{f} cleared")


def changed(s, cls):
    """In-place changes of the lists and mappings an entity holds."""
    o, _ = build(s, cls, None, False)
    was = before(s, o, cls)
    what = s.choose("change", ["tag", "uid", "uuids", "dumps", "link", "name"] + (
        ["files"] if "file_links" in FIELDS[cls] else []))
    if what == "tag":
        s.m(s.get(o, "tags"), "append", s.str("t"))
    elif what == "uid":
        s.m(o, "add_uid", s.str("scopeN"), s.str("i"))
    elif what == "uuids":
        s.do("gemd.util.set_uuids", s.list(o), s.str("scopeN"))
    elif what == "files":
        s.m(s.get(o, "file_links"), "clear")
    elif what == "dumps":
        s.do("gemd.json.dumps", o)
    elif what == "link":
        s.attempt(s.m, o, "to_link")
    else:
        s.attempt(s.put, o, "name", s.str("other"))
    after(s, o, was, f"{cls} {what}")


def used(s, u):
    """Objects of a whole history before and after operations over it."""
    s.I.max_steps = 3000000
    g = world(s, u)
    rec = [(k, o, before(s, o, k)) for k, o in g.items()]
    what = s.choose("operation", ["dumps", "flatten", "inplace", "equal", "history", "instance"])
    o = g["mr"]
    if what == "dumps":
        s.do("gemd.json.dumps", o)
    elif what == "flatten":
        s.do("gemd.util.flatten", o, "auto")
    elif what == "inplace":
        s.do("gemd.util.set_uuids", o, "auto")
        s.attempt(s.do, "gemd.util.substitute_links", o, inplace=True)
    elif what == "equal":
        s.eq(o, g["imr"])
    elif what == "history":
        s.attempt(s.do, "gemd.entity.util.complete_material_history", o)
    else:
        s.attempt(s.do, "gemd.entity.util.make_instance", g["ms"])
    for k, o, was in rec:
        after(s, o, was, f"{k} after {what}")


def linked(s):
    """Objects that others start and stop pointing at."""
    p, q = entity(s, "ProcessRun", s.str("p")), entity(s, "ProcessRun", s.str("q"))
    m = entity(s, "MaterialRun", s.str("m"))
    rec = [(n, o, before(s, o, n)) for n, o in (("p", p), ("q", q), ("m", m))]
    s.put(m, "process", p)
    entity(s, "IngredientRun", material=m, process=p)
    entity(s, "MeasurementRun", s.str("x"), material=m)
    s.put(m, "process", q)
    for n, o, was in rec:
        after(s, o, was, f"{n} pointed at")


def run(r):
    for cls in FIELDS:
        if cls == "LinkByUID":
            continue
        r.scenario(f"{cls} assigned", assigned, cls)
        if cls in ENTITIES:
            r.scenario(f"{cls} changed in place", changed, cls)
    for u in ("none", "some"):
        r.scenario(f"whole history, uids {u}", used, u)
    r.scenario("pointed at", linked)
