"""C23: runs made from specs mirror the spec graph; a material history is complete."""
from gsa.core import Obj
from rules.catalog import ENTITIES, QUANT
from rules.common import entity, link, mirror, LINKS
from rules.graphs import freeze, reachable, thawed, world

INFO = {
    "explanation":
        "make_instance is interpreted over a family of spec graphs (two levels, every combination "
        "of missing, distinct and shared materials and processes, a process feeding itself, specs "
        "with equal content) from every root; the run graph must be in one-to-one correspondence "
        "with the specs reachable downstream, link by link. complete_material_history is "
        "interpreted on whole histories from every root and its records are matched with the "
        "reachable objects by type and uids.",
    "assumptions": ["spec graphs of at most two levels with two ingredients each"],
    "min_scenarios": 8,
}
RUN = {"MaterialSpec": "MaterialRun", "ProcessSpec": "ProcessRun",
       "IngredientSpec": "IngredientRun", "MeasurementSpec": "MeasurementRun"}


def specs(s, twins):
    """A symbolic two-level spec graph; every shape is one choice sequence."""
    same = s.str("same")

    def n(x):
        return same if twins else s.str(x)
    g = {}
    g["m"] = entity(s, "MaterialSpec", n("m"))
    g["p"] = entity(s, "ProcessSpec", n("p"))
    g["a"] = entity(s, "MaterialSpec", n("a"))
    g["b"] = entity(s, "MaterialSpec", n("b"))
    g["q"] = entity(s, "ProcessSpec", n("q"))
    g["c"] = entity(s, "MaterialSpec", n("c"))
    if s.flag("m made by p"):
        s.put(g["m"], "process", g["p"])
    for k, default in (("i1", "a"), ("i2", "b")):
        g[k] = entity(s, "IngredientSpec", n(k), process=g["p"])
        t = s.choose(k + " of", [default, None] + (["a"] if k == "i2" else []))
        if t:
            s.put(g[k], "material", g[t])
    w = s.choose("q makes", ["a", "b", None])
    if w:
        s.put(g[w], "process", g["q"])
    g["i3"] = entity(s, "IngredientSpec", n("i3"), process=g["q"])
    s.put(g["i3"], "material", g[s.choose("i3 of", ["c", "b", "m"])])
    return g


def downstream(s, root):
    out, todo = [], [root]
    while todo:
        o = todo.pop(0)
        if o is None or any(o is x for x in out):
            continue
        out.append(o)
        t = s.tname(o)
        if t == "MaterialSpec":
            todo.append(s.get(o, "process"))
        elif t == "IngredientSpec":
            todo.append(s.get(o, "material"))
        elif t == "ProcessSpec":
            todo += s.items(s.get(o, "ingredients"))
    return out


def runs(s, root):
    out, todo = [], [root]
    while todo:
        o = todo.pop(0)
        if not isinstance(o, Obj) or any(o is x for x in out):
            continue
        out.append(o)
        for f in ("process", "material", "output_material"):
            todo.append(s.I.getattr(o, f, None))
        for f in ("ingredients", "measurements"):
            v = s.I.getattr(o, f, None)
            todo += s.items(v) if v is not None else []
    return out


def instance(s, root, twins):
    g = specs(s, twins)
    src = downstream(s, g[root])
    rec = freeze(s, list(g.values()))
    r = s.ok(s.attempt(s.do, "gemd.entity.util.make_instance", g[root]),
             "make_instance accepts a spec", root)
    got = runs(s, r)
    key = "one run per reachable spec, pointing at it"
    made = {}
    for x in got:
        sp = s.get(x, "spec")
        s.check(any(sp is y for y in src), key, f"{x!r} has spec {sp!r}", o=x)
        s.check(id(sp) not in made, key, f"two runs for {sp!r}", o=x)
        s.check(s.tname(x) == RUN[s.tname(sp)], key, f"{s.tname(x)} for a {s.tname(sp)}")
        made[id(sp)] = x
    s.check(all(id(y) in made for y in src), key,
            f"{len(made)} runs for {len(src)} specs: missing "
            f"{[y for y in src if id(y) not in made]!r}")
    s.check(made[id(g[root])] is r, "the instance of the given spec is returned", repr(r))
    key = "runs are linked as their specs are"
    for y in src:
        x = made[id(y)]
        s.check(s.same(s.get(x, "name"), s.get(y, "name")), "a run has the name of its spec",
                f"{s.get(x, 'name')!r} for {s.get(y, 'name')!r}", o=x)
        t = s.tname(y)
        for f in {"MaterialSpec": ("process",), "IngredientSpec": ("process", "material")}.get(
                t, ()):
            w = s.get(y, f)
            want = made.get(id(w)) if w is not None else None
            s.check(s.get(x, f) is want, key, f"{t}.{f} is {w!r}, the run has {s.get(x, f)!r}",
                    o=x)
        if t == "ProcessSpec":
            a = s.items(s.get(x, "ingredients"))
            b = [made[id(z)] for z in s.items(s.get(y, "ingredients"))]
            s.check(len(a) == len(b) and all(p is q for p, q in zip(a, b)), key,
                    f"ingredients {a!r}, expected {b!r}")
            w = s.get(y, "output_material")
            want = made.get(id(w)) if w is not None else None
            s.check(s.get(x, "output_material") is want, key,
                    f"output {s.get(x, 'output_material')!r}, expected {want!r}")
        if t == "IngredientSpec":
            s.check(all(s.get(x, q) is None for q in QUANT), "a new run holds no data",
                    "a quantity is set")
        s.check(not s.items(s.get(x, "tags")) and not s.items(s.get(x, "file_links"))
                and s.get(x, "notes") is None, "a new run holds no data", repr(x))
    for kind in LINKS:
        mirror(s, kind, [x for x in got if s.tname(x) == kind[0]],
               [x for x in got if s.tname(x) == kind[2]], f"{kind[0]}.{kind[1]} of runs mirrored")
    d = thawed(s, rec)
    s.check(d is None, "instantiating leaves the specs alone", str(d))
    again = s.do("gemd.entity.util.make_instance", g[root])
    s.check(not any(x is y for x in runs(s, again) for y in got),
            "instantiating again makes new runs", root)


def measurement(s):
    m = entity(s, "MeasurementSpec", s.str("n"))
    r = s.do("gemd.entity.util.make_instance", m)
    s.check(s.tname(r) == "MeasurementRun" and s.get(r, "spec") is m and s.same(
        s.get(r, "name"), s.get(m, "name")) and s.get(r, "material") is None,
        "a measurement spec gives a measurement run", repr(r))


def refused(s):
    k = s.choose("what", ["none", "opaque", "text", "list", "link"] +
                 [c for c in ENTITIES if not c.endswith("Spec")])
    v = {"none": lambda: None, "opaque": s.opaque, "text": lambda: s.str("t"),
         "list": lambda: s.list(entity(s, "ProcessSpec")), "link": lambda: link(s)}.get(
        k, lambda: entity(s, k))()
    s.raises(s.attempt(s.do, "gemd.entity.util.make_instance", v), ("TypeError",),
             "only specs can be instantiated", k)


def link_inside(s):
    """A link where the spec graph goes on is not a spec."""
    k = s.choose("what", ["MaterialSpec.process", "IngredientSpec.material"])
    cls, f = k.split(".")
    x = entity(s, cls, s.str("n"), **{f: link(s)})
    if s.flag("deeper"):
        p = entity(s, "ProcessSpec", s.str("p"))
        i = x
        if cls == "MaterialSpec":
            i = entity(s, "IngredientSpec", s.str("i"), material=x, process=p)
        else:
            s.put(x, "process", p)
        x = p
    rec = freeze(s, [x])
    s.raises(s.attempt(s.do, "gemd.entity.util.make_instance", x), ("TypeError",),
             "a link within the specs is refused", k)
    d = thawed(s, rec)
    s.check(d is None, "instantiating leaves the specs alone", str(d))


def tags(s):
    return {c: s.get(s.cls(c), "typ") for c in ENTITIES}


def history(s, root, uids):
    s.I.max_steps = 6000000       # every record saves and loads the whole history
    g = world(s, uids)
    objs = reachable(s, g[root])
    rec = freeze(s, objs)
    out = s.items(s.ok(s.attempt(s.do, "gemd.entity.util.complete_material_history", g[root]),
                       "a material history can be taken", root))
    d = thawed(s, rec, but=("uids",))
    s.check(d is None, "taking the history leaves the objects alone", str(d))
    key = "one record for each reachable object"
    s.check(len(out) == len(objs), key, f"{len(out)} records for {len(objs)} objects")
    typ = tags(s)
    left = list(objs)
    for x in out:
        s.check(s.I.is_mapping(x), key, f"record {x!r}")
        f = {s.I.strval(k): v for k, v in s.I.mapping_items(x)}
        mine = [(k, v) for k, v in s.I.mapping_items(f["uids"])]
        hit = next((o for o in left if s.same(typ[s.tname(o)], f["type"]) and same_uids(
            s, mine, s.get(o, "uids"))), None)
        s.check(hit is not None, key, f"a {f['type']!r} record with uids {mine!r} matches no "
                "remaining object")
        left = [o for o in left if o is not hit]
        if "name" in f:
            s.check(s.same(f["name"], s.get(hit, "name")), "records hold the object's content",
                    f"name {f['name']!r} for {s.get(hit, 'name')!r}")
        for k, v in f.items():
            for y in nested(s, v):
                s.check(not any(s.same(y, typ[c]) for c in ENTITIES), "records hold links, not "
                        "objects", f"{k} of a {f['type']!r} holds a {y!r}")
        for k in ("process", "material", "spec", "template"):
            if k not in f:
                continue
            w = s.get(hit, k)
            if w is None:
                s.check(f[k] is None, "records hold the object's links", f"{k}: {f[k]!r}")
            else:
                lk = {s.I.strval(a): b for a, b in s.I.mapping_items(f[k])}
                s.check(any(s.same(lk["scope"], a) and s.same(lk["id"], b) for a, b in
                            s.I.mapping_items(s.get(w, "uids"))),
                        "records hold the object's links", f"{k}: {lk!r}")


def same_uids(s, a, m):
    b = list(s.I.mapping_items(m))
    return len(a) == len(b) and all(
        any(s.same(k, q) and s.same(v, w) for q, w in b) for k, v in a)


def nested(s, v):
    """Type tags of dictionaries inside a record's field."""
    if s.I.is_mapping(v):
        for k, x in s.I.mapping_items(v):
            if s.I.strval(k) == "type":
                yield x
            yield from nested(s, x)
    elif isinstance(v, Obj) and isinstance(v.p, list):
        for x in v.p:
            yield from nested(s, x)


def run(r):
    for root in ("m", "p", "i1", "i2", "a", "c"):
        for twins in (False, True):
            r.scenario(f"instance of {root}{' (twins)' if twins else ''}", instance, root, twins)
    r.scenario("link inside", link_inside)
    r.scenario("instance of a measurement", measurement)
    r.scenario("refusals", refused)
    for root in (("mr", "me", "ir", "imr", "pr", "ps", "ms") if r.thorough else ("mr", "imr", "pr")):
        for uids in ("none", "some", "all", "twins", "case"):
            r.scenario(f"history of {root}, uids {uids}", history, root, uids)
