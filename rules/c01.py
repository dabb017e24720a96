"""C01: both ends of every object link agree, whatever the history of assignments."""
from rules.common import LINKS, entity, link, mirror, reverse

INFO = {
    "explanation":
        "Typestate of the five bidirectional links (two sources, two targets) under a most general "
        "client: every constructor choice followed by every sequence of assignments (None, either "
        "target, a link, a value of a wrong type) is interpreted abstractly and after each step "
        "the reverse views are compared with the forward pointers; likewise after serialization "
        "and link substitution.",
    "assumptions": ["Python semantics as modelled in gsa/", "at most two sources and two targets "
                    "per history; longer histories only revisit these abstract states"],
}


def history(s, kind, steps):
    src, field, tgt, attr, many = kind
    # structurally equal sources: identity must be used
    same = s.flag("equal sources") if src.endswith("Spec") else True
    name = s.str("shared_name")
    names = [name, name if same else s.str("other_name")]
    lk = link(s)
    t = [entity(s, tgt, s.str("t1")), entity(s, tgt, s.str("t2", free=True))]
    a = []
    for i in range(2):
        first = s.choose(f"{src}{i}.{field}=", ["None", "t1", "link", "t2"][:3 + i])
        v = {"None": None, "t1": t[0], "t2": t[1], "link": lk}[first]
        taken = not many and v in t and s.get(v, attr) is not None
        a.append(entity(s, src, names[i], **{field: v}))
        mirror(s, kind, a, t, f"{src}.{field} mirrored after construction" +
               (" on a target that had another" if taken else ""))
    for i in range(steps):
        who = s.choose("source", [0, 1])
        what = s.choose("assign", ["None", "t1", "t2", "link", "wrong", "peer"])
        v = {"None": None, "t1": t[0], "t2": t[1], "link": lk, "wrong": s.opaque(),
             "peer": a[1 - who]}[what]
        before = [s.get(x, field) for x in a]
        rev = [reverse(s, x, attr, many) for x in t]
        r = s.try_put(a[who], field, v)
        if what in ("wrong", "peer"):
            s.raises(r, ("TypeError", "ValueError"), f"{src}.{field} rejects other objects",
                     f"assigning {what}")
            now = [s.get(x, field) for x in a]
            rev2 = [reverse(s, x, attr, many) for x in t]
            s.check(all(x is y for x, y in zip(before, now)),
                    f"{src}.{field} unchanged on rejection",
                    "a rejected assignment changed the link", where=r.exc.origin)
            for x, p, q in zip(t, rev, rev2):
                s.check(len(p) == len(q) and all(y is z for y, z in zip(p, q)),
                        f"{src}.{field}: the {attr} of the " +
                        ("current" if x is before[who] else "other") +
                        " target unchanged on rejection",
                        f"a rejected assignment changed the {attr} view", where=r.exc.origin)
        else:
            s.ok(r, f"{src}.{field} accepts {what}", f"assigning {what}")
            s.check(s.get(a[who], field) is v, f"{src}.{field} stores the assignment",
                    "the forward link is not what was assigned", o=a[who])
            if many:
                s.check(s.get(a[1 - who], field) is before[1 - who],
                        f"{src}.{field} of another object untouched",
                        "assigning one object's link changed another object's", o=a[1 - who])
            elif s.get(a[1 - who], field) is not before[1 - who]:
                s.check(before[1 - who] is v and s.get(a[1 - who], field) is None,
                        f"{src}.{field} takeover detaches the previous output",
                        "another material's process changed without being taken over",
                        o=a[1 - who])
        how = ""
        if not many and what in ("t1", "t2") and any(x is not a[who] for x in rev[t.index(v)]):
            how = " to a target that had another"
        elif many and same and what not in ("wrong", "peer") and before[who] in t \
                and rev[t.index(before[who])].index(a[who]) > 0:
            how = " leaving a target where an equal one is listed before it"
        mirror(s, kind, a, t, f"{src}.{field} mirrored after assignment{how}", f"after {what}")


def rejected_constructor(s, kind):
    src, field, tgt, attr, many = kind
    r = s.attempt(lambda: entity(s, src, s.str("n"), **{field: s.opaque()}))
    s.raises(r, ("TypeError", "ValueError"), f"{src}({field}=wrong) rejected", "constructing")


def read_only(s, kind):
    src, field, tgt, attr, many = kind
    t = entity(s, tgt, s.str("t"))
    a = entity(s, src, s.str("a"), **{field: t})
    b = entity(s, src, s.str("b"))
    r = s.try_put(t, attr, s.list(b) if many else b)
    if r.ok:     # if the reverse side is assignable, it has to be mirrored as well
        mirror(s, kind, [a, b], [t], f"{tgt}.{attr} mirrored when assigned")
    else:
        mirror(s, kind, [a, b], [t], f"{tgt}.{attr} cannot be replaced")


def graph(s):
    """A small complete graph; returns dict of objects."""
    g = {}
    g["ps"] = entity(s, "ProcessSpec", s.str("ps"))
    g["ms"] = entity(s, "MaterialSpec", s.str("ms"), process=g["ps"])
    g["ims"] = entity(s, "MaterialSpec", s.str("ims"))
    g["is"] = entity(s, "IngredientSpec", s.str("is"), process=g["ps"], material=g["ims"])
    g["is2"] = entity(s, "IngredientSpec", s.str("is2"), process=g["ps"], material=g["ims"])
    g["pr"] = entity(s, "ProcessRun", s.str("pr"), spec=g["ps"])
    g["mr"] = entity(s, "MaterialRun", s.str("mr"), process=g["pr"], spec=g["ms"])
    g["imr"] = entity(s, "MaterialRun", s.str("imr"), spec=g["ims"])
    g["ir"] = entity(s, "IngredientRun", process=g["pr"], material=g["imr"], spec=g["is"])
    g["ir2"] = entity(s, "IngredientRun", process=g["pr"], material=g["imr"], spec=g["is2"])
    g["mer"] = entity(s, "MeasurementRun", s.str("mer"), material=g["mr"])
    g["mer2"] = entity(s, "MeasurementRun", s.str("mer2"), material=g["mr"])
    return g


def all_mirrored(s, objs, key):
    for kind in LINKS:
        src = [o for o in objs if s.tname(o) == kind[0]]
        tgt = [o for o in objs if s.tname(o) == kind[2]]
        mirror(s, kind, src, tgt, f"{key}: {kind[0]}.{kind[1]}")


def reach(s, root):
    """Everything reachable through public link attributes."""
    out, todo = [], [root]
    fields = ("process", "material", "spec", "output_material", "ingredients", "measurements")
    while todo:
        o = todo.pop()
        if any(o is x for x in out):
            continue
        out.append(o)
        for f in fields:
            v = s.I.getattr(o, f, None)
            if v is None:
                continue
            for x in (s.items(v) if f in ("ingredients", "measurements") else [v]):
                if s.isa(x, "BaseEntity"):
                    todo.append(x)
    return out


def roundtrip(s, root):
    g = graph(s)
    text = s.do("gemd.json.dumps", g[root])
    back = s.do("gemd.json.loads", text)
    objs = reach(s, back)
    s.check(len(objs) == len(reach(s, g[root])), "rebuilt graph has the same objects",
            f"{len(objs)} objects after loading, {len(reach(s, g[root]))} before")
    all_mirrored(s, objs, "after loading")
    all_mirrored(s, list(g.values()), "originals after dumping")


def substitution(s, kind):
    src, field, tgt, attr, many = kind
    t = entity(s, tgt, s.str("t"), uids=s.dict(("my", s.str("tid"))))
    a = entity(s, src, s.str("a"), uids=s.dict(("my", s.str("aid"))), **{field: t})
    s.do("gemd.util.substitute_links", a, inplace=True)
    s.check(s.tname(s.get(a, field)) == "LinkByUID", "substituted by a link",
            f"{src}.{field} is still {s.get(a, field)!r}", o=a)
    mirror(s, kind, [a], [t], f"{src}.{field} mirrored after substitute_links in place")
    idx = s.do("gemd.util.make_index", s.list(t))
    s.do("gemd.util.substitute_objects", a, idx, inplace=True)
    s.check(s.get(a, field) is t, "link resolved to the object", o=a,
            msg=f"{src}.{field} is {s.get(a, field)!r}")
    mirror(s, kind, [a], [t], f"{src}.{field} mirrored after substitute_objects in place")


def run(r):
    for kind in LINKS:
        n = f"{kind[0]}.{kind[1]}"
        r.scenario(f"history {n}", history, kind, 3 if r.thorough else 2,
                   max_paths=60000 if r.thorough else 12000, seconds=600 if r.thorough else 150)
        r.scenario(f"rejected constructor {n}", rejected_constructor, kind)
        r.scenario(f"reverse side {n}", read_only, kind)
        r.scenario(f"substitution {n}", substitution, kind)
    for root in ("mr", "ir", "mer", "pr", "ms", "ps"):
        r.scenario(f"round trip from {root}", roundtrip, root)
