"""C26: type tags identify classes."""
import json as hostjson

from gsa.core import ClassVal
from rules.catalog import FIELDS, TYPES, ENTITIES, build
from rules.common import entity

INFO = {
    "explanation":
        "Every class of the package derived from DictSerializable is enumerated: leaf classes must "
        "have a tag, shared with no class that is not an ancestor, registered to themselves. Each "
        "kind of object is dumped and loaded through every route and must come back as the same "
        "class; unknown, misspelt and non-string tags must be refused; client classes that extend, "
        "replace or steal a tag are interpreted.",
    "assumptions": [],
    "min_scenarios": 40, "min_sites": 20,
}


def found(I):
    base = I.modules["gemd.entity.dict_serializable"].ns["DictSerializable"]
    out = []
    for m in list(I.modules.values()):
        if not m.name.startswith("gemd"):
            continue
        for v in list(m.ns.values()):
            if isinstance(v, ClassVal) and v is not base and v.issub(base) \
                    and not any(v is x for x in out):
                out.append(v)
    return out


def table(s):
    m = s.get(s.cls("DictSerializable"), "class_mapping")
    return [(s.I.strval(k), v) for k, v in s.I.mapping_items(m)]


def tagged(s, cls):
    c = s.cls(cls)
    t = s.I.strval(s.get(c, "typ"))
    s.check(t == TYPES[cls], f"{cls} has its documented tag", f"{t!r}, not {TYPES[cls]!r}")
    hits = [v for k, v in table(s) if k == t]
    s.check(len(hits) == 1 and hits[0] is c, f"{cls} is registered under its tag", f"{hits!r}")
    others = [v for k, v in table(s) if k != t and v is c]
    s.check(not others, f"{cls} is registered under one tag", f"{others!r}")


def loaded(s, cls):
    o, _ = build(s, cls, None if s.flag("populated") else (), True)
    d = s.m(o, "dump")
    t = next(v for k, v in s.I.mapping_items(d) if s.I.strval(k) == "type")
    s.check(s.I.strval(t) == TYPES[cls], f"{cls} is saved with its tag", f"{t!r}")
    how = s.choose("how", ["build", "raw", "loads", "copy"])
    if how == "build":
        back = s.m(s.cls("DictSerializable"), "build", d)
    elif how == "raw":
        j = s.new("GEMDJson")
        back = s.m(j, "raw_loads", s.m(j, "raw_dumps", o))
    elif how == "loads":
        back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    else:
        back = s.m(s.new("GEMDJson"), "copy", o)
    s.check(s.I.type_of(back) is s.cls(cls), f"{cls} is loaded as itself",
            f"{how} gave a {s.tname(back)}")


def unknown(s):
    base = s.choose("tag of", ["process_run", "link_by_uid", "nominal_real"])
    t = s.choose("tag", ["no_such_type", base.upper(), base.title(), base + " ", " " + base,
                         base.replace("_", "-"), base.replace("_", ""), base + "s", "", None, 5,
                         True])
    text = hostjson.dumps({"type": t, "name": "x", "scope": "a", "id": "b", "nominal": 1,
                           "units": ""})
    whole = '{"context": [], "object": ' + text + '}'
    how = s.choose("how", ["raw", "loads", "nested", "context"])
    if how == "raw":
        r = s.attempt(s.m, s.new("GEMDJson"), "raw_loads", text)
    elif how == "nested":
        r = s.attempt(s.m, s.new("GEMDJson"), "raw_loads", '[{"a": [' + text + ']}]')
    elif how == "context":
        r = s.attempt(s.do, "gemd.json.loads", '{"context": [' + text + '], "object": null}')
    else:
        r = s.attempt(s.do, "gemd.json.loads", whole)
    s.raises(r, ("TypeError", "ValueError", "KeyError"), "an unknown tag is refused",
             f"{how}: {t!r}")


def untagged(s):
    r = s.attempt(s.m, s.new("GEMDJson"), "raw_loads", '{"a": 1, "b": {"c": [2]}}')
    v = s.ok(r, "a dictionary without a tag stays a dictionary", "")
    s.check(s.I.is_mapping(v) and len(list(s.I.mapping_items(v))) == 2,
            "a dictionary without a tag stays a dictionary", f"{v!r}")


def client(s):
    """Client classes: an heir may take the tag over, a stranger may not."""
    ns = {k: s.cls(k) for k in ("ProcessRun", "BaseEntity", "DictSerializable", "NominalReal")}
    before = table(s)
    o = entity(s, "ProcessRun")
    old = s.new("GEMDJson")         # in use before the client's class exists
    text = s.m(old, "raw_dumps", o)
    s.m(old, "raw_loads", text)
    s.m(old, "copy", o)
    k = s.choose("client", ["heir", "heir without tag", "new tag", "stranger", "stranger value",
                            "heir of heir", "namesake", "parent", "sibling"])
    refused = {"stranger": 'class Mine(NominalReal, typ="process_run"):\n    pass\n',
               "stranger value": 'class Mine(ProcessRun, typ="nominal_real"):\n    pass\n',
               "namesake": 'class ProcessRun(NominalReal, typ="process_run"):\n    pass\n',
               "parent": 'class Mine(BaseEntity, typ="process_run"):\n    pass\n',
               "sibling": 'class Mine(DictSerializable, typ="process_run"):\n    pass\n'}
    if k in refused:
        src = refused[k]
        r = s.attempt(s.client, src, **ns)
        s.raises(r, ("ValueError", "TypeError"), "a tag cannot be taken by an unrelated class", k)
        now = table(s)
        s.check(len(now) == len(before) and all(a == x and b is y for (a, b), (x, y) in
                                                zip(before, now)),
                "a refused class leaves the registry alone", k)
        return
    src = {"heir": 'class Mine(ProcessRun, typ="process_run"):\n    pass\n',
           "heir of heir": 'class Heir(ProcessRun, typ="process_run"):\n    pass\n'
                           'class Mine(Heir, typ="process_run"):\n    pass\n',
           "heir without tag": 'class Mine(ProcessRun):\n    pass\n',
           "new tag": 'class Mine(ProcessRun, typ="my_process"):\n    pass\n'}[k]
    mine = s.client(src, **ns)["Mine"]
    back = s.m(s.new("GEMDJson"), "raw_loads", text)
    want = mine if k in ("heir", "heir of heir") else s.cls("ProcessRun")
    s.check(s.I.type_of(back) is want, "a tag loads the class registered last under it",
            f"{k}: {s.tname(back)}")
    x = s.I.call(mine, [s.str("n")], {})
    d = s.m(x, "dump")
    t = s.I.strval(next(v for q, v in s.I.mapping_items(d) if s.I.strval(q) == "type"))
    s.check(t == ("my_process" if k == "new tag" else "process_run"),
            "an object of a client class is saved with its class's tag", f"{k}: {t!r}")
    y = s.m(s.cls("DictSerializable"), "build", d)
    s.check(s.I.type_of(y) is (mine if k != "heir without tag" else s.cls("ProcessRun")),
            "an object of a client class is loaded by its tag", f"{k}: {s.tname(y)}")
    z = s.ok(s.attempt(s.m, old, "raw_loads", s.m(old, "raw_dumps", x)) if s.flag("raw") else
             s.attempt(s.m, old, "loads", s.m(old, "raw_dumps", s.dict(
                 ("object", x), ("context", s.list())))),
             "an encoder used before the class existed knows its tag", k)
    s.check(s.I.type_of(z) is s.I.type_of(y), "an encoder used before the class existed knows "
            "its tag", f"{k}: {s.tname(z)}")
    other = s.m(s.new("GEMDJson"), "raw_loads",
                s.m(s.new("GEMDJson"), "raw_dumps", s.new("NominalReal", 1, "m")))
    s.check(s.tname(other) == "NominalReal", "other tags are unaffected", k)


def structure(r):
    I = r.I or r.world()
    cs = found(I)
    names = {}
    for c in cs:
        subs = [x for x in cs if x is not c and x.issub(c)]
        t = I.getattr(c, "typ")
        t = I.strval(t)
        where = f"{c.module.path if getattr(c, 'module', None) else ''}:{c.name}"
        if not subs:
            r.site(f"{c.name} has a tag", where, isinstance(t, str),
                   f"concrete class {c.name} has no type tag ({t!r})")
        if isinstance(t, str):
            clash = [x for x in names.get(t, []) if not (x.issub(c) or c.issub(x))]
            r.site(f"{c.name} does not share its tag", where, not clash,
                   f"tag {t!r} is also that of {[x.name for x in clash]!r}")
            names.setdefault(t, []).append(c)


def run(r):
    structure(r)
    for c in FIELDS:
        r.scenario(f"{c} tag", tagged, c)
        r.scenario(f"{c} loaded", loaded, c)
    r.scenario("unknown tags", unknown)
    r.scenario("no tag", untagged)
    r.scenario("client classes", client)
