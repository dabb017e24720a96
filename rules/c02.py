"""C02: the dictionary form of every type is complete and reversible."""
from gsa.core import Obj
from rules.common import entity
from rules.catalog import (FIELDS, VALUES, BOUNDS, ENTITIES, ATTRIBUTES, TYPES, DERIVED, build, presence,
                           differs, ordered, argument, required, assume)
from rules.common import link, entity

INFO = {
    "explanation":
        "For each of the serializable classes, an abstract instance is built for every pattern of "
        "supplied fields (all, none, each alone, each missing; symbolic contents, objects and "
        "links), then its dictionary form, rebuilt instance and JSON forms are compared field by "
        "field with a structural oracle over the public data model.",
    "assumptions": ["json module modelled as faithful for str/int/float/bool/None/list/dict",
                    "unit strings from the modelled table"],
}


def items(s, d):
    out = {}
    for k, v in s.I.mapping_items(d):
        out[k] = v
    return out


def outline(s, v):
    """The structure of nested plain containers, other values as they are."""
    if s.I.is_mapping(v):
        return [(outline(s, k), outline(s, x)) for k, x in s.I.mapping_items(v)]
    if isinstance(v, Obj) and isinstance(v.p, list):
        return [outline(s, x) for x in v.p]
    return v


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    return a is b or type(a) is type(b) and not isinstance(a, Obj) and a == b


def as_dict(s, cls, links):
    fs = presence(s, cls)
    o, kw = build(s, cls, fs, links)
    d = items(s, s.m(o, "as_dict"))
    want = set(FIELDS[cls]) | {"type"}
    s.check(set(d) - set(DERIVED.get(cls, ())) == want, "as_dict has exactly the public fields and the type",
            f"{cls}: missing {sorted(want - set(map(str, d)))}, "
            f"unexpected {sorted(map(str, set(d) - want))}")
    s.check(s.I.strval(d["type"]) == TYPES[cls], "as_dict carries the type tag",
            f"{cls}: type is {d['type']!r}")
    for f in FIELDS[cls]:
        x = differs(s, s.get(o, f), d[f], f)
        s.check(x is None, "as_dict carries the current field value", f"{cls} {x}")
    if kw is not None:
        for f, v in kw.items():
            if f in ("origin", "sample_type") or f in ("properties", "conditions", "parameters") \
                    and cls.endswith("Template"):
                continue
            x = differs(s, v, s.get(o, f), f)
            s.check(x is None, "constructor argument is what the field shows", f"{cls} {x}")


def from_dict(s, cls, links):
    fs = presence(s, cls)
    o, kw = build(s, cls, fs, links)
    before = {f: s.get(o, f) for f in FIELDS[cls]}
    s.clear_events()
    given = s.m(o, "as_dict")
    was = outline(s, given)
    back = s.I.call(s.get(s.cls(cls), "from_dict"), [given], {})
    s.check(alike(was, outline(s, given)), "from_dict leaves the dictionary it is given alone",
            f"{cls}: {was!r} became {outline(s, given)!r}")
    s.check(not s.warnings(), "no field of its own dictionary is unexpected",
            f"{cls}.from_dict(as_dict()) warns {s.warnings()[:1]!r}")
    s.check(back is not o, "from_dict builds a new object", cls)
    d = differs(s, o, back)
    s.check(d is None, "from_dict(as_dict(x)) rebuilds x", f"{cls}{d}")
    for f, v in before.items():
        now = s.get(o, f)
        s.check(now is v or differs(s, v, now, f) is None, "as_dict leaves the object unchanged",
                f"{cls}.{f} was {v!r}, is {now!r}")
    if links:
        s.check(s.eq(o, back) and s.eq(back, o), "rebuilt object is equal", cls)


def from_dict_unknown(s, cls):
    """Unknown keys are ignored with a warning, known ones still taken."""
    o, kw = build(s, cls, None, True)
    d = s.m(o, "as_dict")
    s.I.meth(d, "__setitem__", "no_such_field", s.str("junk"))
    s.clear_events()
    back = s.I.call(s.get(s.cls(cls), "from_dict"), [d], {})
    s.check(len(s.warnings()) == 1, "one warning per unexpected key", f"{s.warnings()!r}")
    x = differs(s, o, back)
    s.check(x is None, "from_dict keeps every known field", f"{cls}{x}")


def dump_build(s, cls, links, how):
    fs = presence(s, cls)
    o, kw = build(s, cls, fs, links)
    if how == "dump/build":
        given = s.m(o, "dump")
        was = outline(s, given)
        back = s.I.call(s.get(s.cls("DictSerializable"), "build"), [given], {})
        s.check(alike(was, outline(s, given)), "build leaves the dictionary it is given alone",
                f"{cls}: {was!r} became {outline(s, given)!r}")
    elif how == "raw_dumps/raw_loads":
        j = s.new("GEMDJson")
        back = s.m(j, "raw_loads", s.m(j, "raw_dumps", o))
    elif how == "dumps/loads":
        back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    else:
        back = s.m(s.new("GEMDJson"), "copy", o)
    s.check(back is not o, f"{how} builds a new object", cls)
    d = differs(s, o, back)
    s.check(d is None, f"{how} rebuilds the object", f"{cls}{d}")


def raw_container(s):
    """Raw text keeps links as links, also next to the object they name."""
    i = s.str("id")
    a = entity(s, "ProcessRun", s.str("a"), uids=s.dict(("Scope", i)))
    m = entity(s, "MaterialRun", s.str("m"), process=s.new("LinkByUID", s.choose(
        "spelling", ["Scope", "SCOPE"]), i), uids=s.dict(("Scope", s.str("j"))))
    l = s.new("LinkByUID", "Scope", i)
    o = s.choose("container", [lambda: s.list(a, l, m), lambda: s.list(m, l, a),
                               lambda: s.dict(("x", a), ("y", s.list(l)), ("z", m)),
                               lambda: s.list(s.dict(("k", a)), l)])()
    j = s.new("GEMDJson")
    if s.flag("used before"):
        s.m(j, "raw_loads", s.m(j, "raw_dumps", s.list(a, l)))
    back = s.m(j, "raw_loads", s.m(j, "raw_dumps", o))
    d = differs(s, o, back)
    s.check(d is None, "raw text rebuilds every element of a container", f"{d}")


def scalar_variants(s, cls):
    """Boundary contents of the small types: zero, equal ends, None, one/none elements."""
    if cls == "NominalReal":
        o = s.new(cls, s.choose("nominal", [0, -1, 0.0, 7]), s.choose("units", ["", "m"]))
    elif cls == "NormalReal":
        o = s.new(cls, s.choose("mean", [0, 1.5]), s.choose("std", [0, 2]), "m")
    elif cls == "UniformReal":
        o = s.new(cls, s.choose("lo", [0, 0.0, -1]), s.choose("hi", [0, 3]), "")
    elif cls == "NominalInteger":
        o = s.new(cls, s.choose("nominal", [0, 3.0, -2, 9007199254740993]))
    elif cls == "UniformInteger":
        o = s.new(cls, s.choose("lo", [0, -1]), s.choose("hi", [0, 3]))
    elif cls == "NominalCategorical":
        o = s.new(cls, s.choose("category", [None, "x", "", " x ", "None", "0"]))
    elif cls == "DiscreteCategorical":
        o = s.new(cls, s.choose("p", [None, "x", s.dict(("x", 1.0)), s.dict(("x", 1)),
                                      s.dict(("x", 1.0), ("y", 0.0)), s.dict(("", 0), ("y", 1))]))
    elif cls == "NominalComposition":
        o = s.new(cls, s.choose("q", [None, s.dict(), s.dict(("x", 0)),
                                      s.list(s.list("x", 0.0), s.list("y", 2)),
                                      s.dict(("x", 0.0), ("", 1), ("y", -1.5))]))
    elif cls == "EmpiricalFormula":
        o = s.new(cls, s.choose("formula", [None, "Al2O3", ""]))
    elif cls in ("InChI", "Smiles"):
        o = s.new(cls, s.choose("text", [None, "InChI=1S/H2O/h1H2"] + (["", "CCO", " C"] if cls == "Smiles" else
                                                                     ["InChI=1/H2O/h1H2"])))
    elif cls == "RealBounds":
        o = s.new(cls, s.choose("lo", [0, 0.0, -1]), s.choose("hi", [0, 3]),
                  s.choose("units", ["", "kg"]))
    elif cls == "IntegerBounds":
        o = s.new(cls, s.choose("lo", [0, -1]), s.choose("hi", [0, 3, 9007199254740993]))
    elif cls in ("CategoricalBounds", "CompositionBounds"):
        o = s.new(cls, s.choose("members", [None, s.list(), s.list("x"), s.set("x", "y"),
                                            s.list(""), s.list("", "x", "X", " x"),
                                            s.list("b", "a", "c", "B", "1")]))
    elif cls == "PerformedSource":
        o = s.new(cls, s.choose("by", [None, "", "x"]), s.choose("date", [None, "", "2020"]))
    elif cls == "FileLink":
        o = s.new(cls, s.choose("filename", ["", "x"]), s.choose("url", ["", "y"]))
    else:
        o = s.new(cls)
    how = s.choose("how", ["from_dict", "dump/build", "dumps/loads"])
    if how == "from_dict":
        back = s.I.call(s.get(s.cls(cls), "from_dict"), [s.m(o, "as_dict")], {})
    elif how == "dump/build":
        back = s.I.call(s.get(s.cls("DictSerializable"), "build"), [s.m(o, "dump")], {})
    else:
        back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    d = differs(s, o, back)
    s.check(d is None, f"{how} rebuilds boundary contents", f"{cls}{d}")
    s.check(s.eq(o, back) and s.eq(back, o), "rebuilt object is equal", cls)


def falsy_fields(s, cls):
    """Empty strings, empty lists, origin/sample types: falsy is not absent."""
    o, kw = build(s, cls, None, True)
    names = [f for f in ("notes", "description") if f in FIELDS[cls]]
    f = s.choose("field", names)
    s.put(o, f, "")
    back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    x = differs(s, o, back)
    s.check(x is None, "an empty string is kept", f"{cls}{x}")
    back = s.I.call(s.get(s.cls("DictSerializable"), "build"), [s.m(o, "dump")], {})
    x = differs(s, o, back)
    s.check(x is None, "an empty string is kept", f"{cls}{x}")


def enumerated(s, what):
    from rules.catalog import ORIGINS, SAMPLE_TYPES
    if what == "origin":
        v = s.choose("origin", ORIGINS)
        o = s.new(s.choose("class", ATTRIBUTES), "n", origin=v)
    else:
        v = s.choose("sample_type", SAMPLE_TYPES)
        o = s.new("MaterialRun", "n", sample_type=v)
    s.check(s.I.strval(s.get(o, what)) == v, f"{what} is stored", f"{s.get(o, what)!r} for {v!r}")
    d = items(s, s.m(o, "dump"))
    s.check(d[what] == v, f"dumped {what} is its text", f"{d[what]!r}")
    how = s.choose("how", ["from_dict", "dump/build", "dumps/loads"])
    if how == "from_dict":
        back = s.I.call(s.get(s.get(o, "__class__"), "from_dict"), [s.m(o, "as_dict")], {})
    elif how == "dump/build":
        back = s.I.call(s.get(s.cls("DictSerializable"), "build"), [s.m(o, "dump")], {})
    else:
        back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    s.check(s.get(back, what) is s.get(o, what), f"{what} survives", f"{s.get(back, what)!r}")


def after_mutation(s, cls):
    """The dictionary shows the state now, not the state at construction."""
    o, kw = build(s, cls, (), True)
    f = s.choose("field", [f for f in FIELDS[cls] if f != "property"])
    v = argument(s, cls, f, True)
    s.m(o, "as_dict")
    s.put(o, f, v)
    cur = s.get(o, f)
    d = items(s, s.m(o, "as_dict"))
    x = differs(s, cur, d[f], f)
    s.check(x is None, "as_dict follows assignments", f"{cls} {x}")
    back = s.I.call(s.get(s.cls("DictSerializable"), "build"), [s.m(o, "dump")], {})
    x = differs(s, o, back)
    s.check(x is None, "dump follows assignments", f"{cls}{x}")


def run(r):
    big = ATTRIBUTES + ("PropertyAndConditions",) + ENTITIES
    for cls in FIELDS:
        r.scenario(f"as_dict {cls}", as_dict, cls, True)
        r.scenario(f"from_dict {cls}", from_dict, cls, True)
        r.scenario(f"dump/build {cls}", dump_build, cls, True, "dump/build")
        if cls in big:
            r.scenario(f"as_dict {cls} with objects", as_dict, cls, False)
            r.scenario(f"dump/build {cls} with objects", dump_build, cls, False, "dump/build")
            r.scenario(f"unknown keys {cls}", from_dict_unknown, cls)
            r.scenario(f"after assignment {cls}", after_mutation, cls)
            if cls != "PropertyAndConditions":
                r.scenario(f"falsy fields {cls}", falsy_fields, cls)
        if cls in VALUES + BOUNDS + ("PerformedSource", "FileLink"):
            r.scenario(f"boundary contents {cls}", scalar_variants, cls)
    r.scenario("raw containers", raw_container)
    r.scenario("origin", enumerated, "origin")
    r.scenario("sample_type", enumerated, "sample_type")
    if r.thorough:
        for cls in FIELDS:
            for how in ("raw_dumps/raw_loads", "dumps/loads", "copy"):
                r.scenario(f"{how} {cls}", dump_build, cls, True, how)
                if cls in big:
                    r.scenario(f"{how} {cls} with objects", dump_build, cls, False, how)
