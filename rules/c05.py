"""C05: all_dependencies is exactly the set of directly referenced entities and links."""
from gsa.core import Obj
from rules.catalog import ENTITIES, FIELDS, build, presence, argument, attribute
from rules.common import entity, link
from rules.graphs import world

INFO = {
    "explanation":
        "For every entity class and every pattern of supplied fields, with objects and with "
        "links, the reported dependency set is compared by identity with the set of entities and "
        "links found in the class's own forward fields (and in the attributes it holds).",
    "assumptions": [],
}


def expected_deps(s, o):
    """Entities/links directly referenced by the forward public fields of an entity."""
    out = []

    def walk(v):
        if isinstance(v, Obj) and (s.isa(v, "BaseEntity") or s.isa(v, "LinkByUID")):
            if not any(v is x for x in out):
                out.append(v)
        elif isinstance(v, Obj) and v.cls.name in ("Property", "Condition", "Parameter"):
            walk(s.get(v, "template"))
        elif isinstance(v, Obj) and v.cls.name == "PropertyAndConditions":
            walk(s.get(v, "property"))
            walk(s.get(v, "conditions"))
        elif isinstance(v, Obj) and isinstance(v.p, list):
            for x in v.p:
                walk(x)
    for f in ("template", "spec", "process", "material", "properties", "conditions",
              "parameters"):
        if f in FIELDS[o.cls.name]:
            walk(s.get(o, f))
    return out


def compare(s, o, key):
    got = s.items(s.m(o, "all_dependencies"))
    want = expected_deps(s, o)
    miss = [x for x in want if not any(x is y for y in got)]
    extra = [x for x in got if not any(x is y for y in want)]
    s.check(not miss, f"{key}: complete", f"{o.cls.name} does not report {miss!r}")
    s.check(not extra, f"{key}: nothing else", f"{o.cls.name} reports {extra!r}")
    s.check(s.isa(s.m(o, "all_dependencies"), s.I.builtins["set"]), f"{key}: a set", o.cls.name)


def templated(s, cls, links):
    """Attributes with templates in every attribute field."""
    def t(at):
        return link(s) if links else entity(s, at + "Template", bounds=s.new(
            "IntegerBounds", 0, 9))
    kw = {}
    for f, at in (("properties", "Property"), ("conditions", "Condition"),
                  ("parameters", "Parameter")):
        if f in FIELDS[cls]:
            n = s.choose(f, [0, 1, 2, 3])
            xs = []
            for i in range(n):
                tm = None if i == 1 else t(at)
                a = s.new(at, s.str(f"{f}{i}"), template=tm)
                if cls == "MaterialSpec":
                    a = s.new("PropertyAndConditions", a, s.list(
                        *[s.new("Condition", s.str(f"c{j}"), template=None if j == 1 else
                                t("Condition")) for j in range(i + 1)]))
                xs.append(a)
            kw[f] = s.list(*xs)
    o = entity(s, cls, s.str("o"), **kw)
    compare(s, o, "attribute templates")


def fields(s, cls, links):
    o, kw = build(s, cls, presence(s, cls), links)
    compare(s, o, "fields")


def changed(s, cls):
    """Dependencies follow assignments."""
    o, kw = build(s, cls, None, False)
    s.m(o, "all_dependencies")
    fs = [f for f in ("template", "spec", "process", "material", "properties", "conditions",
                      "parameters") if f in FIELDS[cls]]
    if not fs:
        s.done()
    f = s.choose("field", fs)
    what = s.choose("to", ["none", "link", "other"])
    s.put(o, f, None if what == "none" else argument(s, cls, f, what == "link"))
    compare(s, o, "after assignment")


def shared(s, cls):
    """The same dependency reached twice is reported once; equal twins are both reported."""
    t = entity(s, "ConditionTemplate", s.str("t"))
    t2 = entity(s, "ConditionTemplate", s.get(t, "name"), bounds=s.get(t, "bounds"))
    if cls.endswith("Template"):
        v = s.list(t, s.list(t2, s.new("RealBounds", 1, 2, "m")))
    else:
        v = s.list(s.new("Condition", s.str("a"), template=t),
                   s.new("Condition", s.str("b"), template=t),
                   s.new("Condition", s.str("c"), template=t2))
    o = entity(s, cls, s.str("o"), conditions=v)
    compare(s, o, "shared")


def many(s, cls, f):
    """Every element of a long list counts."""
    at = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}[f]
    ts = [entity(s, at + "Template", s.str(f"t{i}")) for i in range(9)]
    if cls.endswith("Template"):
        v = ts
    else:
        v = [s.new(at, s.str(f"a{i}"), template=t) for i, t in enumerate(ts)]
        if cls == "MaterialSpec":
            v = [s.new("PropertyAndConditions", x) for x in v]
    compare(s, entity(s, cls, s.str("o"), **{f: s.list(*v)}), "long lists")


def in_history(s):
    g = world(s)
    compare(s, g[s.choose("which", list(g))], "in a history")


def run(r):
    for cls in ENTITIES:
        for links in (False, True):
            r.scenario(f"fields of {cls} with {'links' if links else 'objects'}", fields, cls,
                       links)
            if not cls.endswith("Template") and any(
                    f in FIELDS[cls] for f in ("properties", "conditions", "parameters")):
                r.scenario(f"attribute templates of {cls} with "
                           f"{'links' if links else 'objects'}", templated, cls, links)
        r.scenario(f"assignments to {cls}", changed, cls)
        for f in ("properties", "conditions", "parameters"):
            if f in FIELDS[cls]:
                r.scenario(f"many {f} of {cls}", many, cls, f)
        if "conditions" in FIELDS[cls]:
            r.scenario(f"shared in {cls}", shared, cls)
    r.scenario("in a history", in_history)
