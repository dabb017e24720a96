"""C34: views of another object's content read through to that object, now and later."""
from rules.catalog import attribute, value
from rules.common import entity, link
from rules.graphs import freeze, reachable, thawed

INFO = {
    "explanation":
        "Abstract interpretation of every derived view (template of runs, name, value, template "
        "and origin of a property with conditions, ingredients without template) over histories "
        "that change the object viewed after the view exists: the spec reassigned, cleared or "
        "replaced by a link, the spec's template reassigned, the property replaced or changed.",
    "assumptions": [],
    "min_scenarios": 6, "min_sites": 0,
}
RUNS = {"ProcessRun": ("ProcessSpec", "ProcessTemplate"),
        "MaterialRun": ("MaterialSpec", "MaterialTemplate"),
        "MeasurementRun": ("MeasurementSpec", "MeasurementTemplate")}
KEY = "a run's template is its spec's"


def template(s, run):
    spec, temp = RUNS[run]

    def tmpl(label):
        return s.choose(label, [lambda: None, lambda: link(s), lambda: entity(s, temp)])()

    def specs(label):
        return s.choose(label, ["none", "link", "spec"])
    t = tmpl("template")
    sp = entity(s, spec, template=t)
    kind = specs("spec")
    given = {"none": None, "link": link(s), "spec": sp}[kind]
    o = entity(s, run, spec=given)

    def check(want, what):
        rec = freeze(s, reachable(s, o))
        got = s.get(o, "template")
        s.check(got is want, KEY, f"{run}, {what}: {got!r} rather than {want!r}")
        d = thawed(s, rec)
        s.check(d is None, "reading a view changes nothing", f"{run}{d}")
    check(t if kind == "spec" else None, f"spec {kind}")
    then = s.choose("then", ["template", "spec", "same", "clear", "link", "back"])
    if then == "template":
        t2 = tmpl("new template")
        s.put(sp, "template", t2)
        check(t2 if kind == "spec" else None, "the spec's template reassigned")
    elif then == "spec":
        t2 = tmpl("new template")
        s.put(o, "spec", entity(s, spec, template=t2))
        check(t2, "another spec")
    elif then == "same":
        s.put(o, "spec", sp)
        check(t, "the spec assigned again")
    elif then == "clear":
        s.put(o, "spec", None)
        check(None, "spec cleared")
    elif then == "link":
        s.put(o, "spec", link(s))
        check(None, "spec replaced by a link")
    else:
        s.put(o, "spec", None)
        s.put(o, "spec", sp)
        check(t, "spec cleared and assigned")
    other = entity(s, run, spec=sp)
    s.check(s.get(other, "template") is s.get(sp, "template"), KEY, f"{run}: a second run")


def twins(s, run):
    """Two runs of equal but distinct specs each show their own spec's template."""
    spec, temp = RUNS[run]
    n = s.str("n")
    t1, t2 = entity(s, temp, n), entity(s, temp, n)
    s1, s2 = entity(s, spec, n, template=t1), entity(s, spec, n, template=t2)
    r1, r2 = entity(s, run, n, spec=s1), entity(s, run, n, spec=s2)
    for o, t in ((r1, t1), (r2, t2), (r1, t1)):
        s.check(s.get(o, "template") is t, KEY, f"{run}: equal specs")


def ingredients(s, cls):
    spec = cls.replace("Run", "Spec")
    o = entity(s, cls, spec=entity(s, spec)) if cls.endswith("Run") else entity(s, cls)
    s.check(s.get(o, "template") is None, "an ingredient has no template", cls)
    r = s.try_put(o, "template", s.choose("to", [lambda: None, lambda: entity(
        s, "MaterialTemplate"), lambda: link(s)])())
    s.check(not r.ok, "an ingredient has no template", f"{cls}: an assignment is accepted")
    s.check(s.get(o, "template") is None, "an ingredient has no template", cls)


VIEWS = ("name", "template", "origin", "value")


def wrapped(s):
    had = s.choose("template", ["none", "link", "object"])
    p = attribute(s, "Property", "p", full=s.flag("full"), template={
        "none": lambda: None, "link": lambda: link(s), "object": lambda: entity(
            s, "PropertyTemplate", bounds=s.new("IntegerBounds", 0, 10))}[had]())
    o = s.new("PropertyAndConditions", p)

    def check(p, what):
        for v in VIEWS:
            a, b = s.get(o, v), s.get(p, v)
            s.check(a is b or s.same(a, b), "a property with conditions shows the property",
                    f"{what}: {v} is {a!r} rather than {b!r}")
    check(p, "built")
    then = s.choose("then", ["replace", "equal", "refuse"] + list(VIEWS) + ["conditions"])
    if then == "replace":
        q = attribute(s, "Property", "q", full=s.flag("full too"))
        s.put(o, "property", q)
        check(q, "replaced")
    elif then == "equal":
        q = s.new("Property", s.get(p, "name"), **{f: s.get(p, f) for f in (
            "template", "origin", "value", "notes", "file_links")})
        s.put(o, "property", q)
        s.check(s.get(o, "property") is q, "the property given is the property wrapped",
                "an equal property")
        s.put(q, "value", value(s, "NominalInteger"))
        check(q, "replaced by an equal one, which is changed")
    elif then == "refuse":
        r = s.try_put(o, "property", s.choose("by", [lambda: None, lambda: s.opaque(),
                                                     lambda: s.new("Condition", s.str("c"))])())
        s.check(not r.ok, "only a property is wrapped", "accepted")
        check(p, "after a refusal")
    elif then == "conditions":
        s.put(o, "conditions", s.list(attribute(s, "Condition", "c")))
        check(p, "conditions assigned")
    else:
        new = {"name": lambda: s.str("new"), "template": lambda: link(s),
               "origin": lambda: "predicted", "value": lambda: value(s, "NominalInteger")}[then]()
        s.put(p, then, new)
        check(p, f"the property's {then} changed")
        if then != "origin":
            s.check(s.get(o, then) is s.get(p, then) or s.same(s.get(o, then), new),
                    "a property with conditions shows the property", then)
            if then in ("template", "value"):
                s.put(p, then, None)
                check(p, f"the property's {then} removed")


def run(r):
    for k in RUNS:
        r.scenario(f"template of {k}", template, k)
        r.scenario(f"equal specs of {k}", twins, k)
    for k in ("IngredientSpec", "IngredientRun"):
        r.scenario(f"no template of {k}", ingredients, k)
    r.scenario("property with conditions", wrapped)
