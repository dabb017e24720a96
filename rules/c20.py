"""C20: which bounds an object template applies to which attribute."""
from rules.common import entity, link
from rules.c09 import set_level
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Object templates with two attribute templates (each present as object or link, with or "
        "without a range of its own, in either order) meet an attribute with a symbolic integer "
        "value whose template is one of them, an equal copy, a link to one of them, another one, "
        "or missing (then the name decides). The verdict of validate_* and of storing the "
        "attribute at FATAL level must be containment in exactly the bounds that the described "
        "match selects, for every position of the value.",
    "assumptions": ["two entries per template list", "integer bounds stand for all kinds "
                    "(containment itself is C11)"],
    "min_scenarios": 20,
}
TEMPLATES = (("ProcessTemplate", "conditions"), ("ProcessTemplate", "parameters"),
             ("MaterialTemplate", "properties"), ("MeasurementTemplate", "properties"),
             ("MeasurementTemplate", "conditions"), ("MeasurementTemplate", "parameters"))
HOLDERS = (("ProcessSpec", "conditions"), ("ProcessSpec", "parameters"),
           ("MaterialSpec", "properties"), ("MeasurementSpec", "conditions"),
           ("MeasurementSpec", "parameters"), ("ProcessRun", "conditions"),
           ("ProcessRun", "parameters"), ("MeasurementRun", "properties"),
           ("MeasurementRun", "conditions"), ("MeasurementRun", "parameters"))
KIND = {"conditions": "Condition", "parameters": "Parameter", "properties": "Property"}
SINGLE = {"conditions": "condition", "parameters": "parameter", "properties": "property"}
WIDE = {"t1": (0, 10), "t2": (0, 100)}
TIGHT = {"t1": (2, 5), "t2": (20, 50)}


def attribute_templates(s, kind):
    def t(name, uid, lo, hi):
        return s.new(kind + "Template", name, bounds=s.new("IntegerBounds", lo, hi),
                     uids=s.dict(("Scope", uid)))
    t1, t2 = t("Alpha", "u1", *WIDE["t1"]), t("Beta", "u2", *WIDE["t2"])
    t3 = t("Gamma", "u3", 0, 1000)
    copy = t("Alpha", "u1", *WIDE["t1"])
    return {"t1": t1, "t2": t2, "t3": t3, "copy": copy}


def entries(s, ts, forms, forms2=("object", "range"), order=True):
    """The template list, and its description [(key, as link?, (lo, hi) or None)]."""
    out, desc = [], []
    for k in ("t1", "t2"):
        form = s.choose(f"entry {k}", forms if k == "t1" else forms2)
        t = ts[k]
        if "link" in form:
            t = s.new("LinkByUID", "Scope", "u1" if k == "t1" else "u2")
        rng = s.new("IntegerBounds", *TIGHT[k]) if "range" in form else None
        out.append(s.list(t, rng) if rng is not None or k == "t2" else t)
        desc.append((k, "link" in form, TIGHT[k] if "range" in form else None))
    if order and s.flag("t2 listed first"):
        out, desc = out[::-1], desc[::-1]
    return s.list(*out), desc


def subject(s, kind, ts, refs, names):
    """An attribute, made while nothing is checked; returns (attribute, template key, name, x)."""
    ref = s.choose("attribute's template", refs)
    name = s.choose("attribute's name", names if ref in ("none", "t3") else ["Beta", "other"])
    tmpl = {"none": None, "link1": s.new("LinkByUID", "Scope", "u1"),
            "link1 other case": s.new("LinkByUID", "sCOPE", "u1"),
            "unknown link": s.new("LinkByUID", "Scope", "u9")}.get(ref, ts.get(ref))
    x = s.int("x")
    a = s.new(kind, name, template=tmpl, value=s.new("NominalInteger", x))
    return a, ref, name, x


def applicable(ref, name, desc):
    """The bounds that apply, or None."""
    key = {"t1": "t1", "t2": "t2", "copy": "t1", "link1": "t1",
           "link1 other case": "t1"}.get(ref)
    for k, aslink, rng in desc:
        if key is not None:
            hit = k == key
        elif ref == "none":
            hit = not aslink and name == {"t1": "Alpha", "t2": "Beta"}[k]
        else:
            hit = False
        if hit:
            return rng if rng is not None else None if aslink else WIDE[k]
    return None


def inside(s, x, b):
    return b is None or not s.I.lt(x, b[0]) and not s.I.lt(b[1], x)


REFS = ("none", "t1", "t2", "t3", "copy", "link1", "link1 other case", "unknown link")
NAMES = ("Alpha", "Beta", "alpha", "Alpha ", "Alph", "other")


def usable(s, ref, desc):
    if ref == "link1 other case" and any(k == "t1" and aslink for k, aslink, _ in desc):
        s.done()              # link against link: scope case is not part of the claim


def verdict(s, tcls, f, forms):
    set_level(s, "IGNORE")
    kind = KIND[f]
    ts = attribute_templates(s, kind)
    lst, desc = entries(s, ts, forms)
    t = entity(s, tcls, s.str("tt"), **{f: lst})
    a, ref, name, x = subject(s, kind, ts, REFS, NAMES)
    usable(s, ref, desc)
    arg = a
    if tcls == "MaterialTemplate" and s.flag("with conditions"):
        arg = s.new("PropertyAndConditions", a)
    rec = freeze(s, [t, a] + [v for v in ts.values()])
    got = s.ok(s.attempt(s.m, t, "validate_" + SINGLE[f], arg), "validate gives an answer",
               f"{tcls}.{f}")
    b = applicable(ref, name, desc)
    want = inside(s, x, b)
    s.check(s.I.truth(got) == want, "the verdict is containment in the matching bounds",
            f"{tcls}.{f}: attribute with template {ref} named {name}, entries {desc}, value "
            f"{'inside' if want else 'outside'} {b}: {got}")
    d = thawed(s, rec)
    s.check(d is None, "validating changes nothing", str(d))


def stored(s, cls, f, how):
    """The same through an object of the data model, at FATAL level."""
    set_level(s, "IGNORE")
    kind = KIND[f]
    ts = attribute_templates(s, kind)
    lst, desc = entries(s, ts, ("object", "range"), ("range",), False)
    base = cls.replace("Spec", "").replace("Run", "")
    t = entity(s, base + "Template", s.str("tt"), **{f: lst})
    via = s.choose("template reached", ["object", "none", "link"] +
                   (["spec link", "no spec"] if cls.endswith("Run") else []))
    tv = {"object": t, "none": None, "link": link(s)}.get(via)
    if cls.endswith("Run"):
        spec = {"spec link": link(s), "no spec": None}.get(
            via, entity(s, base + "Spec", s.str("sp"), template=tv))
        kw = {"spec": spec}
    else:
        kw = {"template": tv}
    a, ref, name, x = subject(s, kind, ts, ("none", "t1", "t2", "t3", "link1"), ("Alpha", "other"))
    v = s.new("PropertyAndConditions", a) if cls == "MaterialSpec" else a
    b = applicable(ref, name, desc) if via == "object" else None
    want = inside(s, x, b)
    key = f"{cls}.{f}"
    if how == "construct":
        set_level(s, "FATAL")
        r = s.try_new(cls, s.str("n"), **{f: s.list(v)}, **kw)
    else:
        o = s.new(cls, s.str("n"), **kw)
        set_level(s, "FATAL")
        if how == "assign":
            r = s.try_put(o, f, s.list(v))
        else:
            r = s.attempt(s.m, s.get(o, f), "append", v)
    if want:
        s.ok(r, f"{key}: an attribute not excluded by the template is stored",
             f"template {ref} named {name}, reached by {via}")
        if how != "construct":
            s.check([q for q in s.items(s.get(o, f))] == [v], f"{key}: stored as given", "")
    else:
        s.raises(r, ("ValueError",), f"{key}: an attribute outside the matching bounds is refused",
                 f"template {ref} named {name}, bounds {b}")


def later_spec(s, cls, f):
    """The template in force is the one reached when the attribute is stored."""
    set_level(s, "IGNORE")
    kind = KIND[f]
    base = cls.replace("Spec", "").replace("Run", "")
    ts = attribute_templates(s, kind)
    t = entity(s, base + "Template", s.str("tt"), **{f: s.list(ts["t1"])})
    o = s.new(cls, s.str("n"))
    step = s.choose("then", ["given", "given and removed"])
    spec = entity(s, base + "Spec", s.str("sp")) if cls.endswith("Run") else None
    if spec is not None:
        s.put(o, "spec", spec)
        s.put(spec, "template", t)
        if step == "given and removed":
            if s.flag("spec removed"):
                s.put(o, "spec", None)
            else:
                s.put(spec, "template", None)
    else:
        s.put(o, "template", t)
        if step == "given and removed":
            s.put(o, "template", None)
    x = s.int("x")
    a = s.new(kind, "n", template=ts["t1"], value=s.new("NominalInteger", x))
    v = s.new("PropertyAndConditions", a) if cls == "MaterialSpec" else a
    set_level(s, "FATAL")
    r = s.attempt(s.m, s.get(o, f), "append", v)
    if step == "given and removed" or inside(s, x, WIDE["t1"]):
        s.ok(r, f"{cls}.{f}: checked against the current template only", step)
    else:
        s.raises(r, ("ValueError",), f"{cls}.{f}: checked against the current template", step)


def run(r):
    for tcls, f in TEMPLATES:
        for form in ("object", "range", "link", "link range"):
            r.scenario(f"{tcls}.{f} with {form}", verdict, tcls, f, (form,))
    for cls, f in HOLDERS:
        for how in ("construct", "assign", "append"):
            r.scenario(f"{cls}.{f} {how}", stored, cls, f, how)
        r.scenario(f"{cls}.{f} template changes", later_spec, cls, f)
