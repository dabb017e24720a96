"""C09: what the validation level means, at every place that checks consistency."""
from gsa.core import Slice
from rules.catalog import ATTRIBUTES, QUANT, assume
from rules.common import entity, link
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Every public operation that checks a value against bounds (attribute value and template "
        "in either order and by construction, attribute lists of specs and runs against their "
        "object template through every list operation, the four ingredient quantities) is "
        "interpreted at every validation level with symbolic magnitudes, and the outcome (stored, "
        "warned, rejected and unchanged) is compared with the order relation chosen on the path.",
    "assumptions": ["magnitudes in a dense order; boundary equality is one of the cases",
                    "log calls of level warning and above count as a warning"],
}
LEVELS = ("IGNORE", "WARNING", "FATAL")


def set_level(s, lv):
    W = s.cls("gemd.entity.bounds_validation.WarningLevel")
    s.do("gemd.entity.bounds_validation.set_validation_level", s.get(W, lv))


def outcome(s, r, lv, good, key, msg, rec=None):
    """Compare with the meaning of the level; returns True if it must have been stored."""
    w = s.warnings()
    if good:
        s.ok(r, f"{key}: consistent is accepted", f"{msg} at {lv}")
        s.check(not w, f"{key}: consistent is silent", f"{msg} at {lv}: {w!r}")
        return True
    if lv == "IGNORE":
        s.ok(r, f"{key}: IGNORE accepts", msg)
        s.check(not w, f"{key}: IGNORE is silent", f"{msg}: {w!r}")
        return True
    if lv == "WARNING":
        s.ok(r, f"{key}: WARNING accepts", msg)
        s.check(len(w) >= 1, f"{key}: WARNING warns", f"{msg}: no warning was logged")
        return True
    s.raises(r, ("ValueError",), f"{key}: FATAL rejects", msg)
    if rec is not None:
        d = thawed(s, rec)
        s.check(d is None, f"{key}: FATAL rejection changes nothing", str(d), where=r.exc.origin)
    return False


def scene(s, cls, kind="real"):
    """(template, value, consistent) with symbolic content."""
    if kind == "real":
        lo, hi, x = s.float("lo"), s.float("hi"), s.float("x")
        assume(s, not s.I.lt(hi, lo))
        t = entity(s, cls + "Template", s.str("tname"), bounds=s.new("RealBounds", lo, hi, "m"))
        v = s.new("NominalReal", x, "m")
        return t, v, not s.I.lt(x, lo) and not s.I.lt(hi, x)
    if kind == "units":
        t = entity(s, cls + "Template", s.str("tname"), bounds=s.new("RealBounds", 0, 10, "m"))
        return t, s.new("NominalReal", 5, "kg"), False
    if kind == "category":
        a, b = s.str("a"), s.str("b")
        t = entity(s, cls + "Template", s.str("tname"), bounds=s.new("CategoricalBounds",
                                                                     s.list(a)))
        c = s.choose("category", [a, b])
        return t, s.new("NominalCategorical", c), c is a
    if kind == "kind":
        t = entity(s, cls + "Template", s.str("tname"), bounds=s.new("RealBounds", 0, 10, "m"))
        return t, s.new("NominalInteger", 5), False
    lo, hi = s.int("lo"), s.int("hi")
    a, b = s.int("a"), s.int("b")
    assume(s, not s.I.lt(hi, lo))
    assume(s, not s.I.lt(b, a))
    t = entity(s, cls + "Template", s.str("tname"), bounds=s.new("IntegerBounds", lo, hi))
    return t, s.new("UniformInteger", a, b), not s.I.lt(a, lo) and not s.I.lt(hi, b)


def attr(s, cls, kind):
    lv = s.choose("level", LEVELS)
    t, v, good = scene(s, cls, kind)
    how = s.choose("how", ["constructor", "value after template", "template after value",
                           "value again", "template again", "same value", "same template",
                           "same value, changed bounds", "same template, changed bounds"])
    set_level(s, "FATAL" if how in ("value again", "template again") else lv)
    nm = s.str("n")
    if how == "constructor":
        s.clear_events()
        r = s.try_new(cls, nm, template=t, value=v)
        if outcome(s, r, lv, good, f"{cls}", how):
            s.check(s.get(r.value, "value") is v and s.get(r.value, "template") is t,
                    f"{cls}: accepted value and template are stored", how)
        return
    if how == "value after template":
        o = s.new(cls, nm, template=t)
        f, x = "value", v
    elif how == "template after value":
        o = s.new(cls, nm, value=v)
        f, x = "template", t
    elif how.startswith("same"):
        set_level(s, "IGNORE")
        if "changed" in how:
            real = s.get(t, "bounds")
            s.put(t, "bounds", s.new("MolecularStructureBounds"))
        o = s.new(cls, nm, template=t, value=v)
        if "changed" in how:
            s.put(t, "bounds", real)
        f, x = ("value", v) if "value" in how else ("template", t)
    elif how == "value again":
        set_level(s, "IGNORE")
        o = s.new(cls, nm, template=t, value=s.new("NominalCategorical", s.str("zz")))
        f, x = "value", v
    else:
        set_level(s, "IGNORE")
        t0 = entity(s, cls + "Template", s.str("t0"), bounds=s.new("MolecularStructureBounds"))
        o = s.new(cls, nm, value=v, template=t0)
        f, x = "template", t
    set_level(s, lv)
    rec = freeze(s, [o])
    s.clear_events()
    r = s.try_put(o, f, x)
    if outcome(s, r, lv, good, f"{cls}.{f}", how, rec):
        s.check(s.get(o, f) is x, f"{cls}.{f}: accepted is stored", how)


def attr_unchecked(s, cls):
    """No template, a link as template, no value: nothing to check at any level."""
    lv = s.choose("level", LEVELS)
    set_level(s, lv)
    s.clear_events()
    t = s.choose("template", ["none", "link"])
    tv = None if t == "none" else link(s)
    v = s.new("NominalReal", s.float("x"), "kg")
    how = s.choose("how", ["constructor", "value last", "template last", "clear value",
                           "clear template"])

    def go():
        if how == "constructor":
            return s.new(cls, s.str("n"), template=tv, value=v)
        o = s.new(cls, s.str("n"))
        if how == "value last":
            s.put(o, "template", tv)
            s.put(o, "value", v)
        elif how == "template last":
            s.put(o, "value", v)
            s.put(o, "template", tv)
        else:
            tt = entity(s, cls + "Template", s.str("tt"))
            s.put(o, "template", tt)
            s.put(o, "value", s.new("NominalReal", 5, "m"))
            s.put(o, "value" if how == "clear value" else "template", None)
            s.put(o, "value" if how == "clear value" else "template", None)
        return o
    r = s.attempt(go)
    s.ok(r, f"{cls}: nothing to check is accepted", f"{how} at {lv}")
    s.check(not s.warnings(), f"{cls}: nothing to check is silent", f"{s.warnings()!r}")


HOLDERS = (
    # class, field, attribute class, object template class
    ("ProcessSpec", "conditions", "Condition", "ProcessTemplate"),
    ("ProcessSpec", "parameters", "Parameter", "ProcessTemplate"),
    ("MeasurementSpec", "conditions", "Condition", "MeasurementTemplate"),
    ("MeasurementSpec", "parameters", "Parameter", "MeasurementTemplate"),
    ("MaterialSpec", "properties", "Property", "MaterialTemplate"),
    ("ProcessRun", "conditions", "Condition", "ProcessTemplate"),
    ("ProcessRun", "parameters", "Parameter", "ProcessTemplate"),
    ("MeasurementRun", "properties", "Property", "MeasurementTemplate"),
    ("MeasurementRun", "conditions", "Condition", "MeasurementTemplate"),
    ("MeasurementRun", "parameters", "Parameter", "MeasurementTemplate"),
)


def holder(s, cls, template):
    """kwargs connecting an object of cls with an object template."""
    if cls.endswith("Spec"):
        return {"template": template}
    return {"spec": entity(s, cls.replace("Run", "Spec"), s.str("spec"), template=template)}


def wrap(s, cls, a):
    return s.new("PropertyAndConditions", a) if cls == "MaterialSpec" else a


def in_object(s, cls, f, at, ot):
    """An attribute put in an object whose template restricts the attribute template's range."""
    lv = s.choose("level", LEVELS)
    set_level(s, "FATAL")
    lo, hi, x = s.float("lo"), s.float("hi"), s.float("x")
    assume(s, not s.I.lt(hi, lo))
    s.I.orders  # symbolic order decided below
    t = entity(s, at + "Template", s.str("tname"), bounds=s.new("RealBounds", -1e9, 1e9, "m"))
    for y in (lo, hi, x):
        assume(s, not s.I.lt(y, -1e9) and not s.I.lt(1e9, y))
    tmpl = s.new(ot, s.str("ot"), **{f: s.list(s.list(t, s.new("RealBounds", lo, hi, "m")))})
    good = not s.I.lt(x, lo) and not s.I.lt(hi, x)
    a = wrap(s, cls, s.new(at, s.str("a"), template=t, value=s.new("NominalReal", x, "m")))
    how = s.choose("how", ["constructor", "setter", "append", "extend", "insert", "setitem",
                           "iadd", "slice", "same again", "same list again"])
    fine = wrap(s, cls, s.new(at, s.str("unrelated")))
    set_level(s, lv)
    if how == "constructor":
        s.clear_events()
        r = s.try_new(cls, s.str("o"), **holder(s, cls, tmpl), **{f: s.list(fine, a)})
        o = r.value
        rec = None
    else:
        if how.startswith("same"):
            set_level(s, "IGNORE")
        late = s.choose("template", ["given", "given later", "given to the spec later"][
            :3 if cls.endswith("Run") else 2]) if how in ("append", "iadd", "setter") else "given"
        h = holder(s, cls, None if late.startswith("given to") else tmpl)
        o = s.new(cls, s.str("o"), **({} if late == "given later" else h),
                  **{f: s.list(a if how.startswith("same") else fine)})
        if late == "given later":
            for q, v in h.items():
                s.put(o, q, v)
        elif late != "given":
            s.put(h["spec"], "template", tmpl)
        set_level(s, lv)
        rec = freeze(s, [o])
        s.clear_events()
        lst = s.get(o, f)
        if how == "setter":
            r = s.try_put(o, f, s.list(fine, a))
        elif how == "append":
            r = s.attempt(s.m, lst, "append", a)
        elif how == "extend":
            r = s.attempt(s.m, lst, "extend", s.list(fine, a))
        elif how == "insert":
            r = s.attempt(s.m, lst, "insert", 0, a)
        elif how == "slice":
            r = s.attempt(s.I.setitem, lst, Slice(0, 1, None), s.list(fine, a))
        elif how == "same again":
            r = s.attempt(s.I.setitem, lst, 0, a)
        elif how == "same list again":
            r = s.try_put(o, f, lst)
        elif how == "setitem":
            r = s.attempt(s.I.setitem, lst, 0, a)
        else:
            import ast
            r = s.attempt(s.I.inplace, ast.Add(), lst, s.list(a))
    if outcome(s, r, lv, good, f"{cls}.{f}", how, rec):
        s.check(any(y is a for y in s.items(s.get(o, f))), f"{cls}.{f}: accepted is stored", how)


def fraction(s, cls, f):
    lv = s.choose("level", LEVELS)
    kind = s.choose("value", ["nominal", "uniform", "normal", "units", "percent"])
    x, y = s.float("x"), s.float("y")
    if kind == "nominal":
        v = s.new("NominalReal", x, "")
        good = not s.I.lt(x, 0.0) and not s.I.lt(1.0, x)
    elif kind == "uniform":
        assume(s, not s.I.lt(y, x))
        v = s.new("UniformReal", x, y, "")
        good = not s.I.lt(x, 0.0) and not s.I.lt(1.0, y)
    elif kind == "normal":
        v = s.new("NormalReal", x, y, "")
        good = not s.I.lt(x, 0.0) and not s.I.lt(1.0, x)
    elif kind == "percent":
        n = s.choose("number", [50, 150, -1, 0, 100, 0.5])
        v = s.new("NominalReal", n, "percent")
        good = 0 <= n <= 100
    else:
        v = s.new("NominalReal", 0.5, "kg")
        good = False
    quantity(s, cls, f, lv, v, good, kind)


def absolute(s, cls):
    lv = s.choose("level", LEVELS)
    x = s.choose("x", [-5.0, -1e-15, -5e-324, 0, 0.0, 1e-15, 3, 0.25, 1e300])
    units = s.choose("units", ["kg", "m", "", "percent"])
    kind = s.choose("value", ["nominal", "uniform", "normal"])
    if kind == "nominal":
        v = s.new("NominalReal", x, units)
    elif kind == "uniform":
        v = s.new("UniformReal", x, 1e300, units)
    else:
        v = s.new("NormalReal", x, 1, units)
    quantity(s, cls, "absolute_quantity", lv, v, x >= 0 and units not in ("", "percent"), f"{kind} {x} {units}")


def quantity(s, cls, f, lv, v, good, msg):
    set_level(s, lv)
    how = s.choose("how", ["constructor", "setter", "same again"])
    kw = {"name": s.str("n")} if cls == "IngredientSpec" else {}
    if how == "constructor":
        s.clear_events()
        r = s.try_new(cls, **kw, **{f: v})
        o, rec = r.value, None
    else:
        old = s.new("NominalReal", 0.5, "kg" if f == "absolute_quantity" else "")
        if how == "same again":
            set_level(s, "IGNORE")
            old = v
        o = s.new(cls, **kw, **{f: old})
        set_level(s, lv)
        rec = freeze(s, [o])
        s.clear_events()
        r = s.try_put(o, f, v)
    if outcome(s, r, lv, good, f"{cls}.{f}", f"{msg} {how}", rec):
        s.check(s.get(o, f) is v, f"{cls}.{f}: accepted is stored", msg)
        s.put(o, f, None)
        s.check(s.get(o, f) is None, f"{cls}.{f}: can be cleared at any level", msg)


def levels_only_checks(s):
    """Wrong types are rejected whatever the level."""
    set_level(s, s.choose("level", LEVELS))
    k = s.choose("what", ["value", "fraction", "template", "list"])
    if k == "value":
        r = s.attempt(lambda: s.new("Property", s.str("n"), value=s.opaque()))
    elif k == "fraction":
        r = s.attempt(lambda: s.new("IngredientRun", mass_fraction=0.5))
    elif k == "template":
        r = s.attempt(lambda: s.new("Property", s.str("n"), template=entity(
            s, "ConditionTemplate")))
    else:
        r = s.attempt(lambda: s.new("ProcessRun", s.str("n"), conditions=s.list(
            s.new("Parameter", s.str("p")))))
    s.raises(r, ("TypeError",), "wrong types are rejected at every level", k)


def run(r):
    for cls in ATTRIBUTES:
        for kind in ("real", "units", "category", "kind", "range"):
            r.scenario(f"{cls} {kind}", attr, cls, kind)
        r.scenario(f"{cls} unchecked", attr_unchecked, cls)
    for cls, f, at, ot in HOLDERS:
        r.scenario(f"{cls}.{f}", in_object, cls, f, at, ot)
    for cls in ("IngredientRun", "IngredientSpec"):
        for f in QUANT[:3]:
            r.scenario(f"{cls}.{f}", fraction, cls, f)
        r.scenario(f"{cls}.absolute_quantity", absolute, cls)
    r.scenario("types", levels_only_checks)
