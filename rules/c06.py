"""C06: typed fields accept what they document, reject the rest, and a rejection changes nothing."""
from gsa.core import Obj
from rules.catalog import (FIELDS, ENTITIES, ATTRIBUTES, QUANT, TEMPLATE_OF, SPEC_OF, VALUES,
                           BOUNDS, argument, build, attribute, required, differs, ordered, assume,
                           value, bounds, file_link, source)
from rules.common import entity, link, LINKS
from rules.graphs import freeze, thawed, reachable

INFO = {
    "explanation":
        "For every class and typed field a table of legal and illegal argument kinds is applied "
        "to a fully populated abstract instance, through the setter and through the constructor; "
        "the analysis shows legal arguments are stored, illegal ones raise TypeError/ValueError "
        "and leave every public field of every involved object as it was.",
    "assumptions": ["argument kinds from a finite table: unrelated object, None, number, text, "
                    "every other kind of library object, lists containing one bad element"],
}
ERR = ("TypeError", "ValueError", "AssertionError")
ATTRF = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}
LISTF = {"tags": "str", "labels": "str", "allowed_names": "str", "allowed_labels": "str",
         "file_links": "FileLink"}


def kinds(s):
    """One value of each kind; keyed by name."""
    return {
        "opaque": lambda: s.opaque(), "number": lambda: 3, "real": lambda: 0.5,
        "text": lambda: s.str("text"), "none": lambda: None,
        "bool": lambda: True,
        **{c: (lambda c=c: entity(s, c, s.str("other"))) for c in ENTITIES},
        **{c: (lambda c=c: s.new(c, s.str("attr"))) for c in ATTRIBUTES},
        "PropertyAndConditions": lambda: s.new("PropertyAndConditions",
                                               s.new("Property", s.str("attr"))),
        "NominalReal": lambda: s.new("NominalReal", 0.5, ""),
        "NormalReal": lambda: s.new("NormalReal", 0.5, 0.1, ""),
        "UniformReal": lambda: s.new("UniformReal", 0.25, 0.5, ""),
        "NominalInteger": lambda: s.new("NominalInteger", 1),
        "NominalCategorical": lambda: s.new("NominalCategorical", s.str("c")),
        "IntegerBounds": lambda: s.new("IntegerBounds", 0, 1),
        "FileLink": lambda: file_link(s), "LinkByUID": lambda: link(s),
        "PerformedSource": lambda: source(s),
        "list": lambda: s.list(), "class": lambda: s.cls("ProcessSpec"),
    }


def legal(cls, f):
    """Kind names a single-valued field accepts."""
    if f == "name":
        return ("text",)
    if f == "template" and cls in ATTRIBUTES:
        return ("none", "LinkByUID", cls + "Template")
    if f == "template":
        return ("none", "LinkByUID", TEMPLATE_OF[cls])
    if f == "spec":
        return ("none", "LinkByUID", SPEC_OF[cls])
    side = "Run" if cls.endswith("Run") else "Spec"
    if f == "process":
        return ("none", "LinkByUID", "Process" + side)
    if f == "material":
        return ("none", "LinkByUID", "Material" + side)
    if f in QUANT:
        return ("none", "NominalReal", "NormalReal", "UniformReal")
    if f == "source":
        return ("none", "PerformedSource")
    if f == "value":
        return ("none", "NominalReal", "NormalReal", "UniformReal", "NominalInteger",
                "NominalCategorical")
    if f == "bounds":
        return ("IntegerBounds",)
    if f == "property":
        return ("Property",)
    raise KeyError(f)


SINGLE = ("name", "template", "spec", "process", "material", "source", "value", "bounds",
          "property") + QUANT


def unchanged(s, rec, key, where=None):
    d = thawed(s, rec)
    s.check(d is None, key, str(d), where=where)


def setter(s, cls, f):
    o, kw = build(s, cls, None if s.flag("populated") else (), False)
    if f == "template" and cls in ATTRIBUTES:
        s.put(o, "value", None)
    if f == "value":
        s.put(o, "template", None)
    ok = legal(cls, f)
    ks = kinds(s)
    k = s.choose(f"{cls}.{f} := ", list(ks))
    v = ks[k]()
    around = [x for x in ([o] + reachable(s, o)) if x.cls.name in FIELDS]
    if isinstance(v, Obj) and v.cls.name in FIELDS:
        around.append(v)
    rec = freeze(s, around)
    r = s.try_put(o, f, v)
    if k in ok:
        s.ok(r, f"{cls}.{f} accepts {k}", "assignment")
        s.check(s.get(o, f) is v or s.same(s.get(o, f), v), f"{cls}.{f} stores what is assigned",
                f"{s.get(o, f)!r} after assigning a {k}")
    else:
        s.raises(r, ERR, f"{cls}.{f} rejects a {k}", "assignment")
        far = next((b for a, x, _, b, _ in LINKS if (a, x) == (cls, f)), None)
        d = thawed(s, rec, but=(far,))
        s.check(d is None, f"{cls}.{f}: a rejected assignment changes nothing", str(d),
                where=r.exc.origin)
        unchanged(s, rec, f"{cls}.{f}: a rejected assignment leaves the other end's {far} alone",
                  r.exc.origin)


def constructor(s, cls, f):
    """An illegal argument of the constructor leaves the other arguments untouched."""
    ks = kinds(s)
    bad = [k for k in ks if k not in legal(cls, f)]
    if cls in ("MaterialTemplate", "ProcessTemplate", "MeasurementTemplate") and f == "name":
        s.done()
    k = s.choose(f"{cls}({f}=", bad)
    kw = {x: argument(s, cls, x, False) for x in FIELDS[cls] if x != f}
    if f == "value":
        kw.pop("template")
    if f == "template":
        kw.pop("value", None)
    kw[f] = ks[k]()
    around = [x for v in kw.values() if isinstance(v, Obj) for x in [v] + reachable(s, v)
              if x.cls.name in FIELDS]
    rec = freeze(s, around)
    r = s.try_new(cls, **kw)
    s.raises(r, ERR, f"{cls}({f}=) rejects a {k}", "construction")
    unchanged(s, rec, f"{cls}({f}=): a rejected construction changes nothing", r.exc.origin)


def list_field(s, cls, f, via):
    o, kw = build(s, cls, None, False)
    spec = LISTF.get(f) or ("PropertyAndConditions" if cls == "MaterialSpec" else ATTRF[f])
    ks = kinds(s)
    okk = ("text",) if spec == "str" else (spec,)
    k = s.choose(f"{cls}.{f}[] ", [x for x in ks if x not in ("none", "list")])
    # elements of a mapping/str container are other cases: only element kinds here
    good = argument(s, cls, f, False)
    g0 = s.items(good)[0]
    v = ks[k]()
    rec = freeze(s, [o])
    where = s.choose("position", ["alone", "single", "last", "append", "insert", "extend",
                                  "setitem", "slice", "iadd"]) if via == "setter" else "ctor"
    lst = s.get(o, f)
    if where == "ctor":
        kw2 = {x: argument(s, cls, x, False) for x in required(cls)}
        kw2[f] = s.list(g0, v)
        r = s.try_new(cls, **kw2)
        if r.ok:
            o = r.value
    elif where == "alone":
        r = s.try_put(o, f, s.list(v))
    elif where == "single":
        r = s.try_put(o, f, v)
    elif where == "last":
        r = s.try_put(o, f, s.list(g0, v))
    elif where == "append":
        r = s.attempt(s.m, lst, "append", v)
    elif where == "insert":
        r = s.attempt(s.m, lst, "insert", 0, v)
    elif where == "extend":
        r = s.attempt(s.m, lst, "extend", s.list(g0, v))
    elif where == "setitem":
        r = s.attempt(s.m, lst, "__setitem__", 0, v)
    elif where == "slice":
        from gsa.core import Slice
        r = s.attempt(s.I.setitem, lst, Slice(0, 1, None), s.list(g0, v))
    else:
        r = s.attempt(s.I.inplace, __import__("ast").Add(), lst, s.list(g0, v))
    if k in okk:
        s.ok(r, f"{cls}.{f} accepts a {k}", where)
        now = s.items(s.get(o, f))
        s.check(any(x is v or s.same(x, v) for x in now), f"{cls}.{f} holds what was given",
                f"{where}: {now!r}")
        want = {"alone": 1, "single": 1, "last": 2, "ctor": 2}.get(where)
        s.check(want is None or len(now) == want, f"{cls}.{f} holds exactly what was given",
                f"{where}: {now!r}")
    else:
        s.raises(r, ERR, f"{cls}.{f} rejects a {k}", where)
        if where != "ctor":
            unchanged(s, rec, f"{cls}.{f}: a rejected change leaves the list alone", r.exc.origin)


def none_list(s, cls, f):
    o, kw = build(s, cls, None, False)
    r = s.try_put(o, f, None)
    s.ok(r, f"{cls}.{f} accepts None", "assignment")
    s.check(s.items(s.get(o, f)) == [], f"{cls}.{f} = None means empty", f"{s.get(o, f)!r}")


def template_list(s, cls, f):
    """(template, bounds) lists of object templates."""
    tk = ATTRF[f] + "Template"
    o, kw = build(s, cls, None, False)
    rec = freeze(s, [o])
    good = entity(s, tk, bounds=s.new("IntegerBounds", 0, 10))
    ib = s.new("IntegerBounds", 2, 3)
    other = entity(s, "ConditionTemplate" if tk != "ConditionTemplate" else "PropertyTemplate")
    lk = link(s)
    cases = {
        "template": (good, True), "link": (lk, True), "pair": (s.list(good, ib), True),
        "tuple": (s.tuple(good, ib), True), "pair none": (s.list(good, None), True),
        "link pair": (s.list(lk, ib), True), "link none": (s.tuple(lk, None), True),
        "other template": (other, False), "opaque": (s.opaque(), False), "number": (3, False),
        "text": (s.str("x"), False), "bounds": (ib, False), "triple": (s.list(good, ib, ib), False),
        "empty pair": (s.list(), False), "single": (s.tuple(good), False),
        "reversed": (s.list(ib, good), False), "pair value": (s.list(good, 3), False),
        "pair text": (s.tuple(good, s.str("x")), False),
        "pair opaque": (s.list(s.opaque(), ib), False),
        "material": (entity(s, "MaterialRun", s.str("m")), False),
    }
    k = s.choose("element", list(cases))
    v, okay = cases[k]
    where = s.choose("position", ["alone", "last", "append", "insert", "extend", "setitem"])
    if k == "bounds" and where == "last":
        s.done()     # [template, bounds] is the documented single-pair form
    lst = s.get(o, f)
    g2 = entity(s, tk, bounds=s.new("IntegerBounds", 0, 10))
    if where == "alone":
        r = s.try_put(o, f, s.list(v))
    elif where == "last":
        r = s.try_put(o, f, s.list(g2, v))
    elif where == "extend":
        r = s.attempt(s.m, lst, "extend", s.list(g2, v))
    elif where == "append":
        r = s.attempt(s.m, lst, "append", v)
    else:
        r = s.attempt(s.m, lst, "insert" if where == "insert" else "__setitem__", 0, v)
    if okay:
        s.ok(r, f"{cls}.{f} accepts a {k}", where)
        now = s.items(s.get(o, f))
        t = v if k in ("template", "link") else s.items(v)[0]
        b = None if k in ("template", "link") else s.items(v)[1]
        hit = [x for x in now if len(s.items(x)) == 2 and s.items(x)[0] is t]
        s.check(len(hit) == 1 and s.items(hit[0])[1] is b,
                f"{cls}.{f} stores (template, bounds) pairs", f"{where} {k}: {now!r}")
    else:
        s.raises(r, ERR, f"{cls}.{f} rejects a {k}", where)
        unchanged(s, rec, f"{cls}.{f}: a rejected change leaves the list alone", r.exc.origin)


def numbers(s, cls, f, via):
    """Numeric and textual fields of bounds and values."""
    nan, inf, ninf = s.float("nan", nan=True), s.float("inf", inf=1), s.float("-inf", inf=-1)
    half = s.float("half", integral=False)
    T = {
        ("RealBounds", "lower_bound"): ([None, nan, inf, ninf, s.opaque(), s.str("t")],
                                        [2, 2.5, 0, 5, -3]),
        ("RealBounds", "upper_bound"): ([None, nan, inf, ninf, s.opaque(), s.str("t")],
                                        [7, 7.5, 5, 20]),
        ("RealBounds", "default_units"): ([None, "not_a_unit", 5, s.opaque()], ["m", "cm", ""]),
        ("IntegerBounds", "lower_bound"): ([None, nan, inf, ninf, half, s.opaque(), s.str("t")],
                                           [2, 0, 5, -3, 2.0]),
        ("IntegerBounds", "upper_bound"): ([None, nan, inf, ninf, half, s.opaque(), s.str("t")],
                                           [7, 5, 20, 9007199254740993]),
        ("CategoricalBounds", "categories"): (
            [3, s.str("t"), s.opaque(), s.list("a", 3), s.list(None), s.set("a", 3),
             s.tuple("a", s.opaque())],
            [None, s.list(), s.list("a", "b"), s.set("c"), s.tuple("a")]),
        ("CompositionBounds", "components"): (
            [3, s.str("t"), s.opaque(), s.list("a", 3), s.list(None), s.set("a", 3),
             s.tuple("a", s.opaque())],
            [None, s.list(), s.list("a", "b"), s.set("c"), s.tuple("a")]),
        ("NominalReal", "units"): ([None, "not_a_unit", 5], ["m", ""]),
        ("NormalReal", "units"): ([None, "not_a_unit", 5], ["m", ""]),
        ("UniformReal", "units"): ([None, "not_a_unit", 5], ["m", ""]),
        ("NominalInteger", "nominal"): ([None, half, s.str("t"), s.opaque(), nan],
                                        [3, 0, -5, 4.0]),
        ("UniformInteger", "lower_bound"): ([None, half, s.str("t"), s.opaque(), nan],
                                            [2, 5, -3, 2.0]),
        ("UniformInteger", "upper_bound"): ([None, half, s.str("t"), s.opaque(), nan],
                                            [7, 5, 20]),
        ("NominalCategorical", "category"): ([3, s.opaque(), s.list("a")], [None, "x", ""]),
        ("DiscreteCategorical", "probabilities"): (
            [3, s.opaque(), s.list("a"), s.dict(("a", 0.5)), s.dict((3, 1.0)),
             s.dict(("a", 0.75), ("b", 0.75)), s.dict(), s.dict(("a", 0.5), ("b", 0.25)),
             s.dict(("a", 1.0), ("b", 0.001)), s.dict(("a", 1.0), (None, 0.0))],
            [None, "x", s.dict(("a", 0.5), ("b", 0.5)), s.dict(("a", 1)),
             s.dict(("a", 1.0), ("b", 0.0)), s.dict(("", 0.25), ("b", 0.75))]),
        ("NominalComposition", "quantities"): (
            [3, s.opaque(), s.str("t")],
            [None, s.dict(("a", 1.0)), s.list(s.list("a", 2), s.list("b", 1)), s.dict(),
             s.dict(("a", 0), ("b", 2.5), ("", 0.0))]),
        ("EmpiricalFormula", "formula"): ([3, s.opaque(), "Xx2O3", s.list(), "Alx2O3", "Foo",
                                           "Naa", "H2Oo", "Q", "SiO2J", "(NaCl)2Aq"],
                                          [None, "SiO2", "C6H12O6", "(NaCl)2", "D2O", "Og", ""]),
        ("InChI", "inchi"): ([3, s.opaque(), s.list()], [None, "InChI=1S/H2O/h1H2"]),
        ("Smiles", "smiles"): ([3, s.opaque(), s.list()], [None, "CCO", ""]),
        ("PerformedSource", "performed_by"): ([3, s.opaque(), s.list()], [None, "x", ""]),
        ("PerformedSource", "performed_date"): ([3, s.opaque(), s.list()], [None, "x", ""]),
    }
    bad, good = T[(cls, f)]
    base = {"RealBounds": {"lower_bound": 1, "upper_bound": 5, "default_units": "kg"},
            "IntegerBounds": {"lower_bound": 1, "upper_bound": 5},
            "CategoricalBounds": {"categories": s.list("p", "q")},
            "CompositionBounds": {"components": s.list("p", "q")},
            "NominalReal": {"nominal": 1, "units": "kg"},
            "NormalReal": {"mean": 1, "std": 1, "units": "kg"},
            "UniformReal": {"lower_bound": 1, "upper_bound": 5, "units": "kg"},
            "NominalInteger": {"nominal": 1},
            "UniformInteger": {"lower_bound": 1, "upper_bound": 5},
            "NominalCategorical": {"category": "p"},
            "DiscreteCategorical": {"probabilities": s.dict(("p", 1.0))},
            "NominalComposition": {"quantities": s.dict(("p", 1.0))},
            "EmpiricalFormula": {"formula": "Al2O3"},
            "InChI": {"inchi": "InChI=1S/CH4/h1H4"}, "Smiles": {"smiles": "C"},
            "PerformedSource": {"performed_by": "p", "performed_date": "q"}}[cls]
    if f == "lower_bound":
        good = [x for x in good if x <= 5]
    isbad = s.flag("illegal")
    v = s.choose(f"{cls}.{f} = ", bad if isbad else good)
    any_err = ERR + ("OverflowError", "Exception")
    if via == "setter":
        o = s.new(cls, **base)
        rec = freeze(s, [o])
        r = s.try_put(o, f, v)
    else:
        r = s.try_new(cls, **{**base, f: v})
        o = r.value
    if isbad:
        s.raises(r, any_err, f"{cls}.{f} rejects", f"{v!r}")
        if via == "setter":
            unchanged(s, rec, f"{cls}.{f}: a rejected assignment changes nothing", r.exc.origin)
        s.done()
    s.ok(r, f"{cls}.{f} accepts", f"{v!r}")
    now = s.get(o, f)
    if v is None and f in ("categories", "components", "quantities"):
        s.check(len(s.items(now)) == 0, f"{cls}.{f}: None means empty", f"{now!r}")
    elif f in ("categories", "components"):
        a, b = s.items(v), s.items(now)
        s.check(len(a) == len(b) and all(any(s.same(x, y) for y in b) for x in a),
                f"{cls}.{f} holds what was given", f"{v!r} -> {now!r}")
    elif f in ("probabilities", "quantities") and v is not None:
        want = [(v, 1.0)] if isinstance(v, str) else \
            s.I.mapping_items(v) if s.I.is_mapping(v) else [tuple(s.items(x)) for x in s.items(v)]
        got = s.I.mapping_items(now)
        s.check(len(got) == len(want) and all(any(s.same(a, c) and s.I.prim_eq(b, d)
                                                  for c, d in got) for a, b in want),
                f"{cls}.{f} holds what was given", f"{want!r} -> {got!r}")
    elif f in ("lower_bound", "upper_bound", "nominal"):
        s.check(s.I.prim_eq(now, v), f"{cls}.{f} holds what was given", f"{v!r} -> {now!r}")
        tn = "float" if cls == "RealBounds" else "int"
        s.check(s.tname(now) == tn, f"{cls}.{f} is a {tn}", f"{now!r}")
    elif f not in ("units", "default_units"):
        s.check(s.same(now, v), f"{cls}.{f} holds what was given", f"{v!r} -> {now!r}")


def ordering(s, cls):
    """lower <= upper is kept through any constructor and any setter."""
    f = s.float if cls in ("RealBounds", "UniformReal") else s.int
    lo, hi, x = f("lo"), f("hi"), f("x")
    kw = {"RealBounds": {"default_units": "m"}, "UniformReal": {"units": "m"}}.get(cls, {})
    r = s.try_new(cls, lower_bound=lo, upper_bound=hi, **kw)
    if s.I.lt(hi, lo):
        s.raises(r, ERR, f"{cls} rejects lower > upper", "construction")
        s.done()
    o = s.ok(r, f"{cls} accepts lower <= upper", "construction")
    if cls == "UniformReal":
        s.done()
    end = s.choose("end", ["lower_bound", "upper_bound"])
    rec = freeze(s, [o])
    r = s.try_put(o, end, x)
    crossing = s.I.lt(hi, x) if end == "lower_bound" else s.I.lt(x, lo)
    if crossing:
        s.raises(r, ERR, f"{cls} keeps lower <= upper", f"{end} := {x!r}")
        unchanged(s, rec, f"{cls}: a rejected {end} changes nothing", r.exc.origin)
    else:
        s.ok(r, f"{cls}.{end} accepts", f"{x!r}")
        s.check(s.I.prim_eq(s.get(o, end), x), f"{cls}.{end} stored", f"{s.get(o, end)!r}")
        oth, val = ("upper_bound", hi) if end == "lower_bound" else ("lower_bound", lo)
        s.check(s.I.prim_eq(s.get(o, oth), val), f"{cls}.{oth} untouched by {end}",
                f"{s.get(o, oth)!r}")


def enum_field(s, cls, f):
    from rules.catalog import ORIGINS, SAMPLE_TYPES
    o, kw = build(s, cls, None, True)
    names = ORIGINS if f == "origin" else SAMPLE_TYPES
    rec = freeze(s, [o])
    k = s.choose(f, ["bad text", "opaque"] + (["none"] if f == "origin" else []) + list(names))
    v = {"bad text": "no_such_choice", "opaque": s.opaque(), "none": None}.get(k, k)
    via = s.choose("via", ["setter", "constructor"])
    if via == "setter":
        r = s.try_put(o, f, v)
    else:
        r = s.try_new(cls, "n", **{f: v})
    if k in names:
        s.ok(r, f"{cls}.{f} accepts {k}", via)
        got = s.get(o if via == "setter" else r.value, f)
        s.check(s.I.strval(got) == k, f"{cls}.{f} stores {k}", f"{got!r}")
    else:
        s.raises(r, ERR, f"{cls}.{f} rejects", k)
        unchanged(s, rec, f"{cls}.{f}: a rejected assignment changes nothing", r.exc.origin)


def read_only(s):
    """Derived views cannot be assigned."""
    from rules.catalog import DERIVED
    pairs = [(c, f) for c, fs in DERIVED.items() for f in fs] + [("IngredientSpec", "template")]
    cls, f = s.choose("view", pairs)
    o, kw = build(s, cls, None, False)
    rec = freeze(s, [o] + reachable(s, o))
    r = s.try_put(o, f, s.choose("to", [None, s.str("x"), s.list()]))
    s.raises(r, ("AttributeError", "TypeError", "ValueError"), f"{cls}.{f} cannot be assigned", f)
    unchanged(s, rec, f"{cls}.{f}: a rejected assignment changes nothing", r.exc.origin)


def late_failure(s, kind):
    """A constructor that fails for any argument leaves the link target alone."""
    src, field, tgt, attr, many = kind
    t = entity(s, tgt, s.str("t"))
    old = entity(s, src, s.str("old"), **{field: t})
    others = [f for f in FIELDS[src] if f not in (field, "notes")]
    f = s.choose("bad argument", others)
    bad = {"uids": s.opaque(), "sample_type": "no_such_choice"}.get(f, s.opaque())
    kw = {"name": s.str("n")} if src != "IngredientRun" else {}
    kw.update({field: t, f: bad})
    rec = freeze(s, [t, old])
    r = s.try_new(src, **kw)
    s.raises(r, ERR, f"{src}({f}=unrelated) rejected", "construction")
    unchanged(s, rec, f"{src}: a failed construction does not touch the {tgt}", r.exc.origin)


def attr_template_name(s, cls):
    v = s.choose("name", [s.opaque(), 3, None])
    r = s.try_new(cls, v, bounds=s.new("IntegerBounds", 0, 1))
    s.raises(r, ERR, f"{cls} needs a text name", f"{v!r}")


def run(r):
    for cls in FIELDS:
        for f in FIELDS[cls]:
            if f in SINGLE and not (f == "name" and (cls in ATTRIBUTES or
                                                     cls.endswith("Template"))):
                r.scenario(f"{cls}.{f} assigned", setter, cls, f)
                r.scenario(f"{cls}({f}=)", constructor, cls, f)
            if f in LISTF or f in ATTRF and not cls.endswith("Template") or \
                    cls == "PropertyAndConditions" and f == "conditions":
                r.scenario(f"{cls}.{f} elements", list_field, cls, f, "setter", max_paths=6000)
                r.scenario(f"{cls}({f}=) elements", list_field, cls, f, "ctor")
                r.scenario(f"{cls}.{f} = None", none_list, cls, f)
            if f in ATTRF and cls in ("MaterialTemplate", "ProcessTemplate",
                                      "MeasurementTemplate"):
                r.scenario(f"{cls}.{f} elements", template_list, cls, f)
                r.scenario(f"{cls}.{f} = None", none_list, cls, f)
            if f in ("origin", "sample_type"):
                r.scenario(f"{cls}.{f}", enum_field, cls, f)
        if cls in VALUES + BOUNDS + ("PerformedSource",):
            for f in FIELDS[cls]:
                if (cls, f) in (("NominalReal", "nominal"), ("NormalReal", "mean"),
                                ("NormalReal", "std"), ("UniformReal", "lower_bound"),
                                ("UniformReal", "upper_bound")):
                    continue
                for via in ("setter", "constructor"):
                    r.scenario(f"{cls}.{f} {via}", numbers, cls, f, via)
    for cls in ("RealBounds", "IntegerBounds", "UniformInteger", "UniformReal"):
        r.scenario(f"{cls} ordering", ordering, cls)
    for cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate"):
        r.scenario(f"{cls} name", attr_template_name, cls)
    for kind in LINKS:
        r.scenario(f"failed construction {kind[0]}.{kind[1]}", late_failure, kind)
    r.scenario("derived views", read_only)
