"""C22: the builders connect exactly what they were given."""
from rules.catalog import ATTRIBUTES, QUANT, assume, ordered
from rules.common import entity, link
from rules.c09 import set_level
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Each builder is interpreted over every combination of given and omitted arguments (names, "
        "templates as objects or links, each quantity as absent, number, zero or Value, absolute "
        "units present or not, linked or missing specs and processes, existing neighbours, every "
        "attribute kind on every target, plain values against every kind of bounds); the objects "
        "made are compared field by field with the arguments.",
    "assumptions": ["the objects that already exist have at most one earlier neighbour each"],
    "min_scenarios": 20,
}
B = "gemd.builders."


def text(s, label):
    return s.choose(label, [s.str(label), ""])


def number(s, v, x):
    """v is the number x (read as a float)."""
    return s.same(v, s.I.call(s.I.builtins["float"], [x], {})) or v is x


def fields(s, o, key, **want):
    for f, w in want.items():
        v = s.get(o, f)
        s.check(v is w or s.same(v, w), key, f"{s.tname(o)}.{f} is {v!r}, not {w!r}", o=o, field=f)


def node(s):
    name = text(s, "name")
    kw, pt, mt = {}, None, None
    t = s.choose("process template", ["omitted", "none", "object", "link"])
    if t != "omitted":
        pt = None if t == "none" else entity(s, "ProcessTemplate", text(s, "ptname")) \
            if t == "object" else link(s)
        kw["process_template"] = pt
    pn = s.choose("process name", ["omitted", "none", "given"] if t != "link" else ["given"])
    if pn != "omitted":
        kw["process_name"] = text(s, "pname") if pn == "given" else None
    mtk = s.choose("material template", ["omitted", "none", "object", "link"])
    if mtk != "omitted":
        mt = None if mtk == "none" else entity(s, "MaterialTemplate", s.str("mtname")) \
            if mtk == "object" else link(s)
        kw["material_template"] = mt
    given = [x for x in (pt, mt) if x is not None and s.tname(x) != "LinkByUID"]
    rec = freeze(s, given)
    m = s.ok(s.attempt(s.do, B + "make_node", name, **kw), "make_node accepts its arguments", repr(kw))
    pname = kw["process_name"] if pn == "given" else s.get(pt, "name") if t == "object" else name
    k = "make_node connects a material and a process, spec and run"
    s.check(s.tname(m) == "MaterialRun", k, f"returns {m!r}")
    p, ms = s.get(m, "process"), s.get(m, "spec")
    for o, cls in ((p, "ProcessRun"), (ms, "MaterialSpec")):
        s.check(o is not None and s.tname(o) == cls, k, f"the {cls} is {o!r}")
    ps = s.get(p, "spec")
    s.check(ps is not None and s.tname(ps) == "ProcessSpec" and s.get(ms, "process") is ps, k,
            f"the material spec's process is {s.get(ms, 'process')!r}, the run's spec {ps!r}")
    k = "make_node gives the names and templates asked for"
    fields(s, m, k, name=name)
    fields(s, ms, k, name=name, template=mt)
    fields(s, p, k, name=pname, output_material=m)
    fields(s, ps, k, name=pname, template=pt, output_material=ms)
    for o, fs in ((m, ("measurements",)), (p, ("ingredients",)), (ps, ("ingredients",))):
        for f in fs:
            s.check(not s.items(s.get(o, f)), "make_node adds nothing else",
                    f"{f} holds {s.items(s.get(o, f))!r}")
    again = s.do(B + "make_node", name, **kw)
    s.check(again is not m and s.get(again, "process") is not p and s.get(again, "spec") is not ms
            and s.get(again, "spec", "process") is not ps,
            "make_node makes new objects at each call", "an earlier object came back")
    d = thawed(s, rec)
    s.check(d is None, "make_node leaves the templates alone", str(d))


def quantity(s, q, how):
    """(argument, check of the stored value)."""
    if how == "value":
        lo, hi = ordered(s, q)
        v = s.new("UniformReal", lo, hi, "kg" if q == "absolute_quantity" else "")
        return v, lambda x: x is v
    x = {"number": s.float(q), "zero": 0, "float zero": 0.0, "one": 1, "int": s.int(q)}[how]
    u = s.get(s.new("NominalReal", 1, "kg" if q == "absolute_quantity" else ""), "units")
    return x, lambda v: v is not None and s.tname(v) == "NominalReal" \
        and number(s, s.get(v, "nominal"), x) and s.same(s.get(v, "units"), u)


def materials(s, spec_process="object", process="object", out_spec="object", in_spec="object"):
    out_ps, out_p = entity(s, "ProcessSpec"), entity(s, "ProcessRun")
    oms = {"object": lambda: entity(s, "MaterialSpec", s.str("out"), process={
        "object": out_ps, "none": None, "link": link(s)}[spec_process]),
        "none": lambda: None, "link": lambda: link(s)}[out_spec]()
    out = entity(s, "MaterialRun", s.str("out"), spec=oms, process={
        "object": out_p, "none": None, "link": link(s)}[process])
    ims = {"object": lambda: entity(s, "MaterialSpec", s.str("inspec")), "none": lambda: None,
           "link": lambda: link(s)}[in_spec]()
    inn = entity(s, "MaterialRun", s.str("in"), spec=ims)
    return inn, out, out_ps, out_p


def joined(s, r, inn, out, name, k="add_edge joins exactly the given material and process"):
    s.check(s.tname(r) == "IngredientRun", k, f"returns {r!r}")
    sp = s.get(r, "spec")
    s.check(sp is not None and s.tname(sp) == "IngredientSpec", k, f"the spec is {sp!r}")
    fields(s, r, k, material=inn, process=s.get(out, "process"))
    fields(s, sp, k, material=s.get(inn, "spec"), process=s.get(out, "spec", "process"))
    fields(s, sp, "add_edge names the ingredient", name=name)
    return sp


def edge(s):
    """Connections and names, with neighbours present."""
    sp = s.choose("spec process", ["object", "link"])
    pr = s.choose("process", ["object", "link"])
    ins = s.choose("input spec", ["object", "link"])
    inn, out, out_ps, out_p = materials(s, sp, pr, "object", ins)
    if s.flag("same material"):
        inn = out
    old = None
    if s.flag("earlier ingredient"):
        old = s.new("IngredientRun", process=out_p, material=inn)
        olds = s.new("IngredientSpec", s.str("olds"), process=out_ps)
    nm = s.choose("name", ["omitted", "none", "given"])
    kw = {} if nm == "omitted" else {"name": text(s, "name") if nm == "given" else None}
    rec = freeze(s, [inn, out] + [x for x in (s.get(inn, "spec"), s.get(out, "spec"))
                                  if s.tname(x) != "LinkByUID"])
    r = s.ok(s.attempt(s.do, B + "add_edge", inn, out, **kw), "add_edge accepts linked materials",
             f"spec process {sp}, process {pr}, input spec {ins}")
    isp = joined(s, r, inn, out, kw["name"] if nm == "given" else s.get(inn, "name"))
    k = "add_edge adds one ingredient to the process and its spec"
    for p, on, new, prev in ((out_p, pr, r, old), (out_ps, sp, isp, old and olds)):
        want = ([prev] if old is not None else []) + ([new] if on == "object" else [])
        got = s.items(s.get(p, "ingredients"))
        s.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), k,
                f"{s.tname(p)} lists {got!r}")
    for q in QUANT:
        fields(s, r, "add_edge sets no quantity that was not given", **{q: None})
        fields(s, isp, "add_edge sets no quantity that was not given", **{q: None})
    d = thawed(s, rec)
    s.check(d is None, "add_edge leaves the materials alone", str(d))


def edge_twice(s):
    """Every call makes an ingredient of its own, also for names and materials seen before."""
    inn, out, out_ps, out_p = materials(s)
    name = {"omitted": {}, "given": {"name": s.str("name")}}[s.choose("name", ["omitted", "given"])]
    r1 = s.do(B + "add_edge", inn, out, **name)
    if s.flag("other input"):
        spec = s.get(inn, "spec") if s.flag("same spec") else entity(s, "MaterialSpec", s.str("in2"))
        inn = entity(s, "MaterialRun", s.get(inn, "name"), spec=spec)
    r2 = s.do(B + "add_edge", inn, out, **name)
    p1, p2 = s.get(r1, "spec"), joined(s, r2, inn, out, s.get(r1, "name"))
    k = "add_edge adds one ingredient to the process and its spec"
    for p, want in ((out_p, (r1, r2)), (out_ps, (p1, p2))):
        got = s.items(s.get(p, "ingredients"))
        s.check(want[0] is not want[1] and len(got) == 2 and all(a is b for a, b in zip(got, want)),
                k, f"after a second edge the {s.tname(p)} lists {got!r}")


def edge_refused(s):
    o, sp, pr = (s.choose("output spec", ["object", "none", "link"]),
                 s.choose("spec process", ["object", "none"]),
                 s.choose("process", ["object", "none"]))
    i = s.choose("input spec", ["object", "none"])
    if (o, sp, pr, i) == ("object",) * 4:
        s.done()
    inn, out, out_ps, out_p = materials(s, sp, pr, o, i)
    r = s.attempt(s.do, B + "add_edge", inn, out)
    s.raises(r, ("ValueError",), "add_edge refuses unconnected materials",
             f"output spec {o}, its process {sp}, process {pr}, input spec {i}")
    s.check(not s.items(s.get(out_ps, "ingredients")) and not s.items(s.get(out_p, "ingredients")),
            "add_edge adds nothing to unconnected materials", f"{o} {sp} {pr} {i}")


HOW = ("omitted", "none", "value", "number", "int", "zero", "float zero", "one")


def edge_quantity(s, q):
    """One quantity in every form, with another one (or none) present."""
    set_level(s, "IGNORE")
    inn, out, _, _ = materials(s)
    how = s.choose(q, HOW)
    kw, expect = {}, {x: (lambda v: v is None) for x in QUANT}
    if how == "none":
        kw[q] = None
    elif how != "omitted":
        kw[q], expect[q] = quantity(s, q, how)
    other = s.choose("other", [None] + [x for x in QUANT if x != q])
    if other:
        kw[other], expect[other] = quantity(s, other, s.choose("other as", ["value", "number"]))
        if other == "absolute_quantity" and not s.isa(kw[other], "gemd.entity.value.base_value.BaseValue"):
            kw["absolute_units"] = "kg"
    good = True
    if q == "absolute_quantity":
        u = s.choose("units", ["omitted", "none", "given", "empty"])
        if u != "omitted":
            kw["absolute_units"] = {"given": "kg", "empty": "", "none": None}[u]
        plain = how not in ("omitted", "none", "value")
        good = plain == (u in ("given", "empty"))
    r = s.attempt(s.do, B + "add_edge", inn, out, **kw)
    if not good:
        s.raises(r, ("ValueError",), "add_edge wants units exactly with a plain quantity",
                 f"{how}, units {kw.get('absolute_units')!r}")
        return
    e = s.ok(r, "add_edge accepts its quantities", repr(kw))
    if kw.get("absolute_units") == "":
        s.check(s.I.prim_eq(s.get(e, "absolute_quantity", "units"), "dimensionless"),
                "add_edge uses the units given", repr(kw))
        return
    for x in QUANT:
        v = s.get(e, x)
        s.check(expect[x](v), f"add_edge stores the {x} given", f"{kw.get(x)!r} as {v!r}", o=e)
        fields(s, s.get(e, "spec"), "add_edge quantities belong to the run", **{x: None})
    joined(s, e, inn, out, s.get(inn, "name"))


def edge_level(s):
    lv = s.choose("level", ["WARNING", "FATAL"])
    set_level(s, lv)
    inn, out, _, _ = materials(s)
    q = s.choose("quantity", QUANT)
    x = s.float("x")
    assume(s, s.I.lt(x, 1000))
    kw = {q: x}
    if q == "absolute_quantity":
        kw["absolute_units"] = "kg"
    good = not s.I.lt(x, 0) and (q == "absolute_quantity" or not s.I.lt(1, x))
    r = s.attempt(s.do, B + "add_edge", inn, out, **kw)
    k = "add_edge obeys the validation level"
    if good or lv == "WARNING":
        s.ok(r, k, f"{q} {lv}")
        s.check(bool(s.warnings()) != good, k, f"{q}: warnings {s.warnings()!r}")
    else:
        s.raises(r, ("ValueError",), k, f"{q} {lv}")


def attribute_of(s, cls):
    return s.new(cls, s.str(cls), value=s.new("NominalReal", s.float(cls + "x"), "m"))


def measure(s):
    m = s.choose("material", [entity(s, "MaterialRun"), link(s), None])
    old = s.new("MeasurementRun", s.str("old"), material=m)
    kw, t = {}, None
    tk = s.choose("template", ["omitted", "none", "object", "link"])
    if tk != "omitted":
        t = None if tk == "none" else entity(s, "MeasurementTemplate", text(s, "tname")) \
            if tk == "object" else link(s)
        kw["template"] = t
    nm = s.choose("name", ["omitted", "none", "given"])
    if nm != "omitted":
        kw["name"] = text(s, "name") if nm == "given" else None
    if nm != "given" and tk == "link":
        s.done()
    ats = s.choose("attributes", [None, "omitted", "empty", "one", "two", "generator", "bad"])
    cls = s.choose("kind", ATTRIBUTES[:3]) if ats in ("one", "two") else ATTRIBUTES[0]
    xs = []
    if ats not in (None, "omitted", "empty"):
        xs = [attribute_of(s, cls)]
        if ats in ("two", "generator"):
            xs.append(attribute_of(s, s.choose("kind 2", ATTRIBUTES[:3])))
        elif ats == "bad":
            xs.append(s.choose("bad", [s.opaque(), None, s.str("no"), s.new(
                "PropertyAndConditions", property=attribute_of(s, "Property"))]))
    if ats != "omitted":
        kw["attributes"] = None if ats is None else s.generator(*xs) if ats == "generator" \
            else s.list(*xs)
    r = s.attempt(s.do, B + "add_measurement", m, **kw)
    if nm != "given" and tk in ("omitted", "none"):
        s.raises(r, ("ValueError",), "add_measurement needs a name or a template", repr(kw))
        return
    if ats == "bad":
        s.raises(r, ("ValueError",), "add_measurement refuses what is no attribute", repr(xs))
        return
    e = s.ok(r, "add_measurement accepts its arguments", repr(kw))
    name = kw["name"] if nm == "given" else s.get(t, "name")
    k = "add_measurement measures the given material"
    s.check(s.tname(e) == "MeasurementRun", k, f"returns {e!r}")
    fields(s, e, k, material=m, name=name)
    sp = s.get(e, "spec")
    s.check(sp is not None and s.tname(sp) == "MeasurementSpec", k, f"spec {sp!r}")
    fields(s, sp, "add_measurement gives the spec the name and template", name=name, template=t)
    if m is not None and s.tname(m) == "MaterialRun":
        got = s.items(s.get(m, "measurements"))
        s.check(len(got) == 2 and got[0] is old and got[1] is e, k, f"lists {got!r}")
    holds(s, e, xs, "add_measurement stores the given attributes by kind, in order")
    for c, f in HOLD[1:]:
        s.check(not s.items(s.get(sp, f)), "add_measurement leaves the spec without attributes",
                f"{f}: {s.items(s.get(sp, f))!r}")


HOLD = (("Property", "properties"), ("Condition", "conditions"), ("Parameter", "parameters"))


def measure_heir(s):
    """Attributes of a class derived from the library's own are attributes too."""
    kind = s.choose("kind", ["Property", "Condition", "Parameter"])
    Heir = s.client(f"class Heir({kind}):\n    pass\n", **{kind: s.cls(kind)})["Heir"]
    x = s.I.call(Heir, [s.str("x")], {})
    m = entity(s, "MaterialRun")
    r = s.ok(s.attempt(s.do, B + "add_measurement", m, name=s.str("n"), attributes=s.list(x)),
             "add_measurement accepts attributes", f"of a class derived from {kind}")
    f = {"Property": "properties", "Condition": "conditions", "Parameter": "parameters"}[kind]
    got = s.items(s.get(r, f))
    s.check(len(got) == 1 and got[0] is x, "attributes end up in the measurement",
            f"{kind}: {got!r}")


def holds(s, o, xs, k):
    for c, f in HOLD:
        want = [x for x in xs if s.tname(x) == c]
        got = s.items(s.get(o, f))
        s.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), k,
                f"{f}: {got!r}, not {want!r}")


TARGETS = {"ProcessSpec": "cp", "ProcessRun": "cp", "MaterialRun": "", "IngredientRun": "",
           "IngredientSpec": "", "MeasurementSpec": "cp", "MeasurementRun": "pcr",
           "MaterialSpec": "!"}
CAN = {"ProcessSpec": ("conditions", "parameters"), "ProcessRun": ("conditions", "parameters"),
       "MeasurementSpec": ("conditions", "parameters"),
       "MeasurementRun": ("conditions", "parameters", "properties")}


def attach(s, target):
    a = s.choose("kind", ATTRIBUTES[:3])
    t = s.new(a + "Template", text(s, "tname"), bounds=s.new("RealBounds", 0, 10, "kg"))
    o = entity(s, target)
    n = s.choose("there", [0, 1, 2])
    f = dict(HOLD)[a]
    prev = []
    pacs, had = [], []
    if target == "MaterialSpec":
        held = s.choose("conditions there", [0, 2]) if n else 0
        for i in range(n):
            pacs.append(s.new("PropertyAndConditions", property=attribute_of(s, "Property"),
                              conditions=s.list(*[attribute_of(s, "Condition")
                                                  for _ in range(held)])))
        had = [s.items(s.get(p, "conditions")) for p in pacs]
        s.put(o, "properties", s.list(*pacs))
    elif f in CAN.get(target, ()):
        prev = [attribute_of(s, a) for _ in range(n)]
        s.put(o, f, s.list(*prev))
    v = s.choose("value", [s.new("NominalReal", 5, "kg"), 5, 5.0, 0])
    rec = freeze(s, [o, t])
    r = s.attempt(s.do, B + "add_attribute", o, t, v)
    if not (f in CAN.get(target, ()) or target == "MaterialSpec" and (
            a == "Property" or a == "Condition" and n)):
        s.raises(r, ("ValueError",), "add_attribute refuses what the target cannot hold",
                 f"{a} on {target} with {n} present")
        d = thawed(s, rec)
        s.check(d is None, "a refused attribute leaves the target alone", str(d))
        for p, h in zip(pacs, had):
            s.check(unchanged(s.items(s.get(p, "conditions")), h), "a refused attribute leaves "
                    "the target alone", f"{a} on {target}")
        return
    x = s.ok(r, "add_attribute accepts what the target holds", f"{a} on {target}")
    made(s, x, a, t, v)
    k = "add_attribute adds the attribute to the given object, after what was there"
    if target != "MaterialSpec":
        got = s.items(s.get(o, f))
        s.check(len(got) == n + 1 and all(p is q for p, q in zip(got, prev + [x])), k,
                f"{f}: {got!r}", o=o)
    else:
        got = s.items(s.get(o, "properties"))
        if a == "Property":
            s.check(len(got) == n + 1 and all(p is q for p, q in zip(got, pacs)) and s.get(
                got[-1], "property") is x and not s.items(s.get(got[-1], "conditions")), k,
                f"properties: {got!r}", o=o)
            for p, h in zip(pacs, had):
                s.check(unchanged(s.items(s.get(p, "conditions")), h), k, "earlier conditions")
        else:
            s.check(len(got) == n and all(p is q for p, q in zip(got, pacs)), k,
                    f"properties: {got!r}")
            for i, p in enumerate(pacs):
                c = s.items(s.get(p, "conditions"))
                s.check(unchanged(c, had[i] + ([x] if i == n - 1 else [])),
                        "a condition for a material spec goes with its latest property",
                        f"entry {i} of {n} has {c!r}")
    d = thawed(s, rec, but=("properties",) if target == "MaterialSpec" else (f,))
    s.check(d is None, "add_attribute changes nothing else", str(d))


def unchanged(xs, ys):
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def made(s, x, a, t, v, k="make_attribute takes kind and name from the template"):
    s.check(s.tname(x) == a, k, f"a {a}Template gave a {s.tname(x)}")
    fields(s, x, k, name=s.get(t, "name"), template=t)
    w = s.get(x, "value")
    if s.isa(v, "gemd.entity.value.base_value.BaseValue"):
        s.check(w is v, "make_attribute keeps the Value it is given", f"{w!r} for {v!r}")
    else:
        s.check(w is not None and s.tname(w) == "NominalReal" and number(s, s.get(w, "nominal"), v)
                and s.same(s.get(w, "units"), s.get(t, "bounds", "default_units")),
                "a plain value is read in the template's terms", f"{w!r} for {v!r}")
    s.check(not s.items(s.get(x, "file_links")) and s.get(x, "notes") is None
            and s.same(s.get(x, "origin"), "unknown"), k, "other fields are not at their defaults")


def maker(s):
    a = s.choose("kind", ATTRIBUTES[:3])
    t = s.new(a + "Template", text(s, "tname"), bounds=s.new("RealBounds", 0, 10, "m"))
    v = s.choose("value", [5, 5.0, 0, s.new("NominalReal", 5, "m"), s.new("NominalReal", 5, "cm")])
    made(s, s.do(B + "make_attribute", t, v), a, t, v)


def maker_bad(s):
    t = s.choose("template", [lambda: None, lambda: s.opaque(), lambda: link(s),
                              lambda: entity(s, "ProcessTemplate"), lambda: s.str("t"),
                              lambda: entity(s, "MaterialTemplate")])()
    fn = s.choose("builder", ["make", "add"])
    o = entity(s, "MeasurementRun")
    rec = freeze(s, [o])
    r = s.attempt(s.do, B + "make_attribute", t, 5) if fn == "make" \
        else s.attempt(s.do, B + "add_attribute", o, t, 5)
    s.raises(r, ("ValueError",), "builders refuse what is no attribute template", repr(t))
    d = thawed(s, rec)
    s.check(d is None, "a refused attribute leaves the target alone", str(d))


def plain(s, kind):
    """make_value against every kind of bounds."""
    k = "a plain value becomes the kind of value its bounds describe"
    if kind == "RealBounds":
        u = s.choose("units", ["", "m", "kg"])
        x = s.choose("x", [s.float("x"), s.int("n"), 0])
        b, want, f = s.new(kind, 0, 1, u), "NominalReal", "nominal"
    elif kind == "IntegerBounds":
        x = s.choose("x", [s.int("n"), 0])
        b, want, f = s.new(kind, 0, 1), "NominalInteger", "nominal"
    elif kind == "CategoricalBounds":
        x = s.choose("x", [s.str("c"), s.str("other")])
        b, want, f = s.new(kind, s.list(s.str("c"))), "NominalCategorical", "category"
    elif kind == "CompositionBounds":
        x = s.choose("x", ["Al2O3", "H2O"])
        b, want, f = s.new(kind, s.set("Al", "O")), "EmpiricalFormula", "formula"
    else:
        x = s.choose("x", ["InChI=1S/CH4/h1H4", "C", "CInChI=", "InChI", "inchi=1S/CH4", "N#N"])
        b = s.new(kind)
        want = "InChI" if x.startswith("InChI=") else "Smiles"
        f = want.lower()
    via = s.choose("via", ["make_value", "make_attribute", "add_attribute"])
    set_level(s, "IGNORE")
    if via == "make_value":
        v = s.do(B + "make_value", x, b)
    else:
        t = s.new("ParameterTemplate", s.str("t"), bounds=b)
        v = s.get(s.do(B + "make_attribute", t, x) if via == "make_attribute" else
                  s.do(B + "add_attribute", entity(s, "ProcessRun"), t, x), "value")
    s.check(v is not None and s.tname(v) == want, k, f"{x!r} with {kind} gave {v!r}")
    s.check(number(s, s.get(v, f), x) if kind == "RealBounds" else s.same(s.get(v, f), x),
            "a plain value keeps its content", f"{x!r} as {s.get(v, f)!r}")
    if kind == "RealBounds":
        s.check(s.same(s.get(v, "units"), s.get(b, "default_units")),
                "a plain number is in the default units of the bounds", f"{s.get(v, 'units')!r}")


def plain_bad(s):
    b = s.choose("bounds", [lambda: None, lambda: s.opaque(), lambda: s.str("b"),
                            lambda: s.new("NominalReal", 1, "m")])()
    s.raises(s.attempt(s.do, B + "make_value", 5, b), ("ValueError",),
             "make_value refuses what is no bounds", repr(b))


def plain_unfit(s):
    """A plain value of the wrong kind is refused, not turned into another value."""
    kind, x = s.choose("case", [("IntegerBounds", 2.5), ("IntegerBounds", "3"),
                                ("IntegerBounds", "x"), ("CategoricalBounds", 3),
                                ("CompositionBounds", 3), ("CompositionBounds", "Xx2"),
                                ("MolecularStructureBounds", 3)])
    b = s.new(kind, 0, 5) if kind == "IntegerBounds" else s.new(kind)
    s.raises(s.attempt(s.do, B + "make_value", x, b), ("ValueError", "TypeError"),
             "make_value refuses a value the bounds cannot describe", f"{x!r} with {kind}")


def run(r):
    r.scenario("make_node", node, max_paths=6000)
    r.scenario("add_edge connections", edge, max_paths=6000)
    r.scenario("add_edge twice", edge_twice)
    r.scenario("add_edge unconnected", edge_refused)
    for q in QUANT:
        r.scenario(f"add_edge {q}", edge_quantity, q, max_paths=6000)
    r.scenario("add_edge levels", edge_level)
    r.scenario("add_measurement", measure, max_paths=8000, seconds=120)
    r.scenario("add_measurement derived", measure_heir)
    for t in TARGETS:
        r.scenario(f"add_attribute {t}", attach, t, max_paths=6000)
    r.scenario("make_attribute", maker)
    r.scenario("make_attribute refusals", maker_bad)
    for k in ("RealBounds", "IntegerBounds", "CategoricalBounds", "CompositionBounds",
              "MolecularStructureBounds"):
        r.scenario(f"make_value {k}", plain, k)
    r.scenario("make_value refusals", plain_bad)
    r.scenario("make_value unfit", plain_unfit)
