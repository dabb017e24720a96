"""Abstract object graphs used by several rules, and a graph-isomorphism oracle."""
from gsa.core import Obj
from rules.catalog import FIELDS, DERIVED, differs, attribute, file_link, source
from rules.common import entity, link

LINKF = ("template", "spec", "process", "material", "output_material", "ingredients",
         "measurements", "properties", "conditions", "parameters", "property")


def uid(s, tag, on=True):
    return s.dict((s.str("scope_" + tag), s.str("uid_" + tag))) if on else None


def cased(n, text="abcdef"):
    """The n-th spelling of a text, all equal up to case."""
    return "".join(c.upper() if n >> i & 1 else c for i, c in enumerate(text))


def world(s, uids="none"):
    """A history with every kind of entity, shared templates, attributes with templates.

    uids: 'none', 'all', 'some' (every other entity has a uid of its own) or 'twins' (all
    entities share one name and one id, each under a scope of its own) or 'case' (names and ids
    that differ only in letter case).
    """
    g, n = {}, [0]
    shared, alike = s.str("shared_id"), s.str("shared_name")

    def e(key, cls, *a, **kw):
        n[0] += 1
        if uids == "all" or uids == "some" and n[0] % 2:
            kw["uids"] = s.dict((s.str("scope"), s.str("uid_" + key)))
        elif uids == "twins":
            kw["uids"] = s.dict((s.str("scope_" + key), shared))
        elif uids == "case":
            kw["uids"] = s.dict(("Scope", cased(n[0])))
        if cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate"):
            kw["bounds"] = s.new("IntegerBounds", 0, 10)
        g[key] = entity(s, cls, alike if uids == "twins" else cased(n[0]) if uids == "case"
                        else s.str(key), **kw)
        return g[key]

    def v():
        return s.new("NominalInteger", 5)
    prt, cot, pat = (e("prt", "PropertyTemplate"), e("cot", "ConditionTemplate"),
                     e("pat", "ParameterTemplate"))
    mt = e("mt", "MaterialTemplate", properties=s.list(s.list(prt, s.new("IntegerBounds", 1, 9))))
    pt = e("pt", "ProcessTemplate", conditions=s.list(cot), parameters=s.list(pat))
    met = e("met", "MeasurementTemplate", properties=s.list(prt), conditions=s.list(cot),
            parameters=s.list(pat))
    ps = e("ps", "ProcessSpec", template=pt, parameters=s.list(
        s.new("Parameter", s.str("ps.par"), template=pat, value=v())))
    ms = e("ms", "MaterialSpec", template=mt, process=ps, properties=s.list(
        s.new("PropertyAndConditions", s.new("Property", s.str("ms.prop"), template=prt,
                                             value=v()),
              s.list(s.new("Condition", s.str("ms.cond"), template=cot, value=v())))))
    ims = e("ims", "MaterialSpec", template=mt)
    iss = e("is", "IngredientSpec", material=ims, process=ps)
    mes = e("mes", "MeasurementSpec", template=met, conditions=s.list(
        s.new("Condition", s.str("mes.cond"), template=cot, value=v())))
    pr = e("pr", "ProcessRun", spec=ps, conditions=s.list(
        s.new("Condition", s.str("pr.cond"), template=cot, value=v())), source=source(s))
    mr = e("mr", "MaterialRun", spec=ms, process=pr)
    imr = e("imr", "MaterialRun", spec=ims)
    e("ir", "IngredientRun", material=imr, process=pr, spec=iss)
    e("ir2", "IngredientRun", material=imr, process=pr)
    e("me", "MeasurementRun", spec=mes, material=mr, properties=s.list(
        s.new("Property", s.str("me.prop"), template=prt, value=v(),
              file_links=s.list(file_link(s, "me.f")))),
        parameters=s.list(s.new("Parameter", s.str("me.par"), template=pat)))
    e("me2", "MeasurementRun", spec=mes, material=mr)
    e("ime", "MeasurementRun", material=imr)
    return g


def successors(s, o, skip=()):
    """DictSerializable values directly referenced by the public fields of o (in order)."""
    out = []

    def walk(v):
        if isinstance(v, Obj) and s.isa(v, "DictSerializable"):
            out.append(v)
        elif s.I.is_mapping(v):
            for k, x in s.I.mapping_items(v):
                walk(k)
                walk(x)
        elif isinstance(v, Obj) and isinstance(v.p, list):
            for x in v.p:
                walk(x)
        elif hasattr(v, "items") and isinstance(v.items, (list, tuple)):
            for x in v.items:
                walk(x)
    if isinstance(o, Obj) and s.isa(o, "DictSerializable"):
        for f in FIELDS.get(o.cls.name, ()) + tuple(
                x for x in DERIVED.get(o.cls.name, ()) if x != "template"):
            if f not in skip:
                walk(s.get(o, f))
    else:
        walk(o)
    return out


def reachable(s, root, soft=True):
    """Entities reachable from root; soft: also through the derived reverse views."""
    skip = () if soft else ("measurements", "ingredients", "output_material")
    seen, todo, out = set(), [root], []
    while todo:
        o = todo.pop()
        if isinstance(o, Obj):
            if o.oid in seen:
                continue
            seen.add(o.oid)
            if s.isa(o, "BaseEntity"):
                out.append(o)
        todo.extend(successors(s, o, skip))
    return out


def isomorphic(s, a, b, ignore=None):
    """None if the graphs at a and b agree field by field with the same sharing."""
    fwd, back = {}, {}

    def pair(x, y):
        if isinstance(x, Obj) and isinstance(y, Obj) and s.isa(x, "BaseEntity") and \
                s.isa(y, "BaseEntity"):
            if fwd.setdefault(x.oid, y) is not y:
                return False
            if back.setdefault(y.oid, x) is not x:
                return False
        return None
    return differs(s, a, b, "", None, pair)


def freeze(s, objs):
    """Shallow record of all public fields, to detect unwanted changes."""
    rec = []
    for o in objs:
        for f in FIELDS[o.cls.name] + DERIVED.get(o.cls.name, ()):
            v = s.get(o, f)
            if s.I.is_mapping(v):
                c = ("map", [(k, x) for k, x in s.I.mapping_items(v)])
            elif isinstance(v, Obj) and isinstance(v.p, list):
                c = ("seq", [(x, list(x.p) if isinstance(x, Obj) and isinstance(x.p, list)
                              else None) for x in v.p])
            elif s.I.is_setlike(v):
                c = ("set", s.items(v))
            else:
                c = ("val", v)
            rec.append((o, f, c))
    return rec


def thawed(s, rec, but=()):
    """First field that changed since freeze()."""
    for o, f, (kind, c) in rec:
        if f in but:
            continue
        v = s.get(o, f)
        if kind == "map":
            now = list(s.I.mapping_items(v)) if s.I.is_mapping(v) else None
            good = now is not None and len(now) == len(c) and all(
                s.same(k, q) and (x is y or s.same(x, y)) for (k, x), (q, y) in zip(c, now))
        elif kind == "seq":
            now = v.p if isinstance(v, Obj) and isinstance(v.p, list) else None
            good = now is not None and len(now) == len(c) and all(
                (x is y or s.same(x, y)) and
                (sub is None or len(sub) == len(y.p) and all(p is q for p, q in zip(sub, y.p)))
                for (x, sub), y in zip(c, now))
        elif kind == "set":
            now = s.items(v) if s.I.is_setlike(v) else None
            good = now is not None and len(now) == len(c) and all(
                any(s.same(x, y) for y in now) for x in c)
        else:
            now = v
            good = v is c or s.same(v, c)
        if not good:
            return f"{o.cls.name}.{f} changed from {c!r} to {now!r}"
    return None


# ------------------------------------------------------------------ single references
TREE = {"MaterialTemplate": ("properties",), "ProcessTemplate": ("conditions", "parameters"),
        "MeasurementTemplate": ("properties", "conditions", "parameters")}
KIND = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}
HELD = {"ProcessSpec": ("conditions", "parameters"), "ProcessRun": ("conditions", "parameters"),
        "MeasurementSpec": ("conditions", "parameters"),
        "MeasurementRun": ("properties", "conditions", "parameters")}
DIRECT = (("ProcessSpec", "template", "ProcessTemplate"),
          ("MaterialSpec", "template", "MaterialTemplate"),
          ("MaterialSpec", "process", "ProcessSpec"),
          ("MeasurementSpec", "template", "MeasurementTemplate"),
          ("IngredientSpec", "material", "MaterialSpec"),
          ("IngredientSpec", "process", "ProcessSpec"),
          ("ProcessRun", "spec", "ProcessSpec"), ("MaterialRun", "spec", "MaterialSpec"),
          ("MaterialRun", "process", "ProcessRun"),
          ("MeasurementRun", "spec", "MeasurementSpec"),
          ("MeasurementRun", "material", "MaterialRun"),
          ("IngredientRun", "spec", "IngredientSpec"),
          ("IngredientRun", "material", "MaterialRun"), ("IngredientRun", "process", "ProcessRun"))
SINGLE = [f"{c}.{f}" for c, f, _ in DIRECT] + \
    [f"{c}.{f}.{k}" for c, fs in TREE.items() for f in fs for k in ("bare", "pair")] + \
    [f"{c}.{f}.template" for c, fs in HELD.items() for f in fs] + \
    ["MaterialSpec.properties.property", "MaterialSpec.properties.conditions"]


def single(s, path, uids=True):
    """(holder, target): two entities connected by the one reference named, and by nothing else."""
    def ids(tag):
        return {"uids": s.dict((f"scope {tag}", s.str(f"id {tag}")))} if uids else {}
    cls, field, *how = path.split(".")
    if not how:
        kind = next(t for c, f, t in DIRECT if (c, f) == (cls, field))
        target = entity(s, kind, s.str("target"), **ids("t"))
        return entity(s, cls, s.str("holder"), **{field: target}, **ids("h")), target
    b = s.new("IntegerBounds", 0, 10)
    if how[0] in ("bare", "pair"):
        target = entity(s, KIND[field] + "Template", s.str("target"), bounds=b, **ids("t"))
        x = target if how[0] == "bare" else s.list(target, s.new("IntegerBounds", 1, 2))
        return entity(s, cls, s.str("holder"), **{field: s.list(x)}, **ids("h")), target
    kind = {"template": KIND[field], "property": "Property", "conditions": "Condition"}[how[0]]
    target = entity(s, kind + "Template", s.str("target"), bounds=b, **ids("t"))
    a = s.new(kind, s.str("attribute"), template=target, value=s.new("NominalInteger", 5))
    if how[0] == "property":
        a = s.new("PropertyAndConditions", a)
    elif how[0] == "conditions":
        a = s.new("PropertyAndConditions", s.new("Property", s.str("plain")), s.list(a))
    return entity(s, cls, s.str("holder"), **{field: s.list(a)}, **ids("h")), target
