"""The public data model: classes, their public fields, example arguments, structural oracle.

Everything here speaks about the documented API only (constructor keywords and public
attributes); nothing refers to how the library stores or moves the data.
"""
from gsa.core import Obj, Tup, Atom
from rules.common import entity, link

ATTR = ("name", "template", "origin", "value", "notes", "file_links")
BASE = ("uids", "tags", "notes", "file_links")
QUANT = ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity")
FIELDS = {
    "Property": ATTR, "Condition": ATTR, "Parameter": ATTR,
    "PropertyAndConditions": ("property", "conditions"),
    "RealBounds": ("lower_bound", "upper_bound", "default_units"),
    "IntegerBounds": ("lower_bound", "upper_bound"),
    "CategoricalBounds": ("categories",),
    "CompositionBounds": ("components",),
    "MolecularStructureBounds": (),
    "NominalReal": ("nominal", "units"),
    "NormalReal": ("mean", "std", "units"),
    "UniformReal": ("lower_bound", "upper_bound", "units"),
    "NominalInteger": ("nominal",),
    "UniformInteger": ("lower_bound", "upper_bound"),
    "NominalCategorical": ("category",),
    "DiscreteCategorical": ("probabilities",),
    "NominalComposition": ("quantities",),
    "EmpiricalFormula": ("formula",),
    "InChI": ("inchi",),
    "Smiles": ("smiles",),
    "FileLink": ("filename", "url"),
    "LinkByUID": ("scope", "id"),
    "PerformedSource": ("performed_by", "performed_date"),
    "PropertyTemplate": ("name", "description", "bounds", "uids", "tags"),
    "ConditionTemplate": ("name", "description", "bounds", "uids", "tags"),
    "ParameterTemplate": ("name", "description", "bounds", "uids", "tags"),
    "MaterialTemplate": ("name", "description", "properties", "uids", "tags"),
    "ProcessTemplate": ("name", "description", "conditions", "parameters", "allowed_names",
                        "allowed_labels", "uids", "tags"),
    "MeasurementTemplate": ("name", "description", "properties", "conditions", "parameters",
                            "uids", "tags"),
    "ProcessSpec": ("name", "template", "conditions", "parameters") + BASE,
    "MaterialSpec": ("name", "template", "process", "properties") + BASE,
    "MeasurementSpec": ("name", "template", "conditions", "parameters") + BASE,
    "IngredientSpec": ("name", "material", "process", "labels") + QUANT + BASE,
    "ProcessRun": ("name", "spec", "conditions", "parameters", "source") + BASE,
    "MaterialRun": ("name", "spec", "process", "sample_type") + BASE,
    "MeasurementRun": ("name", "spec", "material", "properties", "conditions", "parameters",
                       "source") + BASE,
    "IngredientRun": ("material", "process", "spec") + QUANT + BASE,
}
# read-only views derived from other objects
DERIVED = {"IngredientRun": ("name", "labels"), "MaterialRun": ("measurements", "template"),
           "ProcessRun": ("ingredients", "output_material", "template"),
           "ProcessSpec": ("ingredients", "output_material"),
           "MeasurementRun": ("template",)}
VALUES = ("NominalReal", "NormalReal", "UniformReal", "NominalInteger", "UniformInteger",
          "NominalCategorical", "DiscreteCategorical", "NominalComposition", "EmpiricalFormula",
          "InChI", "Smiles")
BOUNDS = ("RealBounds", "IntegerBounds", "CategoricalBounds", "CompositionBounds",
          "MolecularStructureBounds")
ATTRIBUTES = ("Property", "Condition", "Parameter")
ENTITIES = ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "MaterialTemplate",
            "ProcessTemplate", "MeasurementTemplate", "ProcessSpec", "MaterialSpec",
            "MeasurementSpec", "IngredientSpec", "ProcessRun", "MaterialRun", "MeasurementRun",
            "IngredientRun")
TYPES = {c: "".join("_" + x.lower() if x.isupper() else x for x in c).lstrip("_")
         for c in FIELDS}
TYPES.update(LinkByUID="link_by_uid", InChI="inchi")
TEMPLATE_OF = {"ProcessSpec": "ProcessTemplate", "MaterialSpec": "MaterialTemplate",
               "MeasurementSpec": "MeasurementTemplate"}
SPEC_OF = {"ProcessRun": "ProcessSpec", "MaterialRun": "MaterialSpec",
           "MeasurementRun": "MeasurementSpec", "IngredientRun": "IngredientSpec"}
REQUIRED = {"name": True, "bounds": True}
ORIGINS = ("measured", "predicted", "summary", "specified", "computed", "unknown")
SAMPLE_TYPES = ("production", "experimental", "virtual", "unknown")


def value(s, cls, tag="v"):
    n = s.new
    if cls == "NominalReal":
        return n(cls, s.float(tag + ".nominal"), "m")
    if cls == "NormalReal":
        return n(cls, s.float(tag + ".mean"), s.float(tag + ".std"), "kg")
    if cls == "UniformReal":
        lo, hi = ordered(s, tag)
        return n(cls, lo, hi, "cm")
    if cls == "NominalInteger":
        return n(cls, s.int(tag + ".nominal"))
    if cls == "UniformInteger":
        lo, hi = ordered(s, tag, "int")
        return n(cls, lo, hi)
    if cls == "NominalCategorical":
        return n(cls, s.str(tag + ".category"))
    if cls == "DiscreteCategorical":
        return n(cls, s.dict((s.str(tag + ".c1"), 0.25), (s.str(tag + ".c2"), 0.75)))
    if cls == "NominalComposition":
        return n(cls, s.dict((s.str(tag + ".k1"), s.float(tag + ".q1")),
                             (s.str(tag + ".k2"), s.float(tag + ".q2"))))
    if cls == "EmpiricalFormula":
        return n(cls, "Al2O3")
    if cls == "InChI":
        return n(cls, "InChI=1S/H2O/h1H2")
    if cls == "Smiles":
        return n(cls, s.str(tag + ".smiles"))
    raise KeyError(cls)


def ordered(s, tag="x", typ="float"):
    """Two numbers lo <= hi (the equal case included)."""
    f = s.float if typ == "float" else s.int
    lo, hi = f(tag + ".lo"), f(tag + ".hi")
    assume(s, not s.I.lt(hi, lo))
    return lo, hi


def assume(s, cond):
    if not cond:
        s.done()


def bounds(s, cls, tag="b"):
    if cls == "RealBounds":
        lo, hi = ordered(s, tag)
        return s.new(cls, lo, hi, "m")
    if cls == "IntegerBounds":
        lo, hi = ordered(s, tag, "int")
        return s.new(cls, lo, hi)
    if cls == "CategoricalBounds":
        return s.new(cls, s.list(s.str(tag + ".x"), s.str(tag + ".y")))
    if cls == "CompositionBounds":
        return s.new(cls, s.list(s.str(tag + ".x"), s.str(tag + ".y")))
    return s.new(cls)


def file_link(s, tag="f"):
    return s.new("FileLink", s.str(tag + ".filename"), s.str(tag + ".url"))


def source(s, tag="src"):
    return s.new("PerformedSource", s.str(tag + ".by"), s.str(tag + ".date"))


def attribute(s, cls, tag="a", full=False, **kw):
    if full:
        kw.setdefault("origin", "measured")
        kw.setdefault("notes", s.str(tag + ".notes"))
        kw.setdefault("file_links", s.list(file_link(s, tag + ".f")))
        kw.setdefault("value", s.new("NominalInteger", s.int(tag + ".value")))
    return s.new(cls, s.str(tag + ".name"), **kw)


def argument(s, cls, field, links=False):
    """A (legal, rich) constructor argument for a field; the caller's object when mutable."""
    tag = f"{cls}.{field}"
    if field in ("name", "notes", "description"):
        return s.str(tag)
    if field == "uids":
        return s.dict((s.str("scopeA"), s.str("uidA")), (s.str("scopeB"),
                                                                     s.str("uidB")))
    if field in ("tags", "labels", "allowed_names", "allowed_labels"):
        return s.list(s.str(tag + "1"), s.str(tag + "2"))
    if field == "file_links":
        return s.list(file_link(s, tag + "1"), file_link(s, tag + "2"))
    if field == "source":
        return source(s)
    if field == "sample_type":
        return "virtual"
    if field == "origin":
        return "measured"
    if field in QUANT:
        return s.new("NominalReal", 0.5, "kg" if field == "absolute_quantity" else "")
    if cls in ATTRIBUTES:
        if field == "template":
            return link(s) if links else entity(s, cls + "Template", bounds=s.new(
                "IntegerBounds", 0, 10))
        if field == "value":
            return s.new("NominalInteger", 5)
    if field == "bounds":
        return s.new("CategoricalBounds", s.list(s.str("b1"), s.str("b2")))
    if cls in ("MaterialTemplate", "ProcessTemplate", "MeasurementTemplate"):
        at = {"properties": "PropertyTemplate", "conditions": "ConditionTemplate",
              "parameters": "ParameterTemplate"}[field]
        a = link(s) if links else entity(s, at, bounds=s.new("IntegerBounds", 0, 10))
        b = link(s) if links else entity(s, at, bounds=s.new("IntegerBounds", 0, 10))
        return s.list(a, s.list(b, s.new("IntegerBounds", 2, 5)))
    if cls == "MaterialSpec" and field == "properties":
        return s.list(s.new("PropertyAndConditions", attribute(s, "Property", tag, full=True),
                            s.list(attribute(s, "Condition", tag + ".c", full=True))))
    if field in ("properties", "conditions", "parameters"):
        at = {"properties": "Property", "conditions": "Condition",
              "parameters": "Parameter"}[field]
        return s.list(attribute(s, at, tag + "1", full=True), attribute(s, at, tag + "2"))
    if field == "property":
        return attribute(s, "Property", tag, full=True)
    if field == "template":
        return link(s) if links else entity(s, TEMPLATE_OF[cls])
    if field == "spec":
        return link(s) if links else entity(s, SPEC_OF[cls])
    if field == "process":
        return link(s) if links else entity(s, "ProcessRun" if cls.endswith("Run")
                                            else "ProcessSpec")
    if field == "material":
        return link(s) if links else entity(s, "MaterialRun" if cls.endswith("Run")
                                            else "MaterialSpec")
    raise KeyError((cls, field))


def required(cls):
    if cls == "IngredientRun":
        return []
    if cls in ATTRIBUTES or cls in ENTITIES:
        r = ["name"]
        if cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate"):
            r.append("bounds")
        return r
    if cls == "PropertyAndConditions":
        return ["property"]
    return list(FIELDS[cls])


def build(s, cls, present=None, links=False):
    """An instance of cls with the given optional fields supplied; returns (obj, kwargs)."""
    if cls in VALUES:
        return value(s, cls), None
    if cls in BOUNDS:
        return bounds(s, cls), None
    if cls == "FileLink":
        return file_link(s), None
    if cls == "LinkByUID":
        return link(s), None
    if cls == "PerformedSource":
        return source(s), None
    req = required(cls)
    fields = [f for f in FIELDS[cls] if f in req or present is None or f in present]
    kw = {f: argument(s, cls, f, links) for f in fields}
    return s.new(cls, **kw), kw


def optional(cls):
    return [f for f in FIELDS[cls] if f not in required(cls)]


def presence(s, cls):
    """All / none / one / all-but-one of the optional fields."""
    opt = optional(cls)
    alts = [("all", tuple(opt))]
    if opt:
        alts.append(("none", ()))
        alts += [("only " + f, (f,)) for f in opt]
        if len(opt) > 2:
            alts += [("without " + f, tuple(x for x in opt if x != f)) for f in opt]
    label, fs = s.choose("fields", [a for a in alts])
    return fs


# ---------------------------------------------------------------- structural oracle
def is_ds(s, v):
    return isinstance(v, Obj) and s.isa(v, "DictSerializable")


def plain(s, v):
    return s.I.strval(v)


def differs(s, a, b, path="", memo=None, links=None):
    """First public difference of two values, or None.

    links: None, or callable (a, b) -> bool | None deciding object-vs-link positions.
    """
    memo = memo if memo is not None else {}
    if links is not None:
        r = links(a, b)
        if r is not None:
            return None if r else f"{path}: {a!r} vs {b!r}"
    if is_ds(s, a) or is_ds(s, b):
        if not (is_ds(s, a) and is_ds(s, b)):
            return f"{path}: {a!r} vs {b!r}"
        if a.cls is not b.cls:
            return f"{path}: a {a.cls.name} became a {b.cls.name}"
        k = (a.oid, b.oid)
        if k in memo:
            return None
        memo[k] = True
        name = a.cls.name
        for f in FIELDS.get(name, ()) + DERIVED.get(name, ()):
            d = differs(s, s.get(a, f), s.get(b, f), f"{path}.{f}", memo, links)
            if d:
                return d
        return None
    I = s.I
    if I.is_mapping(a) or I.is_mapping(b):
        if not (I.is_mapping(a) and I.is_mapping(b)):
            return f"{path}: {a!r} vs {b!r}"
        ia, ib = I.mapping_items(a), I.mapping_items(b)
        if len(ia) != len(ib):
            return f"{path}: {len(ia)} entries became {len(ib)}"
        for k, v in ia:
            hit = [y for x, y in ib if s.same(x, k)]
            if len(hit) != 1:
                return f"{path}: key {k!r} lost"
            d = differs(s, v, hit[0], f"{path}[{k!r}]", memo, links)
            if d:
                return d
        return None
    if I.is_setlike(a) or I.is_setlike(b):
        xs, ys = s.items(a), s.items(b)
        if len(xs) != len(ys) or any(not any(s.same(x, y) for y in ys) for x in xs):
            return f"{path}: {xs!r} vs {ys!r}"
        return None
    if seq(a) is not None or seq(b) is not None:
        xs, ys = seq(a), seq(b)
        if xs is None or ys is None:
            return f"{path}: {a!r} vs {b!r}"
        if len(xs) != len(ys):
            return f"{path}: {len(xs)} elements became {len(ys)}"
        for i, (x, y) in enumerate(zip(xs, ys)):
            d = differs(s, x, y, f"{path}[{i}]", memo, links)
            if d:
                return d
        return None
    if I.is_(a, b) or s.same(plain(s, a), plain(s, b)):
        return None
    return f"{path}: {a!r} vs {b!r}"


def seq(v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Obj) and isinstance(v.p, list):
        return list(v.p)
    return None
