"""Tables and helpers shared by the rules (public API names only)."""
from gsa.core import Obj, Tup, Atom

LINKS = (
    # source class, field, target class, reverse attribute, many?
    ("IngredientRun", "process", "ProcessRun", "ingredients", True),
    ("IngredientSpec", "process", "ProcessSpec", "ingredients", True),
    ("MeasurementRun", "material", "MaterialRun", "measurements", True),
    ("MaterialRun", "process", "ProcessRun", "output_material", False),
    ("MaterialSpec", "process", "ProcessSpec", "output_material", False),
)
OBJECTS = ("ProcessTemplate", "MaterialTemplate", "MeasurementTemplate",
           "PropertyTemplate", "ConditionTemplate", "ParameterTemplate",
           "ProcessSpec", "MaterialSpec", "MeasurementSpec", "IngredientSpec",
           "ProcessRun", "MaterialRun", "MeasurementRun", "IngredientRun")
NAMELESS = ("IngredientRun",)


def entity(s, cls, name=None, **kw):
    """A minimal instance of an entity class."""
    if cls in NAMELESS:
        return s.new(cls, **kw)
    if cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate") \
            and "bounds" not in kw:
        kw["bounds"] = s.new("RealBounds", 0, 10, "m")
    return s.new(cls, name if name is not None else s.str(cls + "_name"), **kw)


def link(s, scope=None, id=None):
    return s.new("LinkByUID", scope or s.str("scope"), id or s.str("id"))


def reverse(s, target, attr, many):
    v = s.get(target, attr)
    return s.items(v) if many else ([] if v is None else [v])


def describe(xs):
    return "[" + ", ".join(repr(x) for x in xs) + "]"


def mirror(s, kind, sources, targets, key, ctx=""):
    """Both sides of a link agree: reverse views are exactly the current pointers."""
    src, field, tgt, attr, many = kind
    for t in targets:
        rev = reverse(s, t, attr, many)
        for a in sources:
            n = sum(1 for x in rev if x is a)
            pts = s.get(a, field) is t
            s.check(n == (1 if pts else 0), key,
                    f"{src}.{field} {'points' if pts else 'does not point'} at the {tgt} but its "
                    f"{attr} {'lists it %d times' % n if many else 'is %r' % (rev,)} {ctx}",
                    where=t.w.get("_" + attr) or s.get(t, attr).w.get("#")
                    if isinstance(s.get(t, attr), Obj) and many else t.w.get("_" + attr))
        extra = [x for x in rev if not any(x is a for a in sources)]
        s.check(not extra, key, f"{tgt}.{attr} shows objects that do not point at it: "
                f"{describe(extra)} {ctx}")
