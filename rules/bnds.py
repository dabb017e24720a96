"""Bounds and values with symbolic content, and what they mean as sets."""
from rules.catalog import assume

NUMERIC = ("RealBounds", "IntegerBounds")
SETS = ("CategoricalBounds", "CompositionBounds")
KINDS = NUMERIC + SETS + ("MolecularStructureBounds",)
OF = {"NominalReal": "RealBounds", "NormalReal": "RealBounds", "UniformReal": "RealBounds",
      "NominalInteger": "IntegerBounds", "UniformInteger": "IntegerBounds",
      "NominalCategorical": "CategoricalBounds", "DiscreteCategorical": "CategoricalBounds",
      "NominalComposition": "CompositionBounds", "EmpiricalFormula": "CompositionBounds",
      "InChI": "MolecularStructureBounds", "Smiles": "MolecularStructureBounds"}
FIELDS = {"RealBounds": ("lower_bound", "upper_bound", "default_units"),
          "IntegerBounds": ("lower_bound", "upper_bound"),
          "CategoricalBounds": ("categories",), "CompositionBounds": ("components",),
          "MolecularStructureBounds": ()}


def pair(s, tag, typ):
    f = s.float if typ == "float" else s.int
    lo, hi = f(tag + ".lo"), f(tag + ".hi")
    assume(s, not s.I.lt(hi, lo))
    return lo, hi


def make(s, cls, tag, universe=None, units="m"):
    """(object, meaning): meaning = (kind, lo, hi, units) | (kind, [members]) | (kind,)."""
    k = OF.get(cls, cls)
    n = s.new
    if cls == "RealBounds":
        lo, hi = pair(s, tag, "float")
        return n(cls, lo, hi, units), (k, lo, hi, units)
    if cls == "IntegerBounds":
        lo, hi = pair(s, tag, "int")
        return n(cls, lo, hi), (k, lo, hi, None)
    if cls in SETS:
        xs = subset(s, tag, universe)
        form = s.list if s.flag(tag + " as list") else s.set
        return n(cls, form(*xs)), (k, xs)
    if cls == "NominalReal":
        x = s.float(tag)
        return n(cls, x, units), (k, x, x, units)
    if cls == "NormalReal":
        x = s.float(tag)
        return n(cls, x, s.float(tag + ".std"), units), (k, x, x, units)
    if cls == "UniformReal":
        lo, hi = pair(s, tag, "float")
        return n(cls, lo, hi, units), (k, lo, hi, units)
    if cls == "NominalInteger":
        x = s.int(tag)
        return n(cls, x), (k, x, x, None)
    if cls == "UniformInteger":
        lo, hi = pair(s, tag, "int")
        return n(cls, lo, hi), (k, lo, hi, None)
    if cls == "NominalCategorical":
        x = s.choose(tag, universe)
        return n(cls, x), (k, [x])
    if cls == "DiscreteCategorical":
        xs = [x for x in subset(s, tag, universe)] or [universe[0]]
        w = {1: (1.0,), 2: (0.25, 0.75), 3: (0.25, 0.25, 0.5)}[len(xs)]
        return n(cls, s.dict(*zip(xs, w))), (k, xs)
    if cls == "NominalComposition":
        xs = subset(s, tag, universe)
        return n(cls, s.dict(*[(x, s.float(f"{tag}.q{i}")) for i, x in enumerate(xs)])), (k, xs)
    if cls == "EmpiricalFormula":
        f, xs = s.choose(tag, [("Al2O3", ["Al", "O"]), ("(NaCl)2Al", ["Na", "Cl", "Al"]),
                               ("C", ["C"])])
        return n(cls, f), (k, xs)
    if cls == "InChI":
        return n(cls, "InChI=1S/H2O/h1H2"), (k,)
    if cls == "Smiles":
        return n(cls, s.str(tag + ".smiles")), (k,)
    return n(cls), (k,)


def subset(s, tag, universe):
    return [x for i, x in enumerate(universe) if s.flag(f"{tag} has {i}")]


def universe(s, cls, other=None):
    if "EmpiricalFormula" in (cls, other):
        return ["Al", "O", "Na", "Cl"]
    return [s.str("u0"), s.str("u1"), ""]


def le(s, a, b):
    return not s.I.lt(b, a)


def member(s, x, xs):
    return any(y is x or s.I.prim_eq(x, y) for y in xs)


def covers(s, a, b):
    """Meaning a allows everything meaning b allows (same units)."""
    if a[0] != b[0]:
        return False
    if a[0] in NUMERIC:
        return le(s, a[1], b[1]) and le(s, b[2], a[2])
    if a[0] in SETS:
        return all(member(s, x, a[1]) for x in b[1])
    return True


def read(s, b):
    """The content a bounds object shows through its public fields."""
    k = s.tname(b)
    out = []
    for f in FIELDS[k]:
        v = s.get(b, f)
        out.append(s.items(v) if k in SETS else v)
    return (k,) + tuple(out)


def same_set(s, xs, ys):
    return len(xs) == len(ys) and all(member(s, x, ys) for x in xs)


def matches(s, b, meaning):
    """Does bounds object b read back as the meaning?"""
    if s.tname(b) != meaning[0]:
        return False
    if meaning[0] in NUMERIC:
        return s.I.prim_eq(s.get(b, "lower_bound"), meaning[1]) and \
            s.I.prim_eq(s.get(b, "upper_bound"), meaning[2])
    if meaning[0] in SETS:
        return same_set(s, s.items(s.get(b, FIELDS[meaning[0]][0])), meaning[1])
    return True


def hull(s, ms):
    """Least meaning covering all of ms (one kind)."""
    k = ms[0][0]
    if k in NUMERIC:
        lo, hi = ms[0][1], ms[0][2]
        for m in ms[1:]:
            lo = m[1] if s.I.lt(m[1], lo) else lo
            hi = m[2] if s.I.lt(hi, m[2]) else hi
        return (k, lo, hi, ms[0][3])
    if k in SETS:
        xs = []
        for m in ms:
            xs += [x for x in m[1] if not member(s, x, xs)]
        return (k, xs)
    return ms[0]
