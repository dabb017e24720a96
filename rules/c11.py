"""C11: containment of bounds and values is containment of what they allow."""
from rules.bnds import KINDS, OF, NUMERIC, SETS, covers, make, member, read, universe
from rules.common import entity
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "bounds.contains(x) is interpreted for every pair of bounds kinds and value kinds with "
        "symbolic limits (every relative order of the limits, ties included) or symbolic member "
        "sets (every pair of subsets), and compared with containment of the sets they describe; "
        "the same after limits or members are changed on either side, and for foreign arguments.",
    "assumptions": ["magnitudes in a dense total order", "member sets drawn from 3 (4) names"],
}


def pair(s, a, b):
    """a a bounds class, b a bounds or value class."""
    u = universe(s, a, b)
    x, mx = make(s, a, "a", u)
    y, my = make(s, b, "b", u)
    rec = freeze(s, [x, y])
    r = s.attempt(s.m, x, "contains", y)
    s.ok(r, f"{a} answers about {b}", f"{mx!r} {my!r}")
    want = covers(s, mx, my)
    s.check(s.I.truth(r.value) == want and isinstance(r.value, bool),
            f"{a} contains {b} exactly when everything is allowed",
            f"{mx!r} contains {my!r} gave {r.value!r}, expected {want}")
    d = thawed(s, rec)
    s.check(d is None, "asking changes nothing", str(d))
    if OF.get(b, b) == a == b:
        s.check(s.I.truth(s.m(x, "contains", x)), f"{a} contains itself", f"{mx!r}")


def changed(s, a, b):
    """The answer follows later changes of either side."""
    u = universe(s, a, b)
    x, mx = make(s, a, "a", u)
    y, my = make(s, b, "b", u)
    s.m(x, "contains", y)
    side = s.choose("side", ["bounds", "argument"])
    o, m, cls = (x, mx, a) if side == "bounds" else (y, my, b)
    if m[0] in NUMERIC:
        mk = s.float if m[0] == "RealBounds" else s.int
        z = mk("z")
        if cls in ("RealBounds", "IntegerBounds", "UniformInteger", "UniformReal"):
            if s.flag("lower"):
                s.I.lt(m[2], z) and s.done()
                s.put(o, "lower_bound", z)
                m = (m[0], z, m[2], m[3])
            else:
                s.I.lt(z, m[1]) and s.done()
                s.put(o, "upper_bound", z)
                m = (m[0], m[1], z, m[3])
        else:
            s.put(o, "mean" if cls == "NormalReal" else "nominal", z)
            m = (m[0], z, z, m[3])
    elif m[0] in SETS:
        f = {"CategoricalBounds": "categories", "CompositionBounds": "components",
             "NominalCategorical": "category", "DiscreteCategorical": "probabilities",
             "NominalComposition": "quantities", "EmpiricalFormula": "formula"}[cls]
        n = u[1]
        if cls in ("CategoricalBounds", "CompositionBounds") and s.flag("in place"):
            if s.flag("added"):
                s.m(s.get(o, f), "add", n)
                m = (m[0], m[1] + [n])
            else:
                s.m(s.get(o, f), "discard", n)
                m = (m[0], [q for q in m[1] if not member(s, q, [n])])
        else:
            s.put(o, f, {"category": n, "formula": "Na", "probabilities": s.dict((n, 1.0)),
                             "quantities": s.dict((n, 1.0))}.get(f) or s.list(n))
            m = (m[0], ["Na"] if f == "formula" else [n])
    else:
        s.done()
    mx, my = (m, my) if side == "bounds" else (mx, m)
    want = covers(s, mx, my)
    got = s.I.truth(s.m(x, "contains", y))
    s.check(got == want, f"{a} contains {b} after a change of the {side}",
            f"{mx!r} contains {my!r} gave {got}, expected {want}")


def foreign(s, a):
    x, mx = make(s, a, "a", universe(s, a))
    before = read(s, x)
    k = s.choose("argument", ["text", "int", "float", "list", "opaque", "entity", "attribute",
                              "class"])
    arg = {"text": lambda: s.str("t"), "int": lambda: 1, "float": lambda: s.float("f"),
           "list": lambda: s.list(), "opaque": s.opaque,
           "entity": lambda: entity(s, "ProcessRun"),
           "attribute": lambda: s.new("Property", s.str("n")),
           "class": lambda: s.cls(a)}[k]()
    r = s.attempt(s.m, x, "contains", arg)
    s.raises(r, ("TypeError",), f"{a} refuses what is neither bounds nor value", k)
    s.check(repr(read(s, x)) == repr(before), "refusing changes nothing", k)


def nothing(s, a):
    x, _ = make(s, a, "a", universe(s, a))
    s.check(s.m(x, "contains", None) is False, f"{a} does not contain None", "")


def run(r):
    for a in KINDS:
        for b in KINDS + tuple(OF):
            r.scenario(f"{a} / {b}", pair, a, b)
            if OF.get(b, b) == a and a != "MolecularStructureBounds":
                r.scenario(f"{a} / {b} changed", changed, a, b)
        r.scenario(f"{a} / foreign", foreign, a)
        r.scenario(f"{a} / None", nothing, a)
