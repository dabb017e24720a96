"""C13: the bounds of a value are its own extremes, in its own units."""
from rules.bnds import OF, hull, make, matches, same_set
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Every value class is joined (union and update) with degenerate bounds sitting at one of "
        "its own extremes, or with empty member sets, so that the result is exactly the bounds "
        "the library derives from the value; the result and the containment of the value in "
        "bounds that are exactly, and just not, its extremes are compared with its fields, also "
        "after a field has been changed.",
    "assumptions": ["element names checked on a table of formulas"],
}
FORMULAS = (("Al2O3", "Al O"), ("CO2", "C O"), ("Co", "Co"), ("NaCl", "Na Cl"), ("D2O", "D O"),
            ("(Fe2O3)2(TiO2)3", "Fe O Ti"), ("C1.5H2N", "C H N"), ("SiC", "Si C"), ("HHO", "H O"))
UNITS = ("m", "kg", "degC", "", "eV")


def numeric(s, cls):
    real = OF[cls] == "RealBounds"
    u = s.choose("units", UNITS) if real else None
    v, m = make(s, cls, "v", units=u)
    if s.flag("changed"):
        f = {"NormalReal": "mean", "UniformReal": "upper_bound",
             "UniformInteger": "upper_bound"}.get(cls, "nominal")
        x = (s.float if real else s.int)("x")
        if f == "upper_bound":
            s.I.lt(x, m[1]) and s.done()
            m = (m[0], m[1], x, u)
        else:
            m = (m[0], x, x, u)
        s.put(v, f, x)
        if real and s.flag("units changed"):
            u = "km"
            s.put(v, "units", u)
    end = s.choose("start at", [1, 2])
    b = s.new(m[0], m[end], m[end], *([u] if real else []))
    rec = freeze(s, [v])
    r = s.m(b, "union", v)
    s.check(matches(s, r, m), f"{cls}: bounds are its extremes",
            f"{m!r} gave {s.get(r, 'lower_bound')!r} {s.get(r, 'upper_bound')!r}")
    s.m(b, "update", v)
    s.check(matches(s, b, m), f"{cls}: bounds are its extremes", f"{m!r} by update")
    exact = s.new(m[0], m[1], m[2], *([u] if real else []))
    s.check(s.I.truth(s.m(exact, "contains", v)), f"{cls}: is inside its own extremes", f"{m!r}")
    y = (s.float if real else s.int)("y")
    if s.I.lt(m[1], y) and not s.I.lt(m[2], y):
        t = s.new(m[0], y, m[2], *([u] if real else []))
        s.check(not s.I.truth(s.m(t, "contains", v)),
                f"{cls}: is not inside anything tighter", f"{m!r} in {y!r}..")
    if s.I.lt(y, m[2]) and not s.I.lt(y, m[1]):
        t = s.new(m[0], m[1], y, *([u] if real else []))
        s.check(not s.I.truth(s.m(t, "contains", v)),
                f"{cls}: is not inside anything tighter", f"{m!r} in ..{y!r}")
    d = thawed(s, rec)
    s.check(d is None, f"{cls}: taking bounds changes nothing", str(d))


def other_units(s, cls):
    """In a receiver with other dimensions there is nothing to compare."""
    v, m = make(s, cls, "v", units="kg")
    b = s.new("RealBounds", m[1], m[2], "m")
    s.check(not s.I.truth(s.m(b, "contains", v)), f"{cls}: its units are part of its bounds", "")


def members(s, cls, f):
    field = "categories" if f == "CategoricalBounds" else "components"
    if cls == "EmpiricalFormula":
        text, want = s.choose("formula", FORMULAS)
        want = want.split()
        v = s.new(cls, "Xe") if s.flag("changed") else s.new(cls, text)
        s.put(v, "formula", text)
    else:
        xs = [s.str("x0"), s.str("x1"), s.str("x2")]
        n = s.choose("n", [1, 2, 3] if cls != "NominalComposition" else [0, 1, 2, 3])
        want = xs[:n]
        if cls == "NominalCategorical":
            want = xs[:1]
            v = s.new(cls, xs[2])
            s.put(v, "category", xs[0])
        elif cls == "DiscreteCategorical":
            w = {1: (1.0,), 2: (0.0, 1.0), 3: (0.25, 0.0, 0.75)}[n]
            v = s.new(cls, s.dict(*zip(want, w)))
        else:
            v = s.new(cls, s.dict(*[(x, q) for x, q in zip(want, (0.0, 2, s.float("q")))]))
    b = s.new(f)
    r = s.m(b, "union", v)
    got = s.items(s.get(r, field))
    s.check(same_set(s, got, want), f"{cls}: bounds are its members", f"{want!r} gave {got!r}")
    s.check(s.I.truth(s.m(s.new(f, s.list(*want)), "contains", v)),
            f"{cls}: is inside its own members", f"{want!r}")
    for i in range(len(want)):
        t = s.new(f, s.list(*(want[:i] + want[i + 1:])))
        s.check(not s.I.truth(s.m(t, "contains", v)), f"{cls}: is not inside anything tighter",
                f"{want!r} without {want[i]!r}")


def molecular(s, cls):
    v, _ = make(s, cls, "v")
    b = s.new("MolecularStructureBounds")
    s.check(s.I.truth(s.m(b, "contains", v)), f"{cls}: is inside molecular bounds", "")
    r = s.m(b, "union", v)
    s.check(s.tname(r) == "MolecularStructureBounds", f"{cls}: bounds are molecular", f"{r!r}")


def run(r):
    for cls, b in OF.items():
        if b in ("RealBounds", "IntegerBounds"):
            r.scenario(cls, numeric, cls)
            if b == "RealBounds":
                r.scenario(f"{cls} other units", other_units, cls)
        elif b == "MolecularStructureBounds":
            r.scenario(cls, molecular, cls)
        else:
            r.scenario(cls, members, cls, b)
