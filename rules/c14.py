"""C14: magnitudes are compared in one unit."""
from gsa.libmods import UNITS
from rules.bnds import make
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Unit-of-measure dataflow: every magnitude is symbolic and every conversion is an "
        "uninterpreted increasing map between two units, so a comparison of magnitudes held in "
        "different units is independent of the physical order. contains, union and update of real "
        "bounds with bounds and values are interpreted for pairs of units (equal, compatible "
        "with and without offset, incompatible) and compared with the physical order.",
    "assumptions": ["conversion between compatible units is strictly increasing and exact "
                    "(rounding is out of scope)", "pint reports incompatible dimensions"],
}
PAIRS = (("m", "cm"), ("cm", "m"), ("km", "mm"), ("degC", "K"), ("K", "degC"), ("degC", "degF"),
         ("g", "kg"), ("min", "s"), ("m", "m"), ("degF", "degF"), ("percent", ""),
         ("", "percent"), ("ppm", "percent"), ("K", "degF"))
INCOMPATIBLE = (("m", "kg"), ("kg", "s"), ("", "m"), ("m", ""), ("degC", "J"), ("radian", "s"), ("percent", "m"))
OPERANDS = ("RealBounds", "NominalReal", "NormalReal", "UniformReal")


def conv(s, x, u, v):
    U, V = UNITS[u], UNITS[v]
    if U[0] == V[0]:
        return x
    return s.I.term("conv", s.I.builtins["float"], x, U[0], V[0])


def le(s, x, u, y, v):
    """x in u is physically at most y in v."""
    return not s.I.lt(y, conv(s, x, u, v))


def containment(s, cls, u, v):
    a, ma = make(s, "RealBounds", "a", units=u)
    b, mb = make(s, cls, "b", units=v)
    for i in range(2):
        want = le(s, ma[1], u, mb[1], v) and le(s, conv(s, mb[2], v, u), u, ma[2], u)
        got = s.I.truth(s.m(a, "contains", b))
        s.check(got == want, f"containment of {cls} in {v or '1'} in bounds in {u or '1'}",
                f"{ma!r} contains {mb!r} gave {got}, expected {want}")


def units_changed(s, cls, u, v):
    """Units assigned later are the ones used."""
    a, ma = make(s, "RealBounds", "a", units=u)
    b, mb = make(s, cls, "b", units=v)
    s.attempt(s.m, a, "contains", b)
    if s.flag("receiver"):
        s.put(a, "default_units", v)
        u = v
    else:
        s.put(b, "default_units" if cls == "RealBounds" else "units", u)
        v = u
    want = not s.I.lt(mb[1], ma[1]) and not s.I.lt(ma[2], mb[2])
    got = s.I.truth(s.m(a, "contains", b))
    s.check(got == want, f"containment of {cls} after its units were assigned",
            f"{ma!r} contains {mb!r} in {u} gave {got}, expected {want}")


def union(s, cls, u, v):
    a, ma = make(s, "RealBounds", "a", units=u)
    b, mb = make(s, cls, "b", units=v)
    lo, hi = conv(s, mb[1], v, u), conv(s, mb[2], v, u)
    wl = lo if s.I.lt(lo, ma[1]) else ma[1]
    wh = hi if s.I.lt(ma[2], hi) else ma[2]
    how = s.choose("operation", ["union", "update"])
    rec = freeze(s, [b])
    if how == "union":
        r = s.m(a, "union", b)
    else:
        s.m(a, "update", b)
        r = a
    s.check(s.I.prim_eq(s.get(r, "default_units"), UNITS[u][0]),
            f"{how} with {cls} is in the receiver's units", f"{s.get(r, 'default_units')!r}")
    gl, gh = s.get(r, "lower_bound"), s.get(r, "upper_bound")
    s.check(s.I.prim_eq(gl, wl) and s.I.prim_eq(gh, wh),
            f"{how} with {cls} covers both in the receiver's units",
            f"{ma!r} with {mb!r} gave {gl!r} {gh!r}, expected {wl!r} {wh!r}")
    d = thawed(s, rec)
    s.check(d is None, f"{how} leaves the operand's units and limits alone", str(d))


def two(s, u, v, w):
    """Three different units at once."""
    a, ma = make(s, "RealBounds", "a", units=u)
    b, mb = make(s, "NominalReal", "b", units=v)
    c, mc = make(s, "NominalReal", "c", units=w)
    r = s.m(a, "union", b, c)
    x, y = conv(s, mb[1], v, u), conv(s, mc[1], w, u)
    lo = ma[1]
    hi = ma[2]
    for z in (x, y):
        lo = z if s.I.lt(z, lo) else lo
        hi = z if s.I.lt(hi, z) else hi
    s.check(s.I.prim_eq(s.get(r, "lower_bound"), lo) and s.I.prim_eq(s.get(r, "upper_bound"), hi),
            "union over several units", f"{s.get(r, 'lower_bound')!r} {s.get(r, 'upper_bound')!r}")


def incompatible(s, cls, u, v):
    a, ma = make(s, "RealBounds", "a", units=u)
    b, mb = make(s, cls, "b", units=v)
    rec = freeze(s, [a, b])
    r = s.attempt(s.m, a, "contains", b)
    s.ok(r, "incompatible units are answered", f"{u} {v}")
    s.check(r.value is False, "incompatible units are never contained", f"{u} {v}: {r.value!r}")
    for how in ("union", "update"):
        r = s.attempt(s.m, a, how, b)
        s.raises(r, ("TypeError", "ValueError"), f"{how} over incompatible units is refused",
                 f"{u} {v}")
        d = thawed(s, rec)
        s.check(d is None, "a refusal changes nothing", str(d))


def degenerate(s, cls, u, v):
    """Bounds of a single point, zero included, in incompatible units."""
    x = s.choose("limit", ["any", 0, 0.0, 1.0])
    if x == "any":
        x = s.float("x")
    y = s.choose("operand", ["any", 0, 0.0, 1.0])
    if y == "any":
        y = s.float("y")
    a = s.new("RealBounds", x, x, u)
    b = point(s, cls, y, v)
    rec = freeze(s, [a, b])
    r = s.attempt(s.m, a, "contains", b)
    s.ok(r, "incompatible units are answered", f"{u} {v}")
    s.check(r.value is False, "incompatible units are never contained",
            f"{x!r} {u}, {y!r} {v}: {r.value!r}")
    for how in ("union", "update"):
        r = s.attempt(s.m, a, how, b)
        s.raises(r, ("TypeError", "ValueError"), f"{how} over incompatible units is refused",
                 f"{x!r} {u}, {y!r} {v}")
        d = thawed(s, rec)
        s.check(d is None, "a refusal changes nothing", str(d))


def point(s, cls, y, v):
    return s.new(cls, y, v) if cls == "NominalReal" else s.new(cls, y, y, v)


# zero in the first unit, in the second
ZERO = {("degC", "K"): 273.15, ("K", "degC"): -273.15, ("degC", "degF"): 32.0, ("m", "cm"): 0.0,
        ("degF", "K"): 255.3722222222222, ("percent", ""): 0.0}


def zeros(s, cls, u, v):
    """A limit of zero is a magnitude like any other: in an offset unit it is not zero."""
    z = ZERO[u, v]
    at = s.choose("operand", ["zero", "same point", "above", "below"])
    y = {"zero": 0.0, "same point": z, "above": z + 0.5, "below": z - 0.5}[at]
    x = s.choose("limit", [0, 0.0])
    a = s.new("RealBounds", x, x, u)
    b = point(s, cls, y, v)
    if at == "same point" and z:
        s.done()           # rounding decides
    got = s.I.truth(s.m(a, "contains", b))
    s.check(got == (y == z), "a point at zero is converted", f"0 {u} and {y} {v}: {got}")
    wide = s.new("RealBounds", -1, 0, u)
    got = s.I.truth(s.m(wide, "contains", b))
    want = (y <= z and y >= z - 1 * {"degF": 5 / 9, "m": 100, "percent": 0.01}.get(u, 1)
            * (1.8 if v == "degF" else 1))
    s.check(got == want, "a limit at zero is converted", f"-1..0 {u} and {y} {v}: {got}")


def checked(s, u, v):
    """The same through an attribute and its template."""
    from rules.c09 import set_level
    set_level(s, "FATAL")
    t = s.new("PropertyTemplate", s.str("t"), bounds=make(s, "RealBounds", "a", units=u)[0])
    bd = s.get(t, "bounds")
    lo, hi = s.get(bd, "lower_bound"), s.get(bd, "upper_bound")
    b, mb = make(s, "NominalReal", "b", units=v)
    want = le(s, lo, u, mb[1], v) and le(s, conv(s, mb[1], v, u), u, hi, u)
    r = s.attempt(lambda: s.new("Property", s.str("n"), template=t, value=b))
    s.check(r.ok == want, "an attribute value is checked in common units", f"{r!r} {want}")


def concrete(s):
    for lo, hi, u, x, v, want in (
            (0, 1, "m", 50, "cm", True), (0, 1, "m", 150, "cm", False),
            (0, 1, "cm", 0.5, "m", False), (0, 100, "degC", 300, "K", True),
            (0, 100, "degC", 50, "K", False), (200, 300, "K", 0, "degC", True),
            (0, 1, "kg", 500, "g", True), (0, 1, "", 0.5, "", True), (0, 2, "hr", 90, "min", True),
            (32, 212, "degF", 50, "degC", True), (32, 212, "degF", 150, "degC", False)):
        b = s.new("RealBounds", lo, hi, u)
        got = s.I.truth(s.m(b, "contains", s.new("NominalReal", x, v)))
        s.check(got == want, "containment of plain numbers", f"{x} {v} in {lo}..{hi} {u}: {got}")


def run(r):
    for u, v in PAIRS:
        for cls in OPERANDS:
            r.scenario(f"contains {cls} {u} {v}", containment, cls, u, v)
            r.scenario(f"union {cls} {u} {v}", union, cls, u, v)
            if u != v:
                r.scenario(f"units changed {cls} {u} {v}", units_changed, cls, u, v)
        r.scenario(f"attribute {u} {v}", checked, u, v)
    for u, v in INCOMPATIBLE:
        for cls in OPERANDS:
            r.scenario(f"incompatible {cls} {u} {v}", incompatible, cls, u, v)
        for cls in ("RealBounds", "NominalReal", "UniformReal"):
            r.scenario(f"incompatible points {cls} {u} {v}", degenerate, cls, u, v)
    for u, v in ZERO:
        for cls in ("RealBounds", "NominalReal", "UniformReal"):
            r.scenario(f"zero {cls} {u} {v}", zeros, cls, u, v)
    r.scenario("three units", two, "m", "cm", "km")
    r.scenario("three temperatures", two, "K", "degC", "degF")
    r.scenario("numbers", concrete)
