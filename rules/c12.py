"""C12: union and update of bounds."""
import itertools

from rules.bnds import KINDS, OF, SETS, FIELDS, hull, make, matches, universe
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "union and update are interpreted for every kind of bounds with zero, one and two (three "
        "when thorough) further operands, bounds or values of every class, with symbolic limits "
        "in every relative order or every choice of member subsets; the result is compared with "
        "the least covering set, operands are compared before and after, and operands of another "
        "kind or with other dimensions are tried in every position.",
    "assumptions": ["magnitudes in a dense total order", "member sets drawn from 3 (4) names"],
}
FEW = {"RealBounds": ("RealBounds", "UniformReal", "NominalReal"),
       "IntegerBounds": ("IntegerBounds", "UniformInteger"),
       "CategoricalBounds": ("CategoricalBounds", "NominalCategorical"),
       "CompositionBounds": ("CompositionBounds", "NominalComposition"),
       "MolecularStructureBounds": ("MolecularStructureBounds", "Smiles")}


def operation(s, x, args):
    """Apply union or update; returns (result attempt, resulting bounds)."""
    if s.choose("operation", ["union", "update"]) == "union":
        r = s.attempt(s.m, x, "union", *args)
        return "union", r, r.value
    r = s.attempt(s.m, x, "update", *args)
    return "update", r, x


def good(s, a, bs):
    u = universe(s, a, "EmpiricalFormula" if "EmpiricalFormula" in bs else None)
    x, mx = make(s, a, "a", u)
    ops, ms = [], [mx]
    for i, b in enumerate(bs):
        y, my = make(s, b, f"b{i}", u)
        ops.append(y)
        ms.append(my)
    recx, rec = freeze(s, [x]), freeze(s, ops)
    how, r, res = operation(s, x, ops)
    s.ok(r, f"{how} of {a} is defined", f"with {bs!r}")
    want = hull(s, ms)
    s.check(matches(s, res, want), f"{how} of {a} is the least cover",
            f"{ms!r} gave {res!r} with {[s.get(res, f) for f in FIELDS[a]]!r}, expected {want!r}")
    d = thawed(s, rec)
    s.check(d is None, f"{how} of {a} leaves its operands alone", str(d))
    if how == "union":
        d = thawed(s, recx)
        s.check(d is None, f"union of {a} leaves the receiver alone", str(d))
        s.check(not any(res is y for y in [x] + ops), f"union of {a} is a new object", "")
        if a in SETS:
            c = s.get(res, FIELDS[a][0])
            s.check(not any(s.tname(y) in SETS and s.get(y, FIELDS[s.tname(y)][0]) is c
                            for y in [x] + ops), f"union of {a} shares no container", "")
    if a == "RealBounds":
        s.check(s.I.prim_eq(s.get(res, "default_units"), "meter"),
                f"{how} of {a} keeps the units", f"{s.get(res, 'default_units')!r}")
    for y in ([x] if how == "union" else []) + ops:
        s.check(s.I.truth(s.m(res, "contains", y)), f"{how} of {a} contains every operand",
                f"{y!r}")


def many(s, a):
    """Any number of operands counts, wherever the widest one stands."""
    n = 9
    at = s.choose("widest at", [0, 4, 8])
    if a in ("RealBounds", "IntegerBounds"):
        def mk(lo, hi):
            return s.new(a, lo, hi, "m") if a == "RealBounds" else s.new(a, lo, hi)
        x = mk(0, 1)
        ops = [mk(-50, 70) if i == at else mk(-i, i + 1) for i in range(n)]
        how, r, res = operation(s, x, ops)
        s.ok(r, f"{how} of {a} is defined", f"{n} operands")
        got = (s.get(res, "lower_bound"), s.get(res, "upper_bound"))
        s.check(got == (-50, 70), f"{how} of {a} is the least cover",
                f"{n} operands, the widest at {at}: {got!r}")
        return
    f = FIELDS[a][0]
    names = [f"Name{i}" for i in range(n)]
    x = s.new(a, s.set("Own"))
    ops = [s.new(a, s.set(m, "Own")) for m in names]
    how, r, res = operation(s, x, ops)
    s.ok(r, f"{how} of {a} is defined", f"{n} operands")
    got = s.items(s.get(res, f))
    s.check(sorted(got) == sorted(names + ["Own"]), f"{how} of {a} is the least cover",
            f"{n} operands gave {got!r}")


def bad(s, a, b):
    """One operand of another kind, alone, first or last."""
    u = universe(s, a)
    if a in SETS:
        u = u[:2]
    x, mx = make(s, a, "a", u)
    if b == "units":
        cls = s.choose("operand", ["RealBounds", "NominalReal", "UniformReal"])
        wrong, _ = make(s, cls, "w", u, units="kg")
    elif b == "foreign":
        wrong = {"opaque": s.opaque, "text": lambda: s.str("t"), "int": lambda: 5,
                 "none": lambda: None, "list": lambda: s.list(make(s, a, "w", u)[0])}[
            s.choose("operand", ["opaque", "text", "int", "none", "list"])]()
    else:
        wrong, _ = make(s, b, "w", u)
    where = s.choose("position", ["alone", "first", "last"])
    args = [wrong]
    if where != "alone":
        y, _ = make(s, a, "b", u)
        args = [wrong, y] if where == "first" else [y, wrong]
    rec = freeze(s, [x] + [z for z in args if z is not wrong])
    how, r, _ = operation(s, x, args)
    s.raises(r, ("TypeError", "ValueError"), f"{how} of {a} refuses {b}", where)
    d = thawed(s, rec)
    s.check(d is None, f"a refused {how} of {a} changes nothing", str(d))


def run(r):
    for a in KINDS:
        mine = [b for b in KINDS + tuple(OF) if OF.get(b, b) == a]
        r.scenario(f"{a} alone", good, a, ())
        if a != "MolecularStructureBounds":
            r.scenario(f"{a} with many", many, a)
        for b in mine:
            r.scenario(f"{a} with {b}", good, a, (b,))
        for bs in itertools.product(FEW[a], repeat=2):
            r.scenario(f"{a} with {' '.join(bs)}", good, a, bs, max_paths=20000)
        if r.thorough:
            for bs in itertools.product(FEW[a], repeat=3):
                r.scenario(f"{a} with {' '.join(bs)}", good, a, bs, max_paths=60000)
        for b in KINDS + tuple(OF):
            if OF.get(b, b) != a:
                r.scenario(f"{a} refuses {b}", bad, a, b, max_paths=20000)
        r.scenario(f"{a} refuses foreign", bad, a, "foreign", max_paths=20000)
    r.scenario("RealBounds refuses units", bad, "RealBounds", "units")
