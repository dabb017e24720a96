"""C21: ranges in object templates stay within the attribute template's own bounds."""
from gsa.core import Slice
from rules.catalog import assume
from rules.common import entity, link
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Every template list of every object template, through construction, assignment and every "
        "list operation, is given each entry form (bare template, pair, list, links, single pair, "
        "malformed) with symbolic limits of template bounds and range; the outcome is compared "
        "with inclusion decided in the order domain, and what is read back with what was given.",
    "assumptions": ["at most two other entries in the list", "real and categorical bounds stand "
                    "for all kinds (containment itself is C11)"],
    "min_scenarios": 40,
}
LISTS = (("ProcessTemplate", "conditions"), ("ProcessTemplate", "parameters"),
         ("MaterialTemplate", "properties"), ("MeasurementTemplate", "properties"),
         ("MeasurementTemplate", "conditions"), ("MeasurementTemplate", "parameters"))
KIND = {"conditions": "ConditionTemplate", "parameters": "ParameterTemplate",
        "properties": "PropertyTemplate"}
OPS = ("construct", "assign", "single", "append", "extend", "insert", "setitem", "slice", "iadd",
       "generator")
FORMS = ("bare", "pair none", "pair", "list", "link", "link pair", "link none", "reversed",
         "triple", "wrong second", "wrong first", "other kind", "bounds only", "opaque", "text",
         "triple inside", "alone", "none", "two templates")


def ranged(s, kind):
    """(template, bounds, within?)"""
    lo, hi, a, b = s.float("lo"), s.float("hi"), s.float("a"), s.float("b")
    assume(s, not s.I.lt(hi, lo) and not s.I.lt(b, a))
    t = s.new(kind, s.str("t"), bounds=s.new("RealBounds", lo, hi, "m"))
    return t, s.new("RealBounds", a, b, "m"), not s.I.lt(a, lo) and not s.I.lt(hi, b)


def entry(s, form, kind):
    """(value given, expected pair or None when it must be refused)."""
    if form in ("pair", "list"):
        t, b, good = ranged(s, kind)
        return (s.tuple(t, b) if form == "pair" else s.list(t, b)), [t, b] if good else None
    t = s.new(kind, s.str("t"), bounds=s.new("RealBounds", 0, 10, "m"))
    b = s.new("RealBounds", 20, 50, "m")       # outside: a link's bounds are not known
    lk = link(s)
    return {
        "bare": lambda: (t, [t, None]), "pair none": lambda: (s.tuple(t, None), [t, None]),
        "link": lambda: (lk, [lk, None]), "link pair": lambda: (s.tuple(lk, b), [lk, b]),
        "link none": lambda: (s.list(lk, None), [lk, None]),
        "reversed": lambda: (s.tuple(b, t), None), "triple": lambda: (s.tuple(t, b, b), None),
        "wrong second": lambda: (s.tuple(t, s.opaque()), None),
        "wrong first": lambda: (s.tuple(s.opaque(), b), None),
        "other kind": lambda: (s.tuple(t, s.new("CategoricalBounds", s.list(s.str("c")))), None),
        "bounds only": lambda: (b, None), "opaque": lambda: (s.opaque(), None),
        "triple inside": lambda: (s.tuple(t, s.new("RealBounds", 1, 5, "m"), None), None),
        "alone": lambda: (s.list(t), None), "none": lambda: (None, None),
        "two templates": lambda: (s.tuple(t, t), None),
        "text": lambda: (s.str("text"), None)}[form]()


def content(s, v):
    return [s.items(x) for x in s.items(v)]


def equal(s, got, want):
    return len(got) == len(want) and all(
        len(x) == 2 and all(p is q for p, q in zip(x, y)) for x, y in zip(got, want))


def put(s, tcls, f, op, form):
    kind = KIND[f]
    v, want = entry(s, form, kind)
    base = [s.new(kind, s.str("b1"), bounds=s.new("IntegerBounds", 0, 9)),
            s.new(kind, s.str("b2"), bounds=s.new("IntegerBounds", 0, 9))]
    rng = s.new("IntegerBounds", 1, 5)
    start = [[base[0], None], [base[1], rng]]
    first = s.list(base[0], s.list(base[1], rng))
    key = f"{tcls}.{f}"
    if op == "construct":
        r = s.try_new(tcls, s.str("n"), **{f: s.list(base[0], v)})
        if want is None:
            s.raises(r, ("ValueError", "TypeError"), f"{key}: an illegal entry is refused",
                     f"{op} {form}")
        else:
            o = s.ok(r, f"{key}: a legal entry is accepted", f"{op} {form}")
            s.check(equal(s, content(s, s.get(o, f)), [[base[0], None], want]),
                    f"{key}: entries read back as template and optional bounds",
                    f"{op} {form}: {content(s, s.get(o, f))!r}", o=o)
        return
    o = s.new(tcls, s.str("n"), **{f: first})
    s.check(equal(s, content(s, s.get(o, f)), start), f"{key}: entries read back as template and "
            "optional bounds", f"{content(s, s.get(o, f))!r}", o=o)
    rec = freeze(s, [o] + base)
    lst = s.get(o, f)
    if op == "single":
        if form in ("text", "triple", "triple inside", "reversed", "pair none", "link none",
                    "alone", "none", "two templates") or "wrong" in form:
            s.done()              # a single iterable may also be read as a list of entries
        r, after = s.try_put(o, f, v), [want]
    elif op == "assign":
        r, after = s.try_put(o, f, s.list(v, base[0])), [want, start[0]]
    elif op == "generator":
        r, after = s.try_put(o, f, s.generator(base[0], v)), [start[0], want]
    elif op == "append":
        r, after = s.attempt(s.m, lst, "append", v), start + [want]
    elif op == "extend":
        r, after = s.attempt(s.m, lst, "extend", s.list(base[0], v)), start + [start[0], want]
    elif op == "insert":
        r, after = s.attempt(s.m, lst, "insert", 1, v), [start[0], want, start[1]]
    elif op == "setitem":
        r, after = s.attempt(s.I.setitem, lst, 0, v), [want, start[1]]
    elif op == "slice":
        r, after = s.attempt(s.I.setitem, lst, Slice(0, 1, None), s.list(v)), [want, start[1]]
    else:
        import ast
        r, after = s.attempt(s.I.inplace, ast.Add(), lst, s.list(v)), start + [want]
    if want is None:
        s.raises(r, ("ValueError", "TypeError"), f"{key}: an illegal entry is refused",
                 f"{op} {form}")
        d = thawed(s, rec)
        s.check(d is None, f"{key}: a refused entry changes nothing", f"{op} {form}: {d}")
        return
    s.ok(r, f"{key}: a legal entry is accepted", f"{op} {form}")
    got = content(s, s.get(o, f))
    s.check(equal(s, got, after), f"{key}: entries read back as template and optional bounds",
            f"{op} {form}: {got!r}", o=o)
    d = thawed(s, freeze(s, base))
    s.check(d is None, f"{key}: the attribute templates are unchanged", str(d))


def run(r):
    for tcls, f in LISTS:
        for op in OPS:
            def scen(s, tcls=tcls, f=f, op=op):
                put(s, tcls, f, op, s.choose("entry", FORMS))
            r.scenario(f"{tcls}.{f} {op}", scen)
