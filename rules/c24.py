"""C24: enumerations and the fields that hold their members."""
from gsa.core import ClassVal, Obj
from rules.catalog import ATTRIBUTES, ORIGINS, SAMPLE_TYPES
from rules.common import entity

INFO = {
    "explanation":
        "from_str, the class call and the enumerated fields are interpreted for every member of "
        "every enumeration, in several spellings of its value and synonyms, and for near misses; "
        "client-defined enumerations exercise synonyms, clashes in every position, non-strings and "
        "renamed members. Every enumeration found in the package is checked for clashes.",
    "assumptions": ["spellings are drawn from lower, upper, title and mixed case and padding"],
    "min_scenarios": 10,
}
BASE = "gemd.enumeration.base_enumeration."
NEAR = ("", " ", "_unknown", "unknown_", "pro duction", "pro_duction", "pre-dicted", "computed.",
        "no_such_choice", "unknow", "unknown2", "un known", "None", "measured,unknown",
        "0", "origin.unknown")
KNOWN = {"Origin": ORIGINS, "SampleType": SAMPLE_TYPES}


def spellings(v):
    out = [v, v.lower(), v.upper(), v.title(), v.swapcase(), " " + v, v + "\t", "\n" + v.upper() +
           "  "]
    return list(dict.fromkeys(out))


def classes(s):
    base = s.cls(BASE + "BaseEnumeration")
    out = {}
    for m in s.I.modules.values():
        for v in list(m.ns.values()):
            if isinstance(v, ClassVal) and v is not base and v.issub(base):
                out[v.name] = v
    return out


def members(s, c):
    return s.items(c)


def val(s, m):
    return s.I.strval(s.get(m, "value"))


def lookup(s, name):
    c = classes(s).get(name)
    if c is None:
        s.done()
    ms = members(s, c)
    names = [val(s, m) for m in ms]
    if name in KNOWN:
        s.check(sorted(names) == sorted(KNOWN[name]), f"{name} has its documented members",
                f"{names!r}")
    m = s.choose("member", ms)
    words = [val(s, m)] + [s.I.strval(x) for x in s.items(s.get(m, "synonyms"))]
    w = s.choose("word", [m] + [x for y in words for x in spellings(y)])
    how = s.choose("how", ["from_str", "strict", "call"])
    r = attempt(s, c, w, how)
    s.ok(r, f"{name} knows every member in any spelling", f"{how} {w!r}")
    s.check(r.value is m, f"{name} turns every spelling into its member",
            f"{how}({w!r}) is {r.value!r}, not {m!r}")
    s.check(s.eq(m, val(s, m)) and s.same(s.I.strval(s.I.call(s.I.builtins["str"], [m], {})),
                                          val(s, m)),
            f"{name} members equal and print as their values", repr(m))
    others = [x for x in ms if x is not m]
    s.check(not any(s.eq(x, val(s, m)) for x in others), f"{name} members are distinct", repr(m))


def attempt(s, c, w, how):
    if how == "call":
        return s.attempt(s.I.call, c, [w], {})
    if how == "lax":
        return s.attempt(s.m, c, "from_str", w, exception=False)
    return s.attempt(s.m, c, "from_str", w, **({"exception": True} if how == "strict" else {}))


def miss(s, name):
    c = classes(s).get(name)
    if c is None:
        s.done()
    w = s.choose("word", NEAR + (None,))
    how = s.choose("how", ["from_str", "lax", "strict", "call"])
    r = attempt(s, c, w, how)
    if how in ("strict", "call"):
        s.raises(r, ("ValueError",), f"{name} refuses other words", f"{how} {w!r}")
    else:
        s.ok(r, f"{name}.from_str gives None for other words", f"{w!r}")
        s.check(r.value is None, f"{name}.from_str gives None for other words",
                f"{w!r} -> {r.value!r}")


def foreign(s, name):
    c = classes(s).get(name)
    if c is None:
        s.done()
    w = s.choose("what", [5, 0, True, s.opaque(), s.list("unknown"), s.tuple("unknown")])
    how = s.choose("how", ["strict", "call", "from_str"])
    s.raises(attempt(s, c, w, how), ("ValueError", "TypeError"), f"{name} refuses other objects",
             f"{how} {w!r}")


def field(s, cls, f):
    names = ORIGINS if f == "origin" else SAMPLE_TYPES
    E = s.cls("Origin" if f == "origin" else "SampleType")
    v = s.choose("member", list(names))
    m = next(x for x in members(s, E) if val(s, x) == v)
    w = s.choose("given", [m] + spellings(v))
    o = s.new(cls, s.str("n"), **({f: w} if s.flag("constructor") else {}))
    if s.get(o, f) is not m:
        s.put(o, f, w)
    s.check(s.get(o, f) is m, f"{cls}.{f} holds the member", f"{w!r} gave {s.get(o, f)!r}", o=o)
    d = s.m(o, "as_dict") if s.flag("as_dict") else s.m(o, "dump")
    x = next(y for k, y in s.I.mapping_items(d) if s.I.strval(k) == f)
    s.check(s.I.strval(x) == v, f"{cls}.{f} is saved as its value", f"{x!r}")
    back = s.do("gemd.json.loads", s.do("gemd.json.dumps", o))
    s.check(s.get(back, f) is m, f"{cls}.{f} is loaded as the member", f"{s.get(back, f)!r}")
    if cls == "Property":
        pc = s.new("PropertyAndConditions", property=o)
        s.check(s.get(pc, f) is m, "PropertyAndConditions.origin is its property's",
                f"{s.get(pc, f)!r}")


def field_refuses(s, cls, f):
    o = s.new(cls, s.str("n"))
    names = ORIGINS if f == "origin" else SAMPLE_TYPES
    before = s.put(o, f, s.choose("before", list(names)[:2])) or s.get(o, f)
    w = s.choose("given", NEAR + (None, 5, s.opaque()))
    r = s.try_put(o, f, w)
    s.raises(r, ("ValueError", "TypeError"), f"{cls}.{f} refuses other words", f"{w!r}")
    s.check(s.get(o, f) is before, f"{cls}.{f} keeps its member on refusal",
            f"{s.get(o, f)!r}")


def defaults(s):
    c, f = s.choose("class", [(a, "origin") for a in ATTRIBUTES] + [("MaterialRun",
                                                                      "sample_type")])
    o = s.new(c, s.str("n"))
    s.check(isinstance(s.get(o, f), Obj) and val(s, s.get(o, f)) == "unknown",
            f"{c}.{f} is unknown by default", f"{s.get(o, f)!r}")


FRUIT = '''
class Fruits(Base):
    APPLE = "Apple"
    AVOCADO = "Avocado", "Alligator Pear", "AHUACATE"
    FIG = "fig", "1"
'''


def synonyms(s):
    c = s.client(FRUIT, Base=s.cls(BASE + "BaseEnumeration"))["Fruits"]
    table = {"APPLE": ["Apple"], "AVOCADO": ["Avocado", "Alligator Pear", "AHUACATE"],
             "FIG": ["fig", "1"]}
    k = s.choose("member", list(table))
    m = s.get(c, k)
    w = s.choose("word", [x for y in table[k] for x in spellings(y)])
    how = s.choose("how", ["from_str", "lax", "strict", "call"])
    r = attempt(s, c, w, how)
    s.ok(r, "a synonym in any spelling is known", f"{how} {w!r}")
    s.check(r.value is m, "a synonym in any spelling gives its member", f"{w!r} -> {r.value!r}")
    s.check(val(s, m) == table[k][0] and s.eq(m, table[k][0]),
            "the first string is the member's value", f"{val(s, m)!r}")
    s.check(s.I.strval(s.I.call(s.I.builtins["str"], [m], {})) == table[k][0],
            "a member prints as its value", repr(m))
    for x in table[k][1:]:
        s.check(not s.eq(m, x), "a member does not equal its synonym", f"{m!r} == {x!r}")
    got = sorted(s.I.strval(x) for x in s.items(s.get(m, "synonyms")))
    s.check(got == sorted(table[k][1:]), "the synonyms are listed", f"{got!r}")


SPACED = '''
class Spaced(Base):
    PEAR = "red pear", "snow_pear", "sun-pear", "p.e.a.r"
    FIG = "fig", "naïve", "F16"
    MAX = "none", "straße"
'''
CLOSE = ("red_pear", "red-pear", "redpear", "red  pear", "red pears", "red", "pear", "ed pear",
         "snow pear", "snow-pear", "snowpear", "sun pear", "sun_pear", "p e a r", "pear.",
         "'fig'", '"fig"', "fig,", "fig;", "naive", "F-16", "F 16", "F1", "16", "figfig", "PEAR!",
         "spaced.fig", "Spaced.FIG", "FIG = fig", "pear red", "red pear fig", "no ne", "max",
         "strase", "red\tpear", "red\npear", "figs", "MAX", "", "  ")


def close(s):
    """Words that look like one of the words but are none."""
    c = s.client(SPACED, Base=s.cls(BASE + "BaseEnumeration"))["Spaced"]
    w = s.choose("word", CLOSE)
    how = s.choose("how", ["from_str", "lax", "strict", "call"])
    r = attempt(s, c, w, how)
    if how in ("strict", "call"):
        s.raises(r, ("ValueError",), "a word that only looks alike is refused", f"{how} {w!r}")
    else:
        s.ok(r, "from_str gives None for a word that only looks alike", f"{w!r}")
        s.check(r.value is None, "from_str gives None for a word that only looks alike",
                f"{w!r} -> {r.value!r}")


def clash(s):
    new = s.choose("second", ['"APPLE"', '"fig", "apple"', '"fig", "other", "Apple"',
                              '"pomme"', '"fig", "POMME"', '" apple "', '"fig", " Pomme"', '5',
                              '"fig", 5', 'None', '"fig", None'])
    src = f'class E(Base):\n    A = "Apple", "Pomme"\n    B = {new}\n'
    r = s.attempt(s.client, src, Base=s.cls(BASE + "BaseEnumeration"))
    s.raises(r, ("ValueError", "TypeError"), "no string may name two members and all are strings",
             new)


def no_clash(s):
    new = s.choose("second", ['"pear"', '"fig", "apples"', '"appl"'])
    src = f'class E(Base):\n    A = "Apple", "Pomme"\n    B = {new}\n'
    s.ok(s.attempt(s.client, src, Base=s.cls(BASE + "BaseEnumeration")),
         "members with different words are accepted", new)


def migrated(s):
    c = s.client('''
@migrated_enum(old_value="UNO", new_value="ONE", deprecated_in="1.9.9", removed_in="2.0.0")
class E(Base):
    ONE = "One", "1"
    TWO = "Two", "2"
''', Base=s.cls(BASE + "BaseEnumeration"), migrated_enum=s.cls(BASE + "migrated_enum"))["E"]
    s.clear_events()
    how = s.choose("how", ["attribute", "item", "new item", "new attribute", "bad item", "word"])
    if how == "bad item":
        s.raises(s.attempt(s.I.getitem, c, s.choose("name", ["TRES", "uno", "one"])), ("KeyError",), "an unknown name is refused", "")
        return
    r = s.attempt(s.get, c, "UNO" if how == "attribute" else "TWO") if "attribute" in how else \
        s.attempt(s.m, c, "from_str", "two") if how == "word" else \
        s.attempt(s.I.getitem, c, "UNO" if how == "item" else "TWO")
    s.ok(r, "old and new names of a renamed member work", how)
    old = how in ("attribute", "item")
    s.check(val(s, r.value) == ("One" if old else "Two"),
            "the old name of a renamed member gives the member", f"{how}: {r.value!r}")
    warned = [e for e in s.I.events if e[0] == "warn"]
    s.check(bool(warned) == old, "only the old name warns", f"{how}: {warned!r}")
    s.check(not any(e[0] == "print" for e in s.I.events), "renaming prints nothing", how)


def run(r):
    for n in KNOWN:
        r.scenario(f"{n} lookup", lookup, n, max_paths=20000)
        r.scenario(f"{n} near misses", miss, n)
        r.scenario(f"{n} foreign", foreign, n)
    r.scenario("MaterialRun.sample_type", field, "MaterialRun", "sample_type", max_paths=20000)
    r.scenario("MaterialRun.sample_type refuses", field_refuses, "MaterialRun", "sample_type")
    for a in ATTRIBUTES:
        r.scenario(f"{a}.origin", field, a, "origin", max_paths=20000)
        r.scenario(f"{a}.origin refuses", field_refuses, a, "origin")
    r.scenario("defaults", defaults)
    r.scenario("synonyms", synonyms)
    r.scenario("close words", close)
    r.scenario("clashes", clash)
    r.scenario("no clash", no_clash)
    r.scenario("renamed members", migrated)
