"""C25: containers given to or taken from objects are not shared."""
from gsa.core import Obj
from rules.catalog import ATTRIBUTES, ENTITIES, FIELDS, argument, build, required
from rules.common import entity
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "For every container-valued field of every class, the container is given to a constructor, "
        "a setter, from_dict, or taken over from another object; it and its inner lists are then "
        "changed in several ways and the objects compared with what they were; then one object's "
        "field is changed and the other object and the container are compared. Likewise for "
        "default containers, dumped dictionaries and dictionaries used to build objects.",
    "assumptions": ["containers of two elements"],
    "min_scenarios": 60,
}
LISTY = ("tags", "labels", "file_links", "properties", "conditions", "parameters", "allowed_names",
         "allowed_labels", "uids", "categories", "components", "quantities", "probabilities")
CLASSES = ENTITIES + ATTRIBUTES + ("PropertyAndConditions", "CategoricalBounds",
                                   "CompositionBounds", "NominalComposition",
                                   "DiscreteCategorical")
PAIRS = [(c, f) for c in CLASSES for f in FIELDS[c] if f in LISTY
         and not (c == "IngredientRun" and f == "labels")]


def given(s, cls, f):
    """A container the caller may keep, and an element that may be added to it."""
    if f in ("categories", "components"):
        xs = [s.str("x"), s.str("y")]
        return (s.set(*xs) if s.flag("as set") else s.list(*xs)), s.str("new")
    if f == "quantities":
        return s.dict((s.str("k"), 0.25), (s.str("q"), 0.75)), (s.str("new"), 0.5)
    if f == "probabilities":
        return s.dict((s.str("k"), 0.25), (s.str("q"), 0.75)), (s.str("new"), 0.0)
    c = argument(s, cls, f, False)
    if f == "uids":
        return c, (s.str("newscope"), s.str("newid"))
    return c, s.items(c)[0]


def make(s, cls, f, v):
    kw = {x: argument(s, cls, x, False) for x in required(cls) if x != f} \
        if cls in ENTITIES + ATTRIBUTES + ("PropertyAndConditions",) else {}
    return s.new(cls, **kw, **{f: v})


def content(s, v):
    if s.I.is_mapping(v):
        return list(s.I.mapping_items(v))
    return [(x, list(x.p) if isinstance(x, Obj) and isinstance(x.p, list) else None)
            for x in s.items(v)]


def same_content(s, v, old):
    now = content(s, v)
    if s.I.is_setlike(v):
        return len(now) == len(old) and all(any(s.same(a, x) for x, _ in now) for a, _ in old)
    return len(now) == len(old) and all(
        (a is x or s.same(a, x)) and
        (b is y or s.same(b, y) if not isinstance(b, list) else
         len(b) == len(y) and all(p is q for p, q in zip(b, y)))
        for (a, b), (x, y) in zip(old, now))


def mutate(s, v, extra, how):
    """Change a container the way its owner may."""
    if s.I.is_mapping(v):
        if how == "clear":
            s.m(v, "clear")
        elif how == "add":
            s.I.setitem(v, extra[0], extra[1])
        else:
            s.I.delitem(v, list(s.I.mapping_items(v))[0][0])
    elif s.I.is_setlike(v):
        if how == "clear":
            s.m(v, "clear")
        elif how == "add":
            s.m(v, "add", extra)
        else:
            s.m(v, "discard", s.items(v)[0])
    elif how == "clear":
        s.m(v, "clear")
    elif how == "add":
        s.m(v, "append", extra)
    else:
        s.I.delitem(v, 0)


def isolated(s, cls, f):
    c, extra = given(s, cls, f)
    via = s.choose("via", ["constructor", "setter", "setter again", "from_dict",
                           "other object"])
    if f not in ("quantities", "probabilities") and s.flag("empty"):
        s.m(c, "clear")
    a = make(s, cls, f, c)
    if via == "constructor":
        b = make(s, cls, f, c)
    elif via == "setter":
        b = make(s, cls, f, given(s, cls, f)[0])
        s.put(b, f, c)
    elif via == "setter again":
        b = make(s, cls, f, c)
        s.put(b, f, c)
        s.put(b, f, c)
    elif via == "from_dict":
        d = s.m(a, "as_dict")
        s.I.setitem(d, f, c)
        b = s.m(s.cls(cls), "from_dict", d)
    else:
        b = make(s, cls, f, s.get(a, f))
    rec = freeze(s, [a, b])
    who = s.choose("changed", ["the caller's", "the first object's", "the second object's"] +
                   (["an inner list"] if any(isinstance(z, Obj) and isinstance(z.p, list)
                                             for z in s.items(c)) else []))
    how = s.choose("how", ["add", "remove", "clear"] if s.items(c) else ["add"])
    if who == "an inner list":
        z = next(z for z in s.items(c) if isinstance(z, Obj) and isinstance(z.p, list))
        if how == "add":
            s.I.setitem(z, 1, None)
        elif how == "remove":
            s.I.delitem(z, 1)
        else:
            s.m(z, "clear")
        d = thawed(s, rec)
        s.check(d is None, f"{cls}.{f}: changing what was given does not change the object",
                f"{via}: {d}")
    elif who == "the caller's":
        mutate(s, c, extra, how)
        d = thawed(s, rec)
        s.check(d is None, f"{cls}.{f}: changing what was given does not change the object",
                f"{via}: {d}")
    else:
        o, other = (a, b) if who == "the first object's" else (b, a)
        v = s.get(o, f)
        if not (isinstance(v, Obj) or s.I.is_mapping(v)) or isinstance(v, Obj) and \
                not (isinstance(v.p, (list,)) or s.I.is_mapping(v) or s.I.is_setlike(v)):
            s.done()
        old = content(s, c)
        r = s.attempt(mutate, s, v, extra, how)      # an object may refuse to be changed
        rec2 = [t for t in rec if t[0] is other]
        d = thawed(s, rec2)
        s.check(d is None, f"{cls}.{f}: changing one object does not change another",
                f"{via}: {d}")
        s.check(same_content(s, c, old), f"{cls}.{f}: changing the object does not change what "
                "was given", f"{via}: {old!r} -> {content(s, c)!r}")


def default(s, cls, f):
    """Default containers belong to one object."""
    if f in required(cls):
        s.done()

    def fresh():
        return build(s, cls, ())[0]
    a, b = fresh(), fresh()
    if s.flag("explicit None"):
        s.put(a, f, None)
        s.put(b, f, None)
    v = s.get(a, f)
    if not isinstance(v, Obj) or s.tname(v) in ("frozenset", "tuple"):
        s.done()
    s.check(v is not s.get(b, f), f"{cls}.{f}: defaults are not shared", "same container")
    extra = given(s, cls, f)[1]
    s.check(not content(s, v), f"{cls}.{f}: defaults are empty", f"{content(s, v)!r}")
    mutate(s, v, extra, "add")
    s.check(len(content(s, s.get(a, f))) == 1, f"{cls}.{f} can be added to",
            f"{content(s, s.get(a, f))!r}")
    for o in (b, fresh()):
        s.check(not content(s, s.get(o, f)), f"{cls}.{f}: defaults are not shared",
                f"{content(s, s.get(o, f))!r} after changing another object")


def containers(s, v, out):
    if s.I.is_mapping(v):
        out.append(v)
        for _, x in s.I.mapping_items(v):
            containers(s, x, out)
    elif isinstance(v, Obj) and isinstance(v.p, list):
        out.append(v)
        for x in v.p:
            containers(s, x, out)
    return out


def dumped(s, cls):
    o, _ = build(s, cls, None, True)
    known = [o] if cls in FIELDS else []
    rec = freeze(s, known)
    d = s.m(o, "dump")
    e = s.m(o, "dump")
    s.check(d is not e, f"{cls}: each dump is a new dictionary", "")
    cs = containers(s, d, [])
    snap = [(c, content(s, c)) for c in containers(s, e, [])]
    s.check(not any(x is y for x in cs for y, _ in snap), f"{cls}: dumps share nothing", "")
    for c in reversed(cs):
        s.m(c, "clear")
    x = thawed(s, rec)
    s.check(x is None, f"{cls}: changing a dump does not change the object", str(x))
    s.check(all(same_content(s, c, old) for c, old in snap), f"{cls}: dumps share nothing", "")
    back = s.m(s.cls("DictSerializable"), "build", e)
    rec = freeze(s, [back])
    for c in reversed(containers(s, e, [])):
        s.m(c, "clear")
    x = thawed(s, rec)
    s.check(x is None, f"{cls}: changing the dictionary does not change what was built from it",
            str(x))


def mapping(s):
    D = s.cls("gemd.entity.dict_serializable.DictSerializable")
    a = s.get(D, "class_mapping")
    n = len(content(s, a))
    s.m(a, "clear")
    s.check(len(content(s, s.get(D, "class_mapping"))) == n > 20,
            "the class mapping handed out is a copy", f"{n}")
    o = entity(s, "ProcessSpec")
    d = s.m(o, "as_dict")
    s.m(d, "clear")
    s.check(len(content(s, s.m(o, "as_dict"))) > 5 and s.get(o, "name") is not None,
            "emptying an as_dict mapping leaves the object", "")


def run(r):
    for c, f in PAIRS:
        r.scenario(f"{c}.{f}", isolated, c, f)
        if f not in ("categories", "components", "quantities", "probabilities"):
            r.scenario(f"{c}.{f} default", default, c, f)
    for c in FIELDS:
        r.scenario(f"{c} dumped", dumped, c)
    r.scenario("class mapping", mapping)
