"""C35: a field means the same however it is given, and touches no other field."""
from gsa.core import Obj
from rules.catalog import (ATTRIBUTES, BOUNDS, ENTITIES, FIELDS, QUANT, VALUES, argument, build, differs,
                           optional, required, seq)
from rules.common import link
from rules.graphs import freeze, reachable, thawed

INFO = {
    "explanation":
        "Abstract interpretation of every field of every class given by constructor (by name and "
        "in the declared position), by assignment to a bare object and by assignment to a fully "
        "populated one, with links and with objects; the contents are compared field by field and "
        "a frame condition over the object and everything it refers to is decided for each "
        "assignment, for assigning what is already there and for clearing.",
    "assumptions": ["derived views follow the reference they are derived from (C01, C28, C34)"],
    "min_scenarios": 60, "min_sites": 0,
}
BIG = ATTRIBUTES + ("PropertyAndConditions",) + ENTITIES
# fields of other objects (or views of this one) that show the reference just assigned
SHOWN = ("ingredients", "output_material", "measurements")
VIEWS = {"spec": ("template", "name", "labels")}


TEXTS = ("name", "notes", "description")


def rich(s, cls, f, links):
    """An argument whose target, when it is an object, has content of its own."""
    v = argument(s, cls, f, links)
    if isinstance(v, Obj) and s.isa(v, "BaseEntity"):
        v, _ = build(s, s.tname(v), None, True)
    return v


def around(s, objs, extra=()):
    seen = []
    for o in objs:
        for x in (reachable(s, o) if s.isa(o, "BaseEntity") else [o]):
            if not any(x is y for y in seen):
                seen.append(x)
    return seen


class Record(list):
    held = ()


def record(s, o, objs):
    """The content of all objects, and the containers that o itself holds."""
    rec = Record(freeze(s, objs))
    rec.held = [(k, s.get(o, k)) for k in FIELDS[s.tname(o)]
                if isinstance(s.get(o, k), Obj) and (seq(s.get(o, k)) is not None
                                                     or s.I.is_mapping(s.get(o, k)))
                and s.get(o, k) is s.get(o, k)]
    return rec


def framed(s, o, f, rec, what):
    cls = s.tname(o)
    for (k, was) in rec.held if isinstance(rec, Record) else ():
        if k != f and not (f in VIEWS and k in VIEWS[f]):
            s.check(s.get(o, k) is was, "assigning a field changes no other field",
                    f"{what}: {k} is another container")
    mine = [r for r in rec if r[0] is o and r[1] != f and not (
        f in VIEWS and r[1] in VIEWS[f] and (cls == "IngredientRun" or r[1] == "template"))]
    d = thawed(s, mine)
    s.check(d is None, "assigning a field changes no other field", f"{what}: {d}")
    rest = [r for r in rec if r[0] is not o]
    d = thawed(s, rest, but=SHOWN if f in ("process", "material") else ())
    s.check(d is None, "assigning a field changes no other object's content", f"{what}: {d}")


def neighbours(s, v):
    if isinstance(v, Obj) and s.isa(v, "BaseEntity"):
        return [v]
    return []


def same_content(s, a, b, key, what):
    d = differs(s, a, b)
    s.check(d is None, key, f"{what}{d}")


def pairs(s, o, f, rec):
    """The record with the (template, bounds) pairs of the field compared by content."""
    out = []
    for x, k, (kind, c) in rec:
        if x is o and k == f and kind == "seq" and any(sub is not None for _, sub in c):
            now = s.get(o, f).p
            good = len(now) == len(c) and all(
                seq(y) is not None and len(seq(y)) == len(sub)
                and all(p is q for p, q in zip(sub, seq(y))) for (_, sub), y in zip(c, now))
            s.check(good, "assigning what is there changes nothing", f"{s.tname(o)}.{f}")
        else:
            out.append((x, k, (kind, c)))
    return out


def given(s, cls, links):
    """Constructor by name, constructor in position, assignment to a bare object."""
    f = s.choose("field", optional(cls))
    base = {k: rich(s, cls, k, links) for k in required(cls)}
    v = rich(s, cls, f, links)
    bare = s.new(cls, **base)
    rec = record(s, bare, around(s, [bare] + neighbours(s, v)))
    s.ok(s.try_put(bare, f, v), "what the constructor takes can be assigned", f"{cls}.{f}")
    framed(s, bare, f, rec, f"{cls}.{f}")
    content = s.get(bare, f)
    if f in ("process", "material", "spec", "template") and not links:
        s.check(content is v, "a reference reads back as given", f"{cls}.{f}")
        if f in ("process", "material"):
            s.put(bare, f, None)
    made = s.new(cls, **base, **{f: v})
    for k, x in list(base.items()) + [(f, v)]:
        if k in TEXTS:
            s.check(s.get(made, k) is x, "a text reads back as given", f"{cls}.{k}")
    same_content(s, s.get(made, f), content, "constructing and assigning give the same content",
                 f"{cls}.{f}")
    other = s.new(cls, **base)
    for k in optional(cls):
        if k != f:
            same_content(s, s.get(made, k), s.get(other, k),
                         "giving one field leaves the others at their defaults", f"{cls}.{k}")
    for k in required(cls):
        same_content(s, s.get(made, k), s.get(other, k),
                     "giving one field leaves the others as given", f"{cls}.{k}")


def replaced(s, cls, links):
    """Assignment over existing content, the same again, and clearing."""
    o, kw = build(s, cls, None, links)
    f = s.choose("field", list(FIELDS[cls]))
    v = rich(s, cls, f, s.flag("by links"))
    if f == "template" and cls in ATTRIBUTES:
        v = rich(s, cls, f, True)
    rec = record(s, o, around(s, [o] + neighbours(s, v)))
    s.ok(s.try_put(o, f, v), "a populated field can be assigned", f"{cls}.{f}")
    framed(s, o, f, rec, f"{cls}.{f}")
    if f not in ("process", "material"):
        fresh, _ = build(s, cls, (), True)
        s.put(fresh, f, v)
        same_content(s, s.get(fresh, f), s.get(o, f), "earlier content does not matter",
                     f"{cls}.{f}")
    s.check(s.get(o, f) is not None, "an assigned field is not empty", f"{cls}.{f}")
    rec = record(s, o, around(s, [o]))
    then = s.choose("then", ["same", "clear"])
    if then == "same":
        r = s.try_put(o, f, s.get(o, f))
        s.ok(r, "a field can be assigned what it has", f"{cls}.{f}")
        d = thawed(s, pairs(s, o, f, rec))
        s.check(d is None, "assigning what is there changes nothing", f"{cls}.{f}: {d}")
    elif f in optional(cls):
        r = s.try_put(o, f, None)
        framed(s, o, f, rec, f"{cls}.{f} = None")
        if r.ok:
            bare, _ = build(s, cls, (), True)
            same_content(s, s.get(bare, f), s.get(o, f),
                         "clearing a field is leaving it out", f"{cls}.{f}")


LISTS = ("tags", "labels", "allowed_names", "allowed_labels", "file_links", "properties",
         "conditions", "parameters")


def repeated(s, cls, f):
    """A list reads back element by element, repetitions and order included."""
    many = argument(s, cls, f, True)
    xs = seq(many)
    order = s.choose("elements", ["one", "twice", "reversed", "spread"])
    want = {"one": xs[:1], "twice": [xs[0], xs[0]], "reversed": xs[::-1],
            "spread": xs + xs[:1]}[order]
    base = {k: argument(s, cls, k, True) for k in required(cls) if k != f}
    given = {"list": s.list, "tuple": s.tuple}[s.choose("as", ["list", "tuple"])](*want)
    if s.flag("assigned"):
        o = s.new(cls, **base)
        s.put(o, f, given)
    else:
        o = s.new(cls, **base, **{f: given})
    got = seq(s.get(o, f))
    good = got is not None and len(got) == len(want) and all(
        x is y or seq(y) is not None and (seq(x)[0] if seq(x) is not None else x) is seq(y)[0]
        for x, y in zip(want, got))
    s.check(good, "a list reads back as given", f"{cls}.{f} {order}: {got!r} for {want!r}")


def accepted(s, cls, f):
    """The constructor and assignment agree on what they take."""
    base = {k: argument(s, cls, k, True) for k in required(cls) if k != f}
    label, make = s.choose("value", [
        ("none", lambda: None), ("text", lambda: s.str("x")), ("empty", lambda: ""),
        ("number", lambda: 7), ("zero", lambda: 0), ("list", lambda: s.list()),
        ("dict", lambda: s.dict()), ("link", lambda: link(s)), ("object", s.opaque),
        ("texts", lambda: s.list(s.str("x"))), ("false", lambda: False),
        ("value", lambda: s.new("NominalReal", 0.5, "")),
        ("bounds", lambda: s.new("IntegerBounds", 0, 1))])
    v = make()
    a = s.try_new(cls, **base, **{f: v})
    o, _ = build(s, cls, (), True)
    b = s.try_put(o, f, v)
    s.check(a.ok == b.ok, "constructor and assignment take the same contents",
            f"{cls}.{f} = {label}: constructor {'takes' if a.ok else 'refuses'} it, "
            f"assignment {'takes' if b.ok else 'refuses'} it")
    if a.ok and b.ok:
        same_content(s, s.get(a.value, f), s.get(o, f),
                     "constructing and assigning give the same content", f"{cls}.{f} {label}")


def shared(s, cls):
    """One value in several quantity fields."""
    o, _ = build(s, cls, (), True)
    v = s.new("NominalReal", 0.5, "")
    a, b = s.choose("fields", [(a, b) for a in QUANT[:3] for b in QUANT[:3] if a != b])
    s.put(o, a, v)
    s.put(o, b, v)
    s.check(s.get(o, a) is v and s.get(o, b) is v, "assigning a field changes no other field",
            f"{cls}: {a} and {b} hold one value")
    s.put(o, b, None)
    s.check(s.get(o, a) is v, "assigning a field changes no other field", f"{cls}: {b} cleared")


def text(s, cls, f):
    """Texts are kept as they are, on assignment too."""
    o, _ = build(s, cls, (), True)
    v = s.str("text")
    s.put(o, f, v)
    s.check(s.get(o, f) is v, "a text reads back as given", f"{cls}.{f}")


def small(s, cls):
    """Values and bounds: one object's content assigned field by field to another."""
    a, _ = build(s, cls)
    b, _ = build(s, cls)
    for i in (0, 1):
        for f in FIELDS[cls]:
            rec = freeze(s, [b])
            r = s.try_put(b, f, s.get(a, f))
            d = thawed(s, [x for x in rec if not (r.ok and x[1] == f)])
            s.check(d is None, "assigning a field changes no other field", f"{cls}.{f}: {d}")
    if all(s.try_put(b, f, s.get(a, f)).ok for f in FIELDS[cls]):
        same_content(s, a, b, "constructing and assigning give the same content", cls)


def run(r):
    for cls in BIG:
        for links in (True, False):
            how = "links" if links else "objects"
            if optional(cls):
                r.scenario(f"{cls} given, {how}", given, cls, links)
            r.scenario(f"{cls} replaced, {how}", replaced, cls, links)
        for f in FIELDS[cls]:
            # the name of an attribute template is an ordinary attribute, checked when constructed
            if not (f == "name" and cls in ("PropertyTemplate", "ConditionTemplate",
                                            "ParameterTemplate")):
                r.scenario(f"{cls}.{f} accepted", accepted, cls, f)
            if f in LISTS:
                r.scenario(f"{cls}.{f} elements", repeated, cls, f)
        for f in TEXTS:
            if f in FIELDS[cls] and (cls, f) != ("IngredientRun", "name"):
                r.scenario(f"{cls}.{f} text", text, cls, f)
    for cls in ("IngredientSpec", "IngredientRun"):
        r.scenario(f"{cls} one value twice", shared, cls)
    for cls in VALUES + BOUNDS + ("FileLink", "LinkByUID", "PerformedSource"):
        if FIELDS[cls]:
            r.scenario(f"{cls} by field", small, cls)
