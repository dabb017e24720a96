"""C19: equality compares content, in both directions, on any graph, without side effects."""
import ast

from rules.catalog import (ATTRIBUTES, BOUNDS, ENTITIES, FIELDS, VALUES, argument, build, differs,
                           optional, presence, required, value, bounds, file_link, source)
from rules.common import LINKS, entity, link
from rules.graphs import world, reachable, freeze, thawed

INFO = {
    "explanation":
        "The same content is built twice (separate objects, same symbols) for every class and "
        "combination of optional fields and for a cyclic history, and both must be equal in both "
        "directions; then one public field of one of them is changed and they must be unequal in "
        "both directions, also when the change is deep inside the history. Foreign operands, "
        "links and pairs are compared; operands must be unchanged.",
    "assumptions": ["Python semantics as modelled in gsa/", "one representative history shape",
                    "transitivity is not claimed; a list missing on one side of two objects with "
                    "identifiers is not compared, as documented in the code"],
    "min_scenarios": 150,
}
LISTS = ("tags", "labels", "file_links", "properties", "conditions", "parameters",
         "allowed_names", "allowed_labels")


def remember(s):
    """From now on, a symbol with the same name is the same symbol."""
    memo = {}
    for kind in ("str", "float", "int"):
        make = getattr(s, kind)

        def f(name="x", _make=make, _kind=kind, **kw):
            k = (_kind, name)
            if k not in memo:
                memo[k] = _make(name, **kw)
            return memo[k]
        setattr(s, kind, f)
    return memo


def compare(s, a, b, want, key, msg, ne=True):
    """a == b, b == a and != agree with want."""
    for x, y, d in ((a, b, ""), (b, a, " (swapped)")):
        r = s.attempt(s.eq, x, y)
        got = s.ok(r, key, f"{msg}{d}")
        s.check(got == want, key, f"{msg}{d}: compared {'equal' if got else 'unequal'}")
        if not ne:
            continue
        r = s.attempt(lambda: s.I.truth(s.I.compare(ast.NotEq(), x, y)))
        got = s.ok(r, key + " by !=", f"{msg}{d}")
        s.check(got != want, key + " by !=", f"{msg}{d}: != gives {got}")


def twins(s, cls, links):
    remember(s)
    fs = presence(s, cls)
    a, _ = build(s, cls, fs, links)
    b, _ = build(s, cls, fs, links)
    objs = [o for x in (a, b) for o in reachable(s, x)] or [a, b]
    rec = freeze(s, objs)
    s.check(s.eq(a, a), "an object equals itself", cls)
    compare(s, a, b, True, "identical content is equal", cls)
    d = thawed(s, rec)
    s.check(d is None, "comparing changes nothing", str(d))


def histories(s, root, uids):
    remember(s)
    a, b = world(s, uids), world(s, uids)
    rec = freeze(s, list(a.values()) + list(b.values()))
    compare(s, a[root], b[root], True, "identical histories are equal", root,
            ne=False)
    d = thawed(s, rec)
    s.check(d is None, "comparing changes nothing", str(d))


# fields through which a difference shows when the objects are compared
def compared(s, root):
    """Entities that take part in comparing root: forward references, measurements, ingredients."""
    seen, todo, out = set(), [root], []
    from rules.graphs import successors
    while todo:
        o = todo.pop()
        if o.oid in seen:
            continue
        seen.add(o.oid)
        if s.isa(o, "BaseEntity"):
            out.append(o)
        todo.extend(successors(s, o, ("output_material",)))
    return out


def deep(s, root, uids):
    remember(s)
    a, b = world(s, uids), world(s, uids)
    seen = compared(s, b[root])
    key = s.choose("changed object", [k for k in a if any(b[k] is o for o in seen)])
    o = b[key]
    if s.tname(o) == "IngredientRun":
        s.put(o, "notes", s.str("changed"))
    elif "name" in FIELDS[s.tname(o)]:
        s.put(o, "name", s.str("changed"))
    compare(s, a[root], b[root], False, "a difference anywhere is seen",
            f"{key} changed, compared from {root}", ne=False)


def different(s, cls, f):
    """Another legal content for a field."""
    tag = f"other {cls}.{f}"
    new = s.str
    if f in ("name", "notes", "description", "url", "filename", "performed_by",
             "performed_date", "scope", "id", "category", "smiles"):
        return new(tag)
    if f == "uids":
        return s.dict((new(tag + "s"), new(tag + "i")))
    if f in ("tags", "labels", "allowed_names", "allowed_labels"):
        return s.list(new(tag + "1"), new(tag + "2"))
    if f == "file_links":
        return s.list(file_link(s, tag + "1"), file_link(s, tag + "2"))
    if f == "source":
        return source(s, tag)
    if f == "sample_type":
        return "production"
    if f == "origin":
        return "predicted"
    if f.endswith("_fraction"):
        return s.new("NominalReal", 0.25, "")
    if f == "absolute_quantity":
        return s.new("NominalReal", 0.5, "g")
    if f == "bounds":
        return s.new("CategoricalBounds", s.list(new(tag)))
    if f == "value":
        return s.new("NominalInteger", 6)
    s.str = lambda name="x", **kw: new("other " + name, **kw)
    v = argument(s, cls, f)
    s.str = new
    return v


def one_field(s, cls, f):
    remember(s)
    alone = s.flag("only this field")
    fs = tuple(x for x in optional(cls) if (x == f if alone else x != "uids" or f == "uids"))
    a, _ = build(s, cls, fs)
    b, _ = build(s, cls, fs)
    how = s.choose("second has", ["other", "nothing", "link"])
    if how == "nothing":
        if f in required(cls) or f == "sample_type" or f == "origin":
            s.done()
        s.put(b, f, None)
    elif how == "link":
        if f not in ("template", "spec", "process", "material"):
            s.done()
        s.put(b, f, link(s, s.str("else.scope"), s.str("else.id")))
    else:
        s.put(b, f, different(s, cls, f))
    compare(s, a, b, False, "a difference in one field is seen", f"{cls}.{f} ({how})")


def members(s, cls, f):
    """List fields compare as collections: multiplicity counts, order does not."""
    remember(s)
    fs = (f, "uids") if cls in ENTITIES and s.flag("with uids") else (f,)
    a, _ = build(s, cls, fs)
    b, _ = build(s, cls, fs)
    xs, ys = s.items(s.get(a, f)), s.items(s.get(b, f))
    if len(xs) < 2:
        s.done()
    case = s.choose("second", ["reversed", "one more", "one less", "repeat"])
    if case == "reversed":
        if cls not in ENTITIES:
            s.done()
        s.put(b, f, s.list(*ys[::-1]))
    elif case == "one more":
        s.put(b, f, s.list(*ys, ys[0]))
    elif case == "one less":
        s.put(b, f, s.list(ys[0]))
    else:
        s.put(a, f, s.list(xs[0], xs[0], xs[1]))
        s.put(b, f, s.list(ys[0], ys[1], ys[1]))
    compare(s, a, b, case == "reversed", "list fields compare as collections",
            f"{cls}.{f} {case}")


def siblings(s, kind, n):
    """Two parents with n children each; children alike or not: any two objects are equal
    exactly when parents and children can be paired off."""
    src, field, tgt, attr, many = kind
    remember(s)
    x = s.str("x")
    marks, kids, tops = [], [], []
    for side in range(2):
        t = entity(s, tgt, s.str("parent"))
        ms = [s.choose(f"child {side}.{i}", ["x", "y"]) for i in range(n)]
        kids.append([entity(s, src, s.str("child"), notes=x if m == "x" else s.str("y"),
                            **{field: t}) for m in ms])
        marks.append(ms)
        tops.append(t)
    alike = sorted(marks[0]) == sorted(marks[1])
    compare(s, tops[0], tops[1], alike, "parents are equal when their children pair off",
            f"{tgt} with {marks[0]} and {marks[1]}", ne=False)
    for i in range(n):
        for j in range(n):
            compare(s, kids[0][i], kids[1][j], alike and marks[0][i] == marks[1][j],
                    "children are equal when they and their parents are",
                    f"{src} {marks[0]}[{i}] and {marks[1]}[{j}]", ne=False)


def uneven(s, kind, n, m):
    """Parents with different positive numbers of children differ, with or without identifiers."""
    src, field, tgt, attr, many = kind
    remember(s)
    same = s.flag("children alike")
    kids, tops = [], []
    for count in (n, m):
        kw = {"uids": s.dict((s.str("scope"), s.str("pid")))} if s.flag("parent has uid") else {}
        t = entity(s, tgt, s.str("parent"), **kw)
        kids.append([entity(s, src, s.str("child"),
                            notes=s.str("x" if same else f"x{i}"), **{field: t})
                     for i in range(count)])
        tops.append(t)
    compare(s, tops[0], tops[1], False, "parents with more children differ",
            f"{tgt} with {n} and {m} children", ne=False)
    compare(s, kids[0][0], kids[1][0], False, "children of parents with more children differ",
            f"{src} with {n} and {m} siblings", ne=False)


def plain_content(s, cls):
    """Values and bounds: equal exactly when the public content is."""
    make = value if cls in VALUES else bounds
    a = make(s, cls, "p")
    b = make(s, cls, "q")
    want = differs(s, a, b) is None
    compare(s, a, b, want, "values compare by content", cls)


def kinds(s, i):
    """Instances of different classes are unequal."""
    remember(s)
    names = list(FIELDS)
    a, _ = build(s, names[i], ())
    other = s.choose("other", [n for n in names if n != names[i]])
    if "LinkByUID" in (names[i], other):
        s.done()
    b, _ = build(s, other, ())
    compare(s, a, b, False, "different classes are unequal", f"{names[i]} and {other}")


def foreign(s, cls):
    a, _ = build(s, cls, ("uids",) if "uids" in FIELDS[cls] and s.flag("with uids") else ())
    k = s.choose("other", ["opaque", "text", "int", "none", "dict", "list", "tuple", "pair",
                            "half pair", "other half", "none pair", "empty", "single"])
    b = {"opaque": s.opaque(), "text": s.str("t"), "int": 3, "none": None, "dict": s.dict(),
         "list": s.list(), "tuple": s.tuple(1, 2, 3), "pair": s.tuple(1, 2),
         "half pair": s.tuple(1, s.str("t")), "other half": s.tuple(s.str("t"), 1),
         "none pair": s.tuple(None, s.str("t")), "empty": s.tuple(),
         "single": s.tuple(s.str("t"))}[k]
    if k == "dict" and s.flag("as dict"):
        b = s.m(a, "as_dict")
    compare(s, a, b, False, "a foreign operand is unequal", f"{cls} and {k}")


def by_link(s, cls):
    n, x, y = s.str("n"), s.str("id1"), s.str("id2")
    count = s.choose("uids", [0, 1, 2])
    uids = s.dict(*[("Scope", x), ("second", y)][:count])
    kw = {} if cls == "IngredientRun" else {"name": n}
    if "bounds" in required(cls):
        kw["bounds"] = s.new("IntegerBounds", 0, 1)
    e = s.new(cls, uids=uids, **kw)
    scope = s.choose("scope", ["Scope", "scope", "SECOND", "third"])
    id_ = s.choose("id", ["first", "second", "other"])
    idv = {"first": x, "second": y, "other": s.str("id3")}[id_]
    want = count > 0 and scope.lower() == "scope" and id_ == "first" or \
        count > 1 and scope == "SECOND" and id_ == "second"
    if s.flag("link"):
        b = s.new("LinkByUID", scope, idv)
    else:
        b = s.tuple(scope, idv)
    compare(s, e, b, want, "an entity equals a link or pair exactly by identifier",
            f"{cls} with {count} identifiers, {scope}, {id_}")


def run(r):
    for cls in FIELDS:
        r.scenario(f"twins {cls}", twins, cls, False)
        if cls in ENTITIES or cls in ATTRIBUTES:
            r.scenario(f"twins {cls} with links", twins, cls, True)
        r.scenario(f"foreign {cls}", foreign, cls)
    for cls in ENTITIES + ATTRIBUTES + ("PropertyAndConditions", "FileLink", "LinkByUID",
                                        "PerformedSource"):
        for f in FIELDS[cls]:
            r.scenario(f"difference {cls}.{f}", one_field, cls, f)
            if f in LISTS:
                r.scenario(f"members {cls}.{f}", members, cls, f)
    for kind in LINKS:
        if kind[4]:
            for n in (1, 2, 3) if r.thorough else (1, 2):
                r.scenario(f"siblings {kind[0]} {n}", siblings, kind, n)
            for n, m in ((1, 2), (2, 3)):
                r.scenario(f"siblings {kind[0]} {n} and {m}", uneven, kind, n, m)
    for cls in VALUES + BOUNDS:
        r.scenario(f"content {cls}", plain_content, cls)
    for i in range(len(FIELDS)):
        r.scenario(f"kinds {list(FIELDS)[i]}", kinds, i)
    for cls in ENTITIES:
        r.scenario(f"links to {cls}", by_link, cls)
    for uids in ("none", "all", "twins"):
        for root in ("mr", "me", "ir", "pr", "ms", "is", "mes", "mt", "pt", "met", "imr", "ps"):
            r.scenario(f"history {root} {uids}", histories, root, uids)
            r.scenario(f"deep difference {root} {uids}", deep, root, uids)
