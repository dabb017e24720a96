"""C32: every object can be printed."""
from gsa.core import Atom, Obj, Tup
from rules.catalog import DERIVED, ENTITIES, FIELDS, build, presence
from rules.common import entity, link
from rules.graphs import SINGLE, freeze, reachable, single, thawed, world

INFO = {
    "explanation":
        "Abstract interpretation of repr and str of every class for every combination of "
        "optional fields, with links and with objects, of every object in symbolic material "
        "histories (cyclic through the reverse-side views) and in graphs with one reference of "
        "each kind, of links, enumeration members, lists of objects and of classes a client "
        "adds; the symbolic texts of the contents are followed into the printed text.",
    "assumptions": ["built-in containers print as the standard library does"],
    "min_scenarios": 90, "min_sites": 0,
}
VIEWS = {"ProcessRun": ("ingredients", "output_material"),
         "ProcessSpec": ("ingredients", "output_material"), "MaterialRun": ("measurements",)}


def text(s, f, o, key="every object can be printed"):
    t = s.ok(s.attempt(s.I.call, s.I.builtins[f], [o], {}), key, f)
    s.check(s.tname(t) == "str", "printing gives text", f)
    return t


def parts(t):
    """The literal pieces of a text and the symbolic texts it contains."""
    lits, atoms, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            lits.append(x)
        elif isinstance(x, Atom):
            atoms.add(id(x))
            term = getattr(x, "term", None) or ()
            if term and term[0] not in ("slice", "getitem"):     # a part does not show the whole
                todo += [y for y in term[1:] if isinstance(y, (str, Atom))]
    return "\n".join(lits), atoms


def shown(p, v):
    lits, atoms = p
    return v in lits if isinstance(v, str) else id(v) in atoms


def contents(s, v, depth=0):
    """The texts that make up a field's content (references to entities by name)."""
    if isinstance(v, Atom) or isinstance(v, str) and v:
        if s.tname(v) == "str":
            yield v
    elif isinstance(v, Obj) and s.isa(v, "BaseEntity"):
        yield from contents(s, s.get(v, "name"))
    elif isinstance(v, Obj) and s.tname(v) in FIELDS and depth < 4:
        for f in FIELDS[s.tname(v)]:
            if f not in ("origin", "default_units", "units"):
                yield from contents(s, s.get(v, f), depth + 1)
    elif isinstance(v, Obj) and s.I.is_mapping(v):
        for k, w in s.I.mapping_items(v):
            yield from contents(s, k, depth + 1)
            yield from contents(s, w, depth + 1)
    elif isinstance(v, Tup) or isinstance(v, Obj) and v.cls.enum is None and any(
            v.cls.issub(s.I.builtins[c]) for c in ("list", "tuple", "set", "frozenset")):
        for w in s.items(v):
            yield from contents(s, w, depth + 1)


def complete(s, o, t, what):
    p = parts(t)
    cls = s.tname(o)
    for k in FIELDS[cls]:
        s.check(shown(p, k), "every field is shown", f"{what}: {k} is missing")
        for v in contents(s, s.get(o, k)):
            s.check(shown(p, v), "contents are shown", f"{what}: {v!r} in {k} is missing")
    for k in VIEWS.get(cls, ()):
        s.check(shown(p, k), "reverse views are shown", f"{what}: {k} is missing")
        vs = s.get(o, k)
        vs = [vs] if k == "output_material" else s.items(vs)
        for v in vs:
            if v is not None and not s.isa(v, "LinkByUID"):
                n = s.get(v, "name")
                s.check(n is None or shown(p, n), "reverse views are shown",
                        f"{what}: {n!r} in {k} is missing")


def fields(s, cls, links):
    o, _ = build(s, cls, presence(s, cls) if cls not in ("LinkByUID", "FileLink") else None,
                 links)
    rec = freeze(s, reachable(s, o)) if cls in ENTITIES else None
    t = text(s, s.choose("how", ["repr", "str"]), o)
    complete(s, o, t, cls)
    if rec is not None:
        d = thawed(s, rec)
        s.check(d is None, "printing changes nothing", f"{cls}{d}")


def history(s, root, u):
    s.I.max_steps = 3000000
    g = world(s, u)
    o = g[root]
    rec = freeze(s, reachable(s, o))
    t = text(s, s.choose("how", ["repr", "str"]), o)
    complete(s, o, t, root)
    d = thawed(s, rec)
    s.check(d is None, "printing changes nothing", f"{root}{d}")


def alone(s, path):
    h, t = single(s, path, s.flag("uids"))
    rec = freeze(s, reachable(s, h))
    for o in (h, t):
        complete(s, o, text(s, "repr", o), path)
    d = thawed(s, rec)
    s.check(d is None, "printing changes nothing", f"{path}{d}")
    text(s, "repr", s.list(h, s.dict(("k", t))))


def members(s, enum):
    for m in s.items(s.cls(enum)):
        v = s.get(m, "value")
        t = s.ok(s.attempt(s.I.call, s.I.builtins["str"], [m], {}), "members print", enum)
        s.check(s.eq(t, v), "a member prints as its value", f"{enum}: {t!r} for {v!r}")
        t = s.ok(s.attempt(s.I.call, s.I.builtins["repr"], [m], {}), "members print", enum)
        s.check(isinstance(t, str) and v in t, "a member's repr shows its value", f"{enum}: {t!r}")


CLIENT = """
class Holder(DictSerializable, typ="client_holder", skip={"_kept"}):
    def __init__(self, label, kept=None):
        self.label = label
        self._kept = kept

    @property
    def kept(self):
        return self._kept
"""


def client(s):
    c = s.client(CLIENT, DictSerializable=s.cls("DictSerializable"))
    a = entity(s, "MaterialRun", s.str("a"))
    n = s.str("label")
    what, kept = s.choose("kept", [
        ("nothing", None), ("one", a), ("some", s.list(a, entity(s, "ProcessRun", s.str("b")))),
        ("none", s.list()), ("link", s.list(link(s))), ("nameless", s.new("NominalReal", 1, "m")),
        ("itself", None)])
    o = s.I.call(c["Holder"], [n, kept], {})
    if what == "itself":
        s.put(o, "_kept", s.list(o))
    t = text(s, s.choose("how", ["repr", "str"]), o)
    p = parts(t)
    s.check(shown(p, "label") and shown(p, n) and shown(p, "kept"),
            "every field is shown", f"client class, {what}")
    if what in ("one", "some"):
        s.check(shown(p, s.get(a, "name")), "reverse views are shown", f"client class, {what}")


def containers(s):
    """Lists and dictionaries of objects, and the lists objects hold."""
    a, b = entity(s, "MaterialRun", s.str("a")), entity(s, "ProcessRun", s.str("b"))
    s.put(a, "tags", s.list(s.str("tag")))
    s.put(a, "uids", s.dict((s.str("scope"), s.str("id"))))
    kind, o = s.choose("of", [("list", s.list(a, b)), ("dict", s.dict(("k", a))),
                              ("tags", s.get(a, "tags")), ("uids", s.get(a, "uids")),
                              ("tuple", s.tuple(a, s.list(b)))])
    p = parts(text(s, s.choose("how", ["repr", "str"]), o))
    for v in contents(s, o):
        s.check(shown(p, v), "contents are shown", f"{kind}: {v!r} is missing")


def run(r):
    for e in ("Origin", "SampleType"):
        r.scenario(f"members of {e}", members, e)
    r.scenario("class of a client", client)
    r.scenario("containers", containers)
    for cls in FIELDS:
        r.scenario(f"{cls} with links", fields, cls, True)
        if cls in ENTITIES:
            r.scenario(f"{cls} with objects", fields, cls, False)
    for root in ("mr", "pr", "ir", "me", "ms", "ps", "is", "mes", "mt", "prt"):
        for u in ("none", "some"):
            r.scenario(f"{root} of a history, uids {u}", history, root, u)
    for p in SINGLE:
        r.scenario(f"only {p}", alone, p)
