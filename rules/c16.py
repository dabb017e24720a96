"""C16: links made from an entity name one of its identifiers; generated identifiers."""
from rules.catalog import ENTITIES
from rules.common import entity
from rules.graphs import SINGLE, freeze, reachable, single, thawed, world

INFO = {
    "explanation":
        "to_link and LinkByUID.from_entity are interpreted for every entity class over uid "
        "mappings of 0 to 3 scopes and requested scopes that are absent, present, present in "
        "another spelling or not given, with and without fallback; set_uuids and make_index over "
        "a whole history with none, some and all objects identified; link equality and hash over "
        "all coincidences of scope and id.",
    "assumptions": ["uuid4 yields a fresh value at each call"],
}
SC = ("alpha", "Beta", "gamma")


def uids(s, n):
    ids = [s.str(f"id{i}") for i in range(n)]
    return s.dict(*zip(SC, ids)), ids


def make(s, cls, n):
    u, ids = uids(s, n)
    return entity(s, cls, uids=u) if n else entity(s, cls), ids


def pairs(s, o):
    return [(k, v) for k, v in s.I.mapping_items(s.get(o, "uids"))]


def among(s, o, link, key):
    sc, i = s.get(link, "scope"), s.get(link, "id")
    s.check(any(isinstance(sc, str) and sc.lower() == k.lower() and s.same(i, v)
                for k, v in pairs(s, o)), key,
            f"link {sc!r} {i!r} of an object with {pairs(s, o)!r}")


def to_link(s, cls):
    n = s.choose("uids", [0, 1, 2, 3])
    o, ids = make(s, cls, n)
    req = s.choose("scope", [None, "alpha", "beta", "Beta", "nowhere"])
    fb = s.choose("fallback", [None, False, True])
    rec = freeze(s, [o])
    kw = {} if fb is None else {"allow_fallback": fb}
    if req is None and not s.flag("explicit None"):
        r = s.attempt(s.m, o, "to_link", **kw)
    elif s.flag("by keyword"):
        r = s.attempt(s.m, o, "to_link", scope=req, **kw)
    else:
        r = s.attempt(s.m, o, "to_link", req, **kw)
    have = {k.lower(): i for k, i in zip(SC[:n], ids)}
    msg = f"scope {req!r}, fallback {fb}, uids {list(have)!r}"
    if n == 0 or req is not None and req.lower() not in have and not fb:
        s.raises(r, ("ValueError",), "to_link without a usable scope is refused", msg)
    else:
        s.ok(r, "to_link with a usable scope", msg)
        s.check(s.tname(r.value) == "LinkByUID", "to_link gives a link", f"{r.value!r}")
        among(s, o, r.value, "to_link names one of the object's identifiers")
        if req is not None and req.lower() in have:
            s.check(s.get(r.value, "scope").lower() == req.lower() and
                    s.same(s.get(r.value, "id"), have[req.lower()]),
                    "to_link uses the requested scope", msg)
        s.check(s.I.truth(s.I.eq(r.value, o)) and s.I.truth(s.I.eq(o, r.value)),
                "an object equals its own link", msg)
    d = thawed(s, rec)
    s.check(d is None, "to_link changes nothing", str(d))


def from_entity(s, cls):
    n = s.choose("uids", [0, 1, 2, 3])
    o, ids = make(s, cls, n)
    req = s.choose("scope", [None, "alpha", "beta", "nowhere"])
    rec = freeze(s, [o])
    r = s.attempt(s.I.call, s.get(s.cls("LinkByUID"), "from_entity"), [o],
                  {"scope": req} if req is not None or s.flag("explicit None") else {})
    s.ok(r, "from_entity always gives a link", f"{req!r}")
    among(s, o, r.value, "from_entity names one of the object's identifiers")
    have = {k.lower(): i for k, i in zip(SC[:n], ids)}
    if req is not None and req.lower() in have:
        s.check(s.same(s.get(r.value, "id"), have[req.lower()]),
                "from_entity uses the requested scope", f"{req!r}")
    if n:
        d = thawed(s, rec)
        s.check(d is None, "from_entity of an identified object changes nothing", str(d))
    else:
        d = thawed(s, rec, but=("uids",))
        s.check(d is None, "from_entity only adds an identifier", str(d))
        p = pairs(s, o)
        s.check(len(p) == 1 and (p[0][0] == req if req else True),
                "from_entity adds one identifier under the scope", f"{p!r}")
        r2 = s.I.call(s.get(s.cls("LinkByUID"), "from_entity"), [o], {})
        s.check(s.same(s.get(r2, "id"), p[0][1]), "a second link names the same identifier", "")


def generate(s, mode, root):
    g = world(s, mode)
    objs = list(g.values())
    before = {o.oid: pairs(s, o) for o in objs}
    rec = freeze(s, objs)
    arg = {"mr": g["mr"], "list": s.list(*objs), "tuple": s.tuple(g["me"], g["ims"]),
           "dict": s.dict(("k", g["mr"])), "pt": g["pt"]}[root]
    reach = {o.oid for r in ([arg] if root in ("mr", "pt") else
                             [arg.p] if False else (s.items(arg) if root != "dict"
                                                    else [g["mr"]]))
             for o in reachable(s, r)}
    s.do("gemd.util.set_uuids", arg, "auto")
    s.do("gemd.util.set_uuids", arg, "second")
    new = []
    for o in objs:
        p, q = before[o.oid], pairs(s, o)
        if p or o.oid not in reach:
            s.check(len(p) == len(q) and all(a == c and s.same(b, d) for (a, b), (c, d)
                                             in zip(p, q)),
                    "existing identifiers and unrelated objects are left alone",
                    f"{o!r}: {p!r} became {q!r}")
        else:
            s.check(len(q) == 1 and q[0][0] == "auto", "one identifier under the scope",
                    f"{o!r}: {q!r}")
            s.check(not any(s.same(q[0][1], x) for x in new), "generated identifiers differ",
                    f"{o!r}: {q!r}")
            new.append(q[0][1])
    d = thawed(s, rec, but=("uids",))
    s.check(d is None, "generating identifiers changes nothing else", str(d))


def namesakes(s, cls):
    """Objects alike in everything still get an identifier each, in one call or in several."""
    a, b = entity(s, cls), entity(s, cls)
    if cls not in ("IngredientRun",):
        s.put(b, "name", s.get(a, "name"))
    if s.flag("one call"):
        s.do("gemd.util.set_uuids", s.list(a, b), "auto")
    else:
        s.do("gemd.util.set_uuids", a, "auto")
        s.do("gemd.util.set_uuids", b, "auto")
    p, q = pairs(s, a), pairs(s, b)
    s.check(len(p) == len(q) == 1 and not s.same(p[0][1], q[0][1]),
            "objects of the same content get different identifiers", f"{p!r} {q!r}")
    s.put(a, "uids", None)
    how = s.choose("again by", ["set_uuids", "from_entity"])
    if how == "set_uuids":
        s.do("gemd.util.set_uuids", a, "auto")
    else:
        s.I.call(s.get(s.cls("LinkByUID"), "from_entity"), [a], {})
    n = pairs(s, a)
    s.check(len(n) == 1 and not any(s.same(n[0][1], x[0][1]) for x in (p, q)),
            "an identifier generated again is a new one", f"{how}: {n!r}, before {p!r} {q!r}")


def empty_id(s, cls):
    """An identifier may be any text: an empty one is an identifier too."""
    with_ = s.choose("uids", ["alone", "first", "last"])
    o = entity(s, cls, uids=s.dict(*{"alone": [("alpha", "")],
                                     "first": [("alpha", ""), ("beta", s.str("id"))],
                                     "last": [("beta", s.str("id")), ("alpha", "")]}[with_]))
    rec = freeze(s, [o])
    how = s.choose("how", ["set_uuids", "flatten", "to_link", "to_link scope", "from_entity",
                           "from_entity scope", "index"])
    if how == "set_uuids":
        s.do("gemd.util.set_uuids", o, "auto")
    elif how == "flatten":
        x = s.items(s.do("gemd.util.flatten", o, "auto"))
        s.check(len(x) == 1 and s.eq(s.get(x[0], "uids"), s.get(o, "uids")),
                "an empty identifier is kept", repr(x))
    elif how == "index":
        ks = s.items(s.do("gemd.util.make_index", o))
        s.check(any(s.get(k, "scope") == "alpha" and s.get(k, "id") == "" for k in ks),
                "an empty identifier is kept", repr(ks))
    else:
        a = {"scope": "alpha"} if how.endswith("scope") else {}
        r = s.attempt(s.m, o, "to_link", **a) if how.startswith("to_link") else \
            s.attempt(s.I.call, s.get(s.cls("LinkByUID"), "from_entity"), [o], a)
        s.ok(r, "an empty identifier is one to link by", how)
        if a:
            s.check(s.get(r.value, "id") == "" and s.get(r.value, "scope") == "alpha",
                    "an empty identifier is one to link by", f"{how}: {r.value!r}")
        else:
            among(s, o, r.value, "links name one of the object's identifiers")
    d = thawed(s, rec)
    s.check(d is None, "an object with an identifier is left alone", f"{how}: {d}")


def index(s, mode):
    g = world(s, mode)
    extra = g["mr"]
    for i in range(6):
        s.m(extra, "add_uid", f"extra{i}", s.str(f"extra_id{i}"))
    idx = s.do("gemd.util.make_index", g["mr"] if s.flag("from the root") else
               s.list(*g.values()))
    items = s.I.mapping_items(idx)
    for o in reachable(s, g["mr"], soft=False):
        for k, v in pairs(s, o):
            hit = [t for l, t in items if s.same(s.get(l, "scope"), k) and
                   s.same(s.get(l, "id"), v)]
            s.check(hit == [o] or len(hit) == 1 and hit[0] is o,
                    "every identifier of a reachable object finds it in the index",
                    f"{k!r} {v!r}: {hit!r}")
    for l, t in items:
        among_(s, t, l)


def serialised(s, how):
    """A serialiser names what has no identifier in its own scope."""
    scope = s.choose("scope", ["auto", "mine"])
    j = s.new("gemd.json.GEMDJson", scope) if scope != "auto" or s.flag("named") \
        else s.new("gemd.json.GEMDJson")
    p = entity(s, "ProcessRun")
    o = entity(s, "MaterialRun", process=p, uids=s.dict(("own", s.str("id"))))
    s.m(j, how, o)
    q = pairs(s, p)
    s.check(len(q) == 1 and q[0][0] == scope, "serialising names objects in the scope it has",
            f"{how} with scope {scope}: {q!r}")
    q = pairs(s, o)
    s.check(len(q) == 1 and q[0][0] == "own", "existing identifiers and unrelated objects are "
            "left alone", f"{how} with scope {scope}: {q!r}")


def alone(s, path):
    """Identifiers and index entries reach across every kind of reference."""
    h, t = single(s, path, False)
    s.do("gemd.util.set_uuids", h, "auto")
    p, q = pairs(s, h), pairs(s, t)
    s.check(len(p) == len(q) == 1 and not s.same(p[0][1], q[0][1]),
            "identifiers are assigned across every kind of reference", f"{path}: {p!r} {q!r}")
    items = s.I.mapping_items(s.do("gemd.util.make_index", h))
    s.check(sorted(x.oid for _, x in items) == sorted((h.oid, t.oid)),
            "the index covers objects across every kind of reference", f"{path}: {items!r}")
    for l, x in items:
        among_(s, x, l)


def among_(s, t, l):
    s.check(any(s.same(s.get(l, "scope"), k) and s.same(s.get(l, "id"), v)
                for k, v in pairs(s, t)), "index entries name identifiers of their objects",
            f"{l!r} -> {t!r}")


def equality(s):
    a, b = s.str("a", apart=True), s.str("b", apart=True)
    i, j = s.str("i"), s.str("j")
    x = (a, i)
    y = (s.choose("scope", [a, b]), s.choose("id", [i, j]))
    l, m = s.new("LinkByUID", *x), s.new("LinkByUID", *y)
    want = x[0] is y[0] and x[1] is y[1]
    s.check(s.I.truth(s.I.eq(l, m)) == want and s.I.truth(s.I.eq(m, l)) == want,
            "links are equal exactly when scope and id are", f"{x!r} {y!r}")
    h = s.I.builtins["hash"]
    if want:
        s.check(s.I.prim_eq(s.I.call(h, [l], {}), s.I.call(h, [m], {})),
                "equal links hash alike", f"{x!r}")
    d = s.dict((l, 1))
    s.check(s.I.contains(d, m) == want, "links find each other as keys", f"{x!r} {y!r}")
    s.check(s.I.truth(s.I.eq(l, s.tuple(*y))) == want, "a link equals its own pair", f"{y!r}")
    s.check(not s.I.truth(s.I.eq(l, s.tuple(a, i, j))), "a link equals no longer tuple", "")
    e = entity(s, "ProcessRun", uids=s.dict(y))
    s.check(s.I.truth(s.I.eq(l, e)) == want and s.I.truth(s.I.eq(e, l)) == want,
            "a link equals exactly the objects carrying its identifier", f"{x!r} {y!r}")
    n = entity(s, "ProcessRun")
    s.check(not s.I.truth(s.I.eq(l, n)) and not s.I.truth(s.I.eq(n, l)),
            "a link equals no unidentified object", "")


def add(s, cls):
    o, ids = make(s, cls, s.choose("uids", [0, 2]))
    had = {k.lower(): (k, v) for k, v in pairs(s, o)}
    k = s.choose("scope", ["alpha", "ALPHA", "new"])
    v = s.str("v")
    r = s.attempt(s.m, o, "add_uid", k, v)
    old = had.get(k.lower())
    if old is not None and old[0] != k:
        s.raises(r, ("ValueError",), "add_uid refuses another spelling of a scope", k)
    else:
        s.ok(r, "add_uid", k)
        had[k.lower()] = (k, v)
    now = pairs(s, o)
    s.check(len(now) == len(had) and all(had.get(a.lower(), (None, None))[0] == a and
                                         s.same(had[a.lower()][1], b) for a, b in now),
            "add_uid adds or replaces exactly one identifier", f"{now!r}, expected {had!r}")


def run(r):
    for cls in ENTITIES:
        r.scenario(f"{cls}.to_link", to_link, cls)
        r.scenario(f"from {cls}", from_entity, cls)
        r.scenario(f"{cls}.add_uid", add, cls)
        r.scenario(f"namesakes {cls}", namesakes, cls)
        r.scenario(f"empty identifier {cls}", empty_id, cls)
    for mode in ("none", "some", "all", "twins", "case"):
        for root in ("mr", "list", "tuple", "dict", "pt"):
            r.scenario(f"generated {mode} {root}", generate, mode, root)
        r.scenario(f"index {mode}", index, mode)
    for p in SINGLE:
        r.scenario(f"only {p}", alone, p)
    for how in ("dumps", "thin_dumps", "copy"):
        r.scenario(f"scope of {how}", serialised, how)
    r.scenario("links", equality)
