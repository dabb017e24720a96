"""C18: graph traversals."""
from gsa.core import Native
from rules.common import entity, link
from rules.graphs import SINGLE, freeze, reachable, single, thawed, world

INFO = {
    "explanation":
        "recursive_foreach and recursive_flatmap are interpreted with a recording client function "
        "over a full history (cycles through every reverse view, shared templates, attributes) "
        "entered at every entity and through every kind of container; the multiset of visited "
        "entities is compared with graph reachability, the collected results with what the "
        "function returned per visit, and the call depth on chains of different lengths.",
    "assumptions": ["containers given by the client are acyclic"],
}
FE, FM = "gemd.util.recursive_foreach", "gemd.util.recursive_flatmap"
KEYS = ("prt", "mt", "pt", "met", "ps", "ms", "ims", "is", "mes", "pr", "mr", "imr", "ir", "me",
        "ime")


def wrap(s, g, how):
    """(argument, roots)"""
    a, b = g["me"], g["ims"]
    if how in g:
        return g[how], [g[how]]
    return {"list": lambda: (s.list(a, b, a), [a, b]),
            "tuple": lambda: (s.tuple(a, s.tuple(b)), [a, b]),
            "set": lambda: (s.set(a, b), [a, b]),
            "tuple of list": lambda: (s.tuple(a, s.list(b), s.list(b)), [a, b]),
            "tuple of dict": lambda: (s.dict(("x", s.tuple(s.dict(("y", s.tuple(a, b)))))), [a, b]),
            "values": lambda: (s.dict(("x", a), ("y", s.list(b))), [a, b]),
            "keys": lambda: (s.dict((a, 1), (b, 2)), [a, b]),
            "generator": lambda: (s.generator(a, b), [a, b]),
            "attribute": lambda: (s.items(s.get(g["me"], "properties"))[0], [g["prt"]]),
            "values view": lambda: (s.m(s.dict(("x", a), ("y", b)), "values"), [a, b]),
            "plain": lambda: (s.list(1, "text", None, 2.5, s.list()), []),
            "link": lambda: (s.list(link(s), s.new("NominalReal", 5, "m")), [])}[how]()


def expected(s, roots, soft):
    out = {}
    for r in roots:
        for o in reachable(s, r, soft):
            out[o.oid] = o
    return out


def recorder(s, visits, depth=None, result=None):
    def f(I, a, k):
        visits.append(a[0])
        if depth is not None:
            depth.append(len(I.stack))
        return result(a[0]) if result else None
    return Native("visit", f)


def check_visits(s, visits, want, key):
    n = {}
    for o in visits:
        n[o.oid] = n.get(o.oid, 0) + 1
    for i, o in want.items():
        s.check(n.get(i, 0) == 1, f"{key} visits every reachable object exactly once",
                f"{o!r} visited {n.get(i, 0)} times")
    s.check(len(visits) == sum(1 for _ in want), f"{key} visits nothing else",
            f"{len(visits)} visits, {len(want)} reachable")


def foreach(s, how, uids):
    g = world(s, uids)
    arg, roots = wrap(s, g, how)
    want = expected(s, roots, True)
    rec = freeze(s, list(g.values()))
    visits = []
    kw = {None: {}, True: {"apply_first": True}, False: {"apply_first": False}}[
        s.choose("apply first", [None, True, False])]
    s.do(FE, arg, recorder(s, visits), **kw)
    check_visits(s, visits, want, "applying a function")
    d = thawed(s, rec)
    s.check(d is None, "applying a function changes nothing by itself", str(d))


def flatmap(s, how, uids):
    g = world(s, uids)
    arg, roots = wrap(s, g, how)
    uni = s.choose("unidirectional", [None, True, False])
    want = expected(s, roots, uni is False)
    rec = freeze(s, list(g.values()))
    visits = []
    mode = s.choose("returns", ["itself", "nothing", "two"])
    res = {"itself": lambda o: s.list(o), "nothing": lambda o: s.list(),
           "two": lambda o: s.tuple(o, 7)}[mode]
    kw = {} if uni is None else {"unidirectional": uni}
    out = s.items(s.do(FM, arg, recorder(s, visits, None, res), **kw))
    check_visits(s, visits, want, "collecting" if uni is not False else "collecting both ways")
    exp = {"itself": [[o] for o in visits], "nothing": [[] for o in visits],
           "two": [[o, 7] for o in visits]}[mode]
    exp = [x for xs in exp for x in xs]
    s.check(len(out) == len(exp) and all(x is y or x == y for x, y in zip(out, exp)),
            "collecting returns what the function returned, visit by visit",
            f"{len(out)} results, {len(exp)} expected")
    d = thawed(s, rec)
    s.check(d is None, "collecting changes nothing", str(d))


def twins(s, what):
    """Objects that are equal, or carry the same identifier, are still different objects."""
    u = s.dict(("x", s.str("i"))) if s.flag("same uid") else None
    nm = s.str("n")
    a, b = (entity(s, "MaterialRun", nm, uids=u) for _ in range(2))
    visits = []
    if what == "foreach":
        s.do(FE, s.list(a, b), recorder(s, visits))
    else:
        s.do(FM, s.list(a, b), recorder(s, visits, None, lambda o: s.list(o)))
    check_visits(s, visits, {a.oid: a, b.oid: b}, what)


def chain(s, n):
    """A history n processes deep; returns its last material."""
    m = entity(s, "MaterialRun", s.str("m0"))
    objs = [m]
    for i in range(n):
        p = entity(s, "ProcessRun", s.str(f"p{i}"))
        ing = s.new("IngredientRun", material=m, process=p)
        m = entity(s, "MaterialRun", s.str(f"m{i + 1}"), process=p)
        objs += [p, ing, m]
    return m, objs


def depth(s, what):
    deep = []
    for n in (3, 9):
        m, objs = chain(s, n)
        visits, d = [], []
        if what == "foreach":
            s.do(FE, m, recorder(s, visits, d))
        else:
            s.do(FM, m, recorder(s, visits, d, lambda o: s.list(o)), unidirectional=False)
        check_visits(s, visits, {o.oid: o for o in objs}, what)
        deep.append(max(d))
    s.check(deep[0] == deep[1], f"{what} is not limited by the depth of the history",
            f"call depth {deep[0]} at 3 levels, {deep[1]} at 9")


def alone(s, what, path):
    """Every kind of reference is followed, each on its own."""
    h, t = single(s, path)
    both = {h.oid: h, t.oid: t}
    uni = what == "flatmap" and s.flag("one way")
    arg = s.list(h) if s.flag("in a list") else h
    visits = []
    if what == "foreach":
        s.do(FE, arg, recorder(s, visits))
    else:
        s.do(FM, arg, recorder(s, visits, None, lambda o: s.list(o)), unidirectional=uni)
    check_visits(s, visits, both, f"{what} from the referring object")
    # and back, where a reverse view exists
    want = {o.oid: o for o in reachable(s, t, not uni)}
    visits = []
    if what == "foreach":
        s.do(FE, t, recorder(s, visits))
    else:
        s.do(FM, t, recorder(s, visits, None, lambda o: s.list(o)), unidirectional=uni)
    check_visits(s, visits, want, f"{what} from the object referred to")


def failing(s, what):
    """The function's own exception reaches the caller and leaves the objects alone."""
    g = world(s, "none")
    rec = freeze(s, list(g.values()))

    def f(I, a, k):
        I.raise_("KeyError", "client")
    r = s.attempt(s.do, FE if what == "foreach" else FM, g["mr"], Native("f", f))
    s.raises(r, ("KeyError",), "the function's exception reaches the caller", what)
    d = thawed(s, rec)
    s.check(d is None, "a failing traversal changes nothing", str(d))


def run(r):
    for how in KEYS + ("list", "tuple", "tuple of list", "tuple of dict", "set", "values", "keys", "generator", "attribute",
                       "values view", "plain", "link"):
        for u in ("none", "all", "twins", "case"):
            r.scenario(f"foreach {how} {u}", foreach, how, u)
            r.scenario(f"flatmap {how} {u}", flatmap, how, u)
    for w in ("foreach", "flatmap"):
        r.scenario(f"twins {w}", twins, w)
        r.scenario(f"depth {w}", depth, w)
        r.scenario(f"failing {w}", failing, w)
        for p in SINGLE:
            r.scenario(f"only {p}, {w}", alone, w, p)
