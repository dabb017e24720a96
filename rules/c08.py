"""C08: the uid mapping treats scopes case-insensitively, consistently through every operation."""
import ast
from gsa.core import Obj
from rules.catalog import ENTITIES
from rules.common import entity

INFO = {
    "explanation":
        "Typestate of the case-insensitive mapping under a most general client: every sequence "
        "of dictionary operations with keys in several spellings, compared after each step with "
        "a reference map from folded key to (spelling, value); every lookup path (index, get, "
        "in, keys, items, iteration, length, equality, copy) has to agree, and a rejected "
        "operation has to leave the map as it was. Also through the uids of every entity class.",
    "assumptions": ["keys are text; two distinct folded keys and three spellings represent all "
                    "(the code can only compare spellings and folded spellings)"],
}
SPELL = ("Scope", "scope", "SCOPE")
KEYS = SPELL + ("other", "OTHER", "absent")
OPS = ("set", "del", "pop", "pop default", "popitem", "clear", "update dict", "update kw",
       "update cid", "ior", "setdefault", "setdefault none", "copy", "copy.copy", "update two",
       "update both", "update pairs", "get")


def view(s, d, ref, op, where=None):
    """All read paths agree with the reference."""
    def ck(cond, what, msg):
        s.check(cond, f"{what} after {op}", msg, where=where)
    items = list(s.I.mapping_items(d))
    ck(len(items) == len(ref), "number of entries", f"{items!r}, expected {ref!r}")
    ks = s.items(d)
    ck(len(ks) == len(ref), "iteration", f"{ks!r}, expected {list(ref.values())!r}")
    ck(s.I.meth(d, "__len__") == len(ref), "length", f"{items!r}")
    for k, v in items:
        r = ref.get(k.lower())
        ck(r is not None and r[0] == k and s.same(r[1], v), "stored entry",
           f"{k!r}: {v!r}, expected {r!r}")
    for k in KEYS:
        r = ref.get(k.lower())
        ck(s.I.contains(d, k) == (r is not None), "membership",
           f"{k!r} in d, expected {r is not None}")
        g = s.m(d, "get", k)
        ck(g is None if r is None else s.same(g, r[1]), "get", f"get({k!r}) is {g!r}, expected {r!r}")
        dflt = s.m(d, "get", k, 77)
        ck(dflt == 77 if r is None else s.same(dflt, r[1]), "get with default",
           f"get({k!r}, default) is {dflt!r}")
        a = s.attempt(s.I.getitem, d, k)
        if r is None:
            ck(s.is_exc(a, "KeyError"), "indexing an absent key", f"d[{k!r}] {a!r}")
        else:
            ck(a.ok and s.same(a.value, r[1]), "indexing", f"d[{k!r}] {a!r}, expected {r!r}")


def conflict(ref, key):
    r = ref.get(key.lower())
    return r is not None and r[0] != key


def apply(s, d, ref, op, i):
    """Returns (mapping now, reference now)."""
    I = s.I
    new = dict(ref)
    # what is stored does not matter to the mapping: also None and other false values
    v = {"update dict": None, "update cid": "", "ior": 0}.get(op, s.str(f"v{i}"))
    w = s.str(f"w{i}")
    if op == "popitem":
        r = s.attempt(s.m, d, "popitem")
        if not ref:
            s.raises(r, ("KeyError",), "popitem of an empty mapping", op)
        else:
            s.ok(r, "popitem", op)
            k = s.items(r.value)[0]
            s.check(k.lower() in new, "popitem returns an entry", f"{k!r}")
            s.check(s.same(s.items(r.value)[1], new[k.lower()][1]), "popitem returns an entry",
                    f"{r.value!r}")
            del new[k.lower()]
        return d, new
    if op == "clear":
        s.m(d, "clear")
        return d, {}
    if op in ("copy", "copy.copy"):
        c = s.m(d, "copy") if op == "copy" else s.do("copy.copy", d)
        s.check(c is not d, "copy is a new mapping", op)
        s.check(s.tname(c) == s.tname(d), "copy is case-insensitive too", f"{s.tname(c)}")
        view(s, c, ref, op)
        c2 = dict(ref)
        c2["absent"] = ("absent", v)
        new["other"] = new.get("other") or ("other", w)
        mine = s.choose("first changed", ["copy", "original"]) == "copy"
        for x in (True, False):
            if x == mine:
                I.setitem(c, "absent", v)
                view(s, d, ref if x else new, "changing a copy")
                view(s, c, c2, "changing a copy")
            else:
                I.setitem(d, *new["other"])
                view(s, c, c2 if mine else ref, "changing the copied mapping")
                view(s, d, new, "changing the copied mapping")
        for k in ("absent", "Scope", "OTHER"):
            if k.lower() in c2:
                I.delitem(c, k)
                del c2[k.lower()]
        view(s, c, c2, "emptying a copy")
        return d, new
    k = s.choose("key", KEYS)
    low = k.lower()
    if op == "set":
        r = s.attempt(I.setitem, d, k, v)
        if conflict(ref, k):
            s.raises(r, ("ValueError",), "another spelling of an existing scope is rejected", k)
        else:
            s.ok(r, "assignment", k)
            new[low] = (k, v)
    elif op == "del":
        r = s.attempt(I.delitem, d, k)
        if low in ref:
            s.ok(r, "deletion by any spelling", k)
            del new[low]
        else:
            s.raises(r, ("KeyError",), "deleting an absent key", k)
    elif op == "pop":
        r = s.attempt(s.m, d, "pop", k)
        if low in ref:
            s.check(s.same(s.ok(r, "pop by any spelling", k), ref[low][1]), "pop returns the value",
                    k)
            del new[low]
        else:
            s.raises(r, ("KeyError",), "popping an absent key", k)
    elif op == "pop default":
        dv = s.choose("default", [None, 5])
        r = s.attempt(s.m, d, "pop", k, dv)
        x = s.ok(r, "pop with a default", k)
        if low in ref:
            s.check(s.same(x, ref[low][1]), "pop returns the value", f"{k!r}: {x!r}")
            del new[low]
        else:
            s.check(x == dv, "pop returns the default", f"{k!r}: {x!r}")
    elif op in ("update dict", "update kw", "update cid", "ior", "update two", "update both",
                "update pairs"):
        pairs = [(k, v)]
        if op in ("update two", "update both", "update pairs"):
            k2 = s.choose("key2", ["third", "SCOPE", "other"])
            if k2 == k:
                s.done()
            pairs.append((k2, w))
        clash = any(conflict(ref, a) for a, _ in pairs) or \
            len({a.lower() for a, _ in pairs}) < len(pairs)
        if op == "update kw":
            r = s.attempt(s.m, d, "update", **dict(pairs))
        elif op == "update both":
            r = s.attempt(s.m, d, "update", s.dict(pairs[0]), **dict(pairs[1:]))
        elif op == "update pairs":
            r = s.attempt(s.m, d, "update", s.list(*[s.tuple(*q) for q in pairs]))
        elif op == "update cid":
            r = s.attempt(s.m, d, "update", s.new("CaseInsensitiveDict", s.dict(*pairs)))
        elif op == "ior":
            r = s.attempt(I.inplace, ast.BitOr(), d, s.dict(*pairs))
            if r.ok:
                s.check(r.value is d, "|= keeps the same mapping", f"{r.value!r}")
        else:
            r = s.attempt(s.m, d, "update", s.dict(*pairs))
        if clash:
            s.raises(r, ("ValueError",), "another spelling of an existing scope is rejected", op)
        else:
            s.ok(r, "update", op)
            for a, b in pairs:
                new[a.lower()] = (a, b)
    elif op in ("setdefault", "setdefault none"):
        r = s.attempt(s.m, d, "setdefault", k, v) if op == "setdefault" else \
            s.attempt(s.m, d, "setdefault", k)
        x = s.ok(r, "setdefault", k)
        if low in ref:
            s.check(s.same(x, ref[low][1]), "setdefault returns the present value", f"{x!r}")
        else:
            vv = v if op == "setdefault" else None
            s.check(x is vv, "setdefault returns the default", f"{x!r}")
            new[low] = (k, vv)
    elif op == "get":
        s.m(d, "get", k)
    return d, new


def made(s):
    start = s.choose("start", ["empty", "one", "two"])
    history(s, start, 0, None, s.choose("made from", ["dict", "kwargs", "pairs"]))


def history(s, start, steps, first=None, how="dict"):
    a, b = s.str("a"), s.str("b")
    ref = {"empty": {}, "one": {"scope": ("Scope", a)},
           "two": {"scope": ("Scope", a), "other": ("other", b)}}[start]
    if how == "kwargs":
        d = s.new("CaseInsensitiveDict", **{v[0]: v[1] for v in ref.values()})
    elif how == "pairs":
        d = s.new("CaseInsensitiveDict", s.list(*[s.tuple(*v) for v in ref.values()]))
    else:
        d = s.new("CaseInsensitiveDict", s.dict(*ref.values()))
    view(s, d, ref, "construction")
    for i in range(steps):
        op = first if i == 0 and first else s.choose("op", OPS)
        d, ref = apply(s, d, ref, op, i)
        view(s, d, ref, op)


def bad_construction(s):
    a, b = s.str("a"), s.str("b")
    how = s.choose("how", ["dict", "kwargs", "both", "pairs"])
    if how == "dict":
        r = s.try_new("CaseInsensitiveDict", s.dict(("X", a), ("x", b)))
    elif how == "kwargs":
        r = s.try_new("CaseInsensitiveDict", X=a, x=b)
    elif how == "both":
        r = s.try_new("CaseInsensitiveDict", s.dict(("X", a)), x=b)
    else:
        r = s.try_new("CaseInsensitiveDict", s.list(s.tuple("X", a), s.tuple("x", b)))
    s.raises(r, ("ValueError",), "two spellings of one scope are rejected", how)


def uids(s, cls):
    """The uids of an entity: any mapping or pair, case-insensitive, own copy."""
    a, b = s.str("a"), s.str("b")
    how = s.choose("given as", ["dict", "tuple", "cid", "none", "clash"])
    via = s.choose("via", ["constructor", "setter"])
    v = {"dict": lambda: s.dict(("Scope", a), ("other", b)), "tuple": lambda: s.tuple("Scope", a),
         "cid": lambda: s.new("CaseInsensitiveDict", s.dict(("Scope", a), ("other", b))),
         "none": lambda: None, "clash": lambda: s.dict(("Scope", a), ("scope", b))}[how]()
    if via == "constructor":
        r = s.attempt(lambda: entity(s, cls, s.str("n"), uids=v))
    else:
        o = entity(s, cls, s.str("n"), uids=s.dict(("old", s.str("o"))))
        r = s.try_put(o, "uids", v)
    if how == "clash":
        s.raises(r, ("ValueError",), f"{cls}: two spellings of one scope are rejected", via)
        if via == "setter":
            view(s, s.get(o, "uids"), {"old": ("old", s.m(s.get(o, "uids"), "get", "old"))},
                 "rejected assignment")
        s.done()
    s.ok(r, f"{cls}: uids accepted", how)
    if via == "constructor":
        o = r.value
    ref = {} if how == "none" else {"scope": ("Scope", a)}
    if how in ("dict", "cid"):
        ref["other"] = ("other", b)
    view(s, s.get(o, "uids"), ref, f"giving {how}")
    k = s.choose("add_uid", ["SCOPE", "Scope", "new"])
    c = s.str("c")
    r = s.attempt(s.m, o, "add_uid", k, c)
    if conflict(ref, k):
        s.raises(r, ("ValueError",), f"{cls}.add_uid rejects another spelling", k)
    else:
        s.ok(r, f"{cls}.add_uid", k)
        ref[k.lower()] = (k, c)
    view(s, s.get(o, "uids"), ref, "add_uid")
    if how in ("dict", "cid"):
        n = len(list(s.I.mapping_items(v)))
        s.check(n == 2, f"{cls}: the caller's mapping is not modified", f"{n} entries")


def run(r):
    for start in ("empty", "one", "two"):
        for op in OPS:
            r.scenario(f"history from {start}: {op}", history, start, 3 if r.thorough and
                       start == "one" else 2, op, max_paths=60000 if r.thorough else 12000,
                       seconds=600 if r.thorough else 120)
    r.scenario("constructions", made)
    r.scenario("conflicting constructions", bad_construction)
    for cls in ENTITIES:
        r.scenario(f"uids of {cls}", uids, cls)
