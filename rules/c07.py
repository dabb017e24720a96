"""C07: a validated list only ever holds accepted elements, with its trigger applied."""
import ast
from gsa.core import Obj, Native, Slice, PyExc
from rules.common import entity

INFO = {
    "explanation":
        "Typestate of the validated list under a most general client: every construction and "
        "every sequence of mutating list operations with conforming, non-conforming and "
        "trigger-rejected elements is interpreted; after each step the contents must equal those "
        "of a plain list of (trigger-processed) accepted elements, or be unchanged if the step "
        "was rejected.",
    "assumptions": ["lists of up to four elements", "the trigger is an arbitrary callable that "
                    "accepts, replaces or rejects an element"],
}
OPS = ("append", "extend", "extend gen", "extend tuple", "insert", "insert end", "insert neg",
       "insert back", "insert before",
       "setitem", "setitem last", "slice", "slice gen", "slice empty", "slice all", "iadd",
       "iadd gen", "pop", "remove", "del", "clear", "reverse", "extend self", "del slice",
       "step", "step back", "step gen", "slice self", "iadd self", "imul")


class Client:
    def __init__(self, s, trig):
        self.s, self.calls = s, []
        self.rep = {}
        self.mode = trig

    def trigger(self):
        if self.mode == "none":
            return None

        def fn(I, a, k):
            x = a[0]
            self.calls.append(x)
            if self.mode == "reject" and any(x is y for y in self.bad):
                I.raise_("ValueError", "rejected by the trigger")
            if self.mode == "replace":
                r = self.rep.get(id(x))
                if r is None:
                    r = self.s.str("replaced_" + getattr(x, "name", "?"))
                    self.rep[id(x)] = r
                    self.rep[id(r)] = r
                return r
            return "" if self.mode == "falsy" else None
        return Native("client.trigger", fn)

    bad = ()

    def out(self, x):
        if self.mode == "replace":
            return self.rep.get(id(x), x)
        return "" if self.mode == "falsy" else x


def make(s, trig, content):
    c = Client(s, trig)
    elems = [s.str(f"e{i}") for i in range(3)]
    typ = {"single": s.I.builtins["str"],
           "list": s.list(s.I.builtins["str"], s.cls("BaseEntity")),
           "tuple": s.tuple(s.I.builtins["str"], s.cls("BaseEntity"))}[content]
    args = [s.list(*elems[:2]), typ]
    if trig != "none":
        args.append(c.trigger())
    lst = s.new("ValidList", *args)
    want = [c.out(x) for x in elems[:2]]
    same(s, lst, want, "construction")
    if trig != "none":
        s.check(len(c.calls) == 2 and all(a is b for a, b in zip(c.calls, elems)),
                "the trigger sees each constructed element once", f"{c.calls!r}")
    c.calls.clear()
    return c, lst, want


def same(s, lst, want, op, where=None):
    got = list(lst.p) if isinstance(lst, Obj) and isinstance(lst.p, list) else None
    s.check(got is not None and len(got) == len(want) and
            all(a is b or s.same(a, b) for a, b in zip(got, want)),
            f"contents after {op}", f"holds {got!r}, expected {want!r}", where=where)


def step(s, c, lst, want, op, x, y):
    """Apply op to the validated list and to the reference; x, y are the new elements."""
    I, n = s.I, len(want)
    ref = list(want)
    o = c.out

    def added(*xs):
        return [o(e) for e in xs]
    setitem = I.setitem
    if op == "append":
        f, g, used = lambda: s.m(lst, "append", x), lambda: ref.append(o(x)), [x]
    elif op == "extend":
        f, g, used = lambda: s.m(lst, "extend", s.list(x, y)), lambda: ref.extend(added(x, y)), \
            [x, y]
    elif op == "extend gen":
        f, g, used = lambda: s.m(lst, "extend", s.generator(x, y)), \
            lambda: ref.extend(added(x, y)), [x, y]
    elif op == "extend tuple":
        f, g, used = lambda: s.m(lst, "extend", s.tuple(x, y)), \
            lambda: ref.extend(added(x, y)), [x, y]
    elif op.startswith("insert"):
        i = {"insert": 0, "insert end": n + 2, "insert neg": -1, "insert back": -n,
             "insert before": -n - 2}[op]
        f, g, used = lambda: s.m(lst, "insert", i, x), lambda: ref.insert(i, o(x)), [x]
    elif op in ("setitem", "setitem last"):
        if not n:
            return None
        i = 0 if op == "setitem" else -1
        f, g, used = lambda: setitem(lst, i, x), lambda: ref.__setitem__(i, o(x)), [x]
    elif op.startswith("slice") and op != "slice self":
        sl = {"slice": (0, 1), "slice gen": (0, 1), "slice empty": (n, n),
              "slice all": (None, None)}[op]
        src = s.generator(x, y) if op == "slice gen" else s.list(x, y)
        f, g, used = lambda: setitem(lst, Slice(sl[0], sl[1], None), src), \
            lambda: ref.__setitem__(slice(*sl), added(x, y)), [x, y]
    elif op.startswith("step"):
        if n < 2:
            return None
        sl = {"step": (None, None, 2), "step back": (None, None, -1), "step gen": (1, None, 2)}[op]
        ys = ([x, y] + want)[:len(want[slice(*sl)])]
        src = s.generator(*ys) if op == "step gen" else s.list(*ys)
        f, g, used = lambda: setitem(lst, Slice(*sl), src), \
            lambda: ref.__setitem__(slice(*sl), added(*ys)), ys
    elif op == "slice self":
        f, g, used = lambda: setitem(lst, Slice(0, 0, None), lst), \
            lambda: ref.__setitem__(slice(0, 0), added(*want)), list(want)
    elif op == "iadd self":
        f, g, used = lambda: I.inplace(ast.Add(), lst, lst), lambda: ref.extend(added(*want)), \
            list(want)
    elif op == "imul":
        f, g, used = lambda: I.inplace(ast.Mult(), lst, 2), lambda: ref.extend(list(ref)), []
    elif op in ("iadd", "iadd gen"):
        src = s.generator(x, y) if op == "iadd gen" else s.list(x, y)

        def f():
            r = I.inplace(ast.Add(), lst, src)
            s.check(r is lst, "+= keeps the same list", f"{r!r}")
        g, used = lambda: ref.extend(added(x, y)), [x, y]
    elif op == "pop":
        if not n:
            return None
        f, g, used = lambda: s.m(lst, "pop"), ref.pop, []
    elif op == "remove":
        if not n:
            return None
        f, g, used = lambda: s.m(lst, "remove", want[0]), lambda: ref.__delitem__(0), []
    elif op == "del":
        if not n:
            return None
        f, g, used = lambda: I.delitem(lst, 0), lambda: ref.__delitem__(0), []
    elif op == "del slice":
        f, g, used = lambda: I.delitem(lst, Slice(0, 1, None)), \
            lambda: ref.__delitem__(slice(0, 1)), []
    elif op == "clear":
        f, g, used = lambda: s.m(lst, "clear"), ref.clear, []
    elif op == "reverse":
        f, g, used = lambda: s.m(lst, "reverse"), ref.reverse, []
    elif op == "extend self":
        f, g, used = lambda: s.m(lst, "extend", lst), \
            lambda: ref.extend([o(e) for e in list(ref)]), list(want)
    return f, g, used, ref


def history(s, trig, content, steps, first=OPS):
    c, lst, want = make(s, trig, content)
    for i in range(steps):
        op = s.choose("op", OPS if i else first)
        kind = s.choose("elements", ["good", "bad", "second bad"] +
                        (["trigger rejects", "trigger rejects second"]
                         if trig == "reject" else []))
        x, y = s.str(f"x{i}"), s.str(f"y{i}")
        if kind == "bad":
            x = s.opaque()
        if kind == "second bad":
            y = s.choose("what", [s.opaque(), None, 5])
        c.bad = {"trigger rejects": [x], "trigger rejects second": [y]}.get(kind, [])
        c.calls.clear()
        plan = step(s, c, lst, want, op, x, y)
        if plan is None:
            s.done()
        f, g, used, ref = plan
        bad = [u for u in used if (u is x and kind == "bad") or (u is y and kind == "second bad")]
        rej = [u for u in used if any(u is b for b in c.bad)]
        if kind != "good" and not bad and not rej:
            s.done()     # the offending element is not used by this operation
        r = s.attempt(f)
        if bad:
            s.raises(r, ("TypeError",), f"{op} rejects an element of another type", op)
            same(s, lst, want, f"rejected {op}", r.exc.origin)
        elif rej:
            s.raises(r, ("ValueError",), f"{op} passes on the trigger's rejection", op)
            same(s, lst, want, f"rejected {op}", r.exc.origin)
        else:
            s.ok(r, f"{op} accepts conforming elements", op)
            g()
            want = ref
            same(s, lst, want, op)
            if trig != "none":
                s.check(len(c.calls) == len(used) and
                        all(a is b for a, b in zip(c.calls, used)),
                        f"{op}: the trigger sees each new element exactly once", f"{c.calls!r}")


def places(s, trig):
    """Every place an index or a slice can name, as on a plain list."""
    c = Client(s, trig)
    xs = [s.str(f"e{i}") for i in range(4)]
    src = s.list(*xs)
    lst = s.new("ValidList", src, s.I.builtins["str"], *([] if trig == "none" else [c.trigger()]))
    ref = [c.out(x) for x in xs]
    ys = [s.str(f"y{i}") for i in range(3)]
    op = s.choose("op", ["insert", "setitem", "slice", "pop", "del", "del slice", "extend"])
    exc = None
    if op in ("slice", "del slice"):
        sl = (s.choose("start", [None, 0, 1, 3, 6, -1, -2, -6]),
              s.choose("stop", [None, 0, 2, 4, 9, -1, -3]), s.choose("step", [None, 2, -1]))
    else:
        i = s.choose("index", list(range(-7, 7)))
    n = s.choose("elements", [0, 1, 2, 3]) if op in ("slice", "extend") else 1
    given = s.list(*ys[:n])
    c.calls.clear()
    # replacements are named on first use
    if trig == "replace":
        t = c.trigger()
        news = [s.I.call(t, [y], {}) for y in ys[:n]]
        c.calls.clear()
    else:
        news = [c.out(y) for y in ys[:n]]
    try:
        if op == "insert":
            ref.insert(i, news[0])
        elif op == "setitem":
            ref[i] = news[0]
        elif op == "slice":
            ref[slice(*sl)] = news
        elif op == "pop":
            ref.pop(i)
        elif op == "del":
            del ref[i]
        elif op == "del slice":
            del ref[slice(*sl)]
        else:
            ref.extend(news)
    except (IndexError, ValueError) as e:
        exc = type(e).__name__
    f = {"insert": lambda: s.m(lst, "insert", i, ys[0]),
         "setitem": lambda: s.I.setitem(lst, i, ys[0]),
         "slice": lambda: s.I.setitem(lst, Slice(*sl), given),
         "pop": lambda: s.m(lst, "pop", i), "del": lambda: s.I.delitem(lst, i),
         "del slice": lambda: s.I.delitem(lst, Slice(*sl)),
         "extend": lambda: s.m(lst, "extend", given)}[op]
    r = s.attempt(f)
    if exc:
        s.raises(r, (exc,), "a place that does not exist is refused", op)
    else:
        s.ok(r, f"{op} accepts conforming elements", op)
    same(s, lst, ref, op)
    same(s, given, ys[:n], f"{op}, of the list given")
    same(s, src, xs, "construction, of the list given")


def wrong_place(s, trig):
    """Places that do not exist: refused like a plain list does, contents unchanged."""
    c, lst, want = make(s, trig, "single")
    x, y = s.str("x"), s.str("y")
    k = s.choose("what", ["index", "negative", "long step", "short step", "del", "pop", "remove",
                          "text index", "not iterable", "not iterable slice"])
    sl = Slice(None, None, 2)
    f, exc = {
        "index": (lambda: s.I.setitem(lst, 2, x), "IndexError"),
        "negative": (lambda: s.I.setitem(lst, -3, x), "IndexError"),
        "long step": (lambda: s.I.setitem(lst, sl, s.list(x, y)), "ValueError"),
        "short step": (lambda: s.I.setitem(lst, sl, s.list()), "ValueError"),
        "del": (lambda: s.I.delitem(lst, 5), "IndexError"),
        "pop": (lambda: s.m(lst, "pop", 7), "IndexError"),
        "remove": (lambda: s.m(lst, "remove", 17), "ValueError"),
        "text index": (lambda: s.I.setitem(lst, "0", x), "TypeError"),
        "not iterable": (lambda: s.m(lst, "extend", 5), "TypeError"),
        "not iterable slice": (lambda: s.I.setitem(lst, sl, 5), "TypeError"),
    }[k]
    r = s.attempt(f)
    s.raises(r, (exc,), "a place that does not exist is refused", k)
    same(s, lst, want, f"refused {k}")


def constructor(s, content):
    """Construction from any iterable; wrong elements anywhere are rejected."""
    src = s.choose("source", ["list", "tuple", "generator", "set", "empty"])
    k = s.choose("wrong", ["none", "first", "last"])
    xs = [s.str("a"), s.str("b"), s.str("c")]
    if k != "none" and src not in ("empty",):
        xs[0 if k == "first" else -1] = s.opaque()
    elif k != "none":
        s.done()
    it = {"list": s.list, "tuple": s.tuple, "generator": s.generator, "set": s.set,
          "empty": lambda *a: s.list()}[src](*xs)
    typ = {"single": s.I.builtins["str"], "list": s.list(s.I.builtins["str"]),
           "tuple": s.tuple(s.I.builtins["str"], s.cls("LinkByUID"))}[content]
    fn = s.choose("how", ["ValidList", "validate_list"])
    r = s.attempt(lambda: s.new("ValidList", it, typ)) if fn == "ValidList" else \
        s.attempt(lambda: s.do("gemd.entity.setters.validate_list", it, typ))
    if k != "none":
        s.raises(r, ("TypeError",), "construction rejects elements of another type", src)
    else:
        v = s.ok(r, "construction accepts any iterable", src)
        if src == "set":
            s.check(len(v.p) == 3, "all elements kept", f"{v!r}")
        else:
            same(s, v, [] if src == "empty" else xs, f"construction from {src}")


def single_or_none(s):
    """validate_list: None is empty, a single element is a list of one, text is one element."""
    k = s.choose("what", ["none", "text", "entity", "wrong"])
    v = {"none": None, "text": s.str("t"), "entity": entity(s, "ProcessRun"),
         "wrong": s.opaque()}[k]
    typ = s.list(s.I.builtins["str"], s.cls("BaseEntity"))
    r = s.attempt(s.do, "gemd.entity.setters.validate_list", v, typ)
    if k == "wrong":
        s.raises(r, ("TypeError",), "a single wrong element is rejected", k)
    else:
        same(s, s.ok(r, "accepted", k), [] if k == "none" else [v], f"validate_list({k})")


def bad_filters(s):
    k = s.choose("filter", ["instance", "mixed", "dict", "trigger"])
    e = s.list(s.str("a"))
    if k == "trigger":
        r = s.try_new("ValidList", e, s.I.builtins["str"], s.opaque())
    else:
        t = {"instance": s.opaque(), "mixed": s.list(s.I.builtins["str"], 5),
             "dict": s.dict((s.I.builtins["str"], 1))}[k]
        r = s.try_new("ValidList", e, t)
    s.raises(r, ("TypeError",), "filters must be types and triggers callable", k)


FIELDS = (("MaterialRun", "tags", "str"), ("MaterialRun", "file_links", "FileLink"),
          ("IngredientSpec", "labels", "str"), ("ProcessTemplate", "allowed_names", "str"),
          ("ProcessTemplate", "allowed_labels", "str"), ("ProcessRun", "conditions", "Condition"),
          ("MeasurementRun", "properties", "Property"), ("ProcessSpec", "parameters", "Parameter"),
          ("MaterialSpec", "properties", "PropertyAndConditions"),
          ("ProcessTemplate", "conditions", "ConditionTemplate"),
          ("MeasurementTemplate", "parameters", "ParameterTemplate"),
          ("MaterialTemplate", "properties", "PropertyTemplate"))


def field_iterables(s, cls, f, kind):
    """List-valued fields accept any iterable (also one-shot ones) and lose nothing."""
    mk = {"str": lambda i: s.str(f"t{i}"),
          "FileLink": lambda i: s.new("FileLink", s.str("f"), s.str("u")),
          "PropertyAndConditions": lambda i: s.new("PropertyAndConditions",
                                                   s.new("Property", s.str(f"p{i}")))}.get(kind)
    if mk is None:
        mk = (lambda i: entity(s, kind, s.str(f"t{i}"))) if kind.endswith("Template") else \
            (lambda i: s.new(kind, s.str(f"a{i}")))
    xs = [mk(0), mk(1), mk(2)]
    src = s.choose("source", ["list", "tuple", "generator"])
    it = {"list": s.list, "tuple": s.tuple, "generator": s.generator}[src](*xs)
    if s.flag("constructor"):
        o = entity(s, cls, s.str("o"), **{f: it})
    else:
        o = entity(s, cls, s.str("o"), **{f: s.list(mk(9))})
        s.put(o, f, it)
    got = s.items(s.get(o, f))
    if kind.endswith("Template"):
        got = [s.items(g)[0] for g in got]
    s.check(len(got) == 3 and all(a is b for a, b in zip(got, xs)),
            f"{cls}.{f} keeps every element of the iterable", f"{src}: {got!r}")


def run(r):
    for trig in ("none", "accept", "replace", "falsy", "reject"):
        for content in ("single", "list"):
            if trig == "falsy":
                r.scenario(f"history, trigger {trig}, {content} filter", history, trig, content, 1)
                continue
            if content == "list" and not r.thorough:
                r.scenario(f"history, trigger {trig}, {content} filter", history, trig, content, 1)
                continue
            for op in OPS:
                r.scenario(f"history, trigger {trig}, {content} filter, first {op}", history, trig,
                           content, 3 if r.thorough and content == "single" else 2, (op,),
                           max_paths=40000)
    for content in ("single", "list", "tuple"):
        r.scenario(f"construction, {content} filter", constructor, content)
    for trig in ("none", "accept", "replace"):
        r.scenario(f"places, trigger {trig}", places, trig)
        r.scenario(f"wrong places, trigger {trig}", wrong_place, trig)
    r.scenario("single or none", single_or_none)
    r.scenario("filters", bad_filters)
    for cls, f, kind in FIELDS:
        r.scenario(f"iterables {cls}.{f}", field_iterables, cls, f, kind)
