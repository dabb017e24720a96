"""C28: an ingredient run shows the name and labels of its spec."""
from rules.common import entity, link
from rules.graphs import freeze, thawed

INFO = {
    "explanation":
        "Typestate of the name and labels of an ingredient run: every sequence of spec "
        "assignments (objects, links, None, illegal), changes of the specs' own name and labels, "
        "and refused direct assignments is interpreted and compared with the last known name and "
        "labels after every step; the final state is then taken through every serialisation and "
        "substitution route, with the spec in the saved graph or only linked to.",
    "assumptions": ["two specs, histories of bounded length"],
    "min_scenarios": 6,
}
KEY = "name and labels follow the spec"


def spec(s, i, empty=False):
    labels = s.list(*[s.str(f"label{i}{j}") for j in range(2 * i)])
    return entity(s, "IngredientSpec", "" if empty else s.str(f"name{i}"), labels=labels,
                  uids=s.dict((s.str(f"scope{i}"), s.str(f"id{i}"))))


def read(s, o):
    l = s.get(o, "labels")
    return s.get(o, "name"), None if l is None else s.items(l)


def agrees(s, run, want, key, ctx):
    name, labels = read(s, run)
    if want is None:
        s.check(name is None and not labels, key, f"{ctx}: name {name!r}, labels {labels!r} "
                "without any spec so far", o=run)
        return
    s.check(name is not None and s.same(name, want[0]), key,
            f"{ctx}: name {name!r}, expected {want[0]!r}", o=run)
    s.check(labels is not None and len(labels) == len(want[1])
            and all(map(s.same, labels, want[1])), key,
            f"{ctx}: labels {labels!r}, expected {want[1]!r}", o=run)


class Model:
    """What the name and labels have to be."""

    def __init__(self, s):
        self.s, self.cur, self.last = s, None, None

    def set(self, x, kind):
        self.look()
        self.cur = x if kind == "object" else None

    def look(self):
        if self.cur is not None:
            self.last = read(self.s, self.cur)
        return self.last


def step(s, run, specs, model, i):
    act = s.choose(f"step {i}", ["spec0", "spec1", "link", "none", "illegal", "rename", "relabel",
                                 "grow", "set name", "set labels"])
    if act in ("spec0", "spec1"):
        x = specs[int(act[-1])]
        s.put(run, "spec", x)
        model.set(x, "object")
    elif act == "link":
        s.put(run, "spec", link(s))
        model.set(None, "link")
    elif act == "none":
        s.put(run, "spec", None)
        model.set(None, "none")
    elif act == "illegal":
        bad = {"opaque": s.opaque, "run": lambda: entity(s, "IngredientRun"),
               "other spec": lambda: entity(s, "MaterialSpec")}[
            s.choose("illegal", ["opaque", "run", "other spec"])]()
        model.look()
        s.raises(s.try_put(run, "spec", bad), ("TypeError", "ValueError"),
                 "only ingredient specs and links are accepted", repr(bad))
    elif act in ("rename", "relabel", "grow"):
        model.look()
        x = specs[s.choose("which", [0, 1])]
        if act == "rename":
            s.put(x, "name", s.str("renamed"))
        elif act == "relabel":
            s.put(x, "labels", s.list(s.str("relabelled")))
        else:
            s.m(s.get(x, "labels"), "append", s.str("grown"))
    else:
        before = read(s, run)
        model.look()
        f = act.split()[1]
        v = s.str("direct") if f == "name" else s.list(s.str("direct"))
        s.raises(s.try_put(run, f, v), ("AttributeError", "TypeError", "ValueError"),
                 "name and labels cannot be set directly", f)
    agrees(s, run, model.look(), KEY, act)


def start(s, how=None, empty=False):
    specs = [spec(s, 1), spec(s, 0, empty)]
    model = Model(s)
    how = how or s.choose("made with", ["nothing", "none", "object", "link"])
    if how == "nothing":
        run = s.new("IngredientRun")
    elif how == "none":
        run = s.new("IngredientRun", spec=None)
    elif how == "object":
        run = s.new("IngredientRun", spec=specs[0])
        model.set(specs[0], "object")
    else:
        run = s.new("IngredientRun", spec=link(s))
    agrees(s, run, model.look(), KEY, "after construction")
    return run, specs, model


def history(s, how, n):
    run, specs, model = start(s, how)
    for i in range(n):
        step(s, run, specs, model, i)


def refused(s):
    """The constructor takes neither, and a refused spec leaves nothing behind."""
    f = s.choose("field", ["name", "labels"])
    r = s.attempt(lambda: s.new("IngredientRun", **{f: s.str("x")}))
    s.raises(r, ("TypeError", "ValueError"), "name and labels cannot be given", f)


ROUTES = ("as_dict", "dump", "raw", "json", "copy", "flatten", "links", "links in place",
          "objects in place")


def route(s, run, how):
    J = s.new("GEMDJson")
    DS = s.cls("DictSerializable")
    if how == "as_dict":
        return s.m(s.cls("IngredientRun"), "from_dict", s.m(run, "as_dict"))
    if how == "dump":
        return s.m(DS, "build", s.m(run, "dump"))
    if how == "raw":
        return s.m(J, "raw_loads", s.m(J, "raw_dumps", run))
    if how == "json":
        return s.do("gemd.json.loads", s.do("gemd.json.dumps", run))
    if how == "copy":
        return s.m(J, "copy", run)
    if how == "flatten":
        return next(x for x in s.items(s.do("gemd.util.flatten", run, s.str("auto")))
                    if s.isa(x, "IngredientRun"))
    if how == "links":
        return s.do("gemd.util.substitute_links", run)
    if how == "links in place":
        s.do("gemd.util.substitute_links", run, inplace=True)
        return run
    idx = s.do("gemd.util.make_index", s.list(s.get(run, "spec")) if s.isa(
        s.get(run, "spec"), "IngredientSpec") else s.list())
    s.do("gemd.util.substitute_links", run, inplace=True)
    s.do("gemd.util.substitute_objects", run, idx, inplace=True)
    return run


def saved(s, how):
    run, specs, model = start(s, empty=True)
    s.put(run, "uids", s.dict((s.str("rs"), s.str("rid"))))
    step(s, run, specs, model, 0)
    if how in ("as_dict", "dump", "raw") and s.isa(s.get(run, "spec"), "IngredientSpec"):
        # these forms are for linked objects: save the run with a link in its place
        s.put(run, "spec", s.m(s.get(run, "spec"), "to_link"))
        model.set(None, "link")
    want = model.look()
    rec = freeze(s, [run] + specs)
    back = s.ok(s.attempt(route, s, run, how), "the run can be taken through the route", how)
    s.check(s.isa(back, "IngredientRun"), "the run can be taken through the route", repr(back))
    agrees(s, back, want, "name and labels survive", how)
    if "in place" not in how:
        d = thawed(s, rec)
        s.check(d is None, "saving leaves the run alone", str(d))
        # and again, once more removed from the spec
        if s.flag("twice"):
            agrees(s, route(s, back, how), want, "name and labels survive", how + " twice")
    for x in specs:
        s.put(x, "name", s.str("later"))
        s.m(s.get(x, "labels"), "append", s.str("later label"))
    if back is not run or not s.isa(s.get(run, "spec"), "IngredientSpec"):
        if not any(s.get(back, "spec") is x for x in specs):
            agrees(s, back, want, "remembered name and labels are the run's own", how)


def run(r):
    for how in ("nothing", "none", "object", "link"):
        r.scenario(f"history, made with {how}", history, how, 3 if r.thorough else 2)
    r.scenario("three steps from an object", history, "object", 3, max_paths=20000, seconds=200)
    r.scenario("constructor arguments", refused)
    for how in ROUTES:
        r.scenario(f"saved by {how}", saved, how)
