"""C10: the validation level is what was last set, and a scoped level is always undone."""
from gsa.core import PyExc
from rules.c09 import LEVELS

INFO = {
    "explanation":
        "Typestate of the process-wide validation level: every sequence of set and scoped "
        "changes (nested, left normally, by exception, by early return of a generator), with "
        "illegal levels, is interpreted and the level read back after every step.",
    "assumptions": ["contextlib.contextmanager semantics as modelled"],
}
BV = "gemd.entity.bounds_validation."


def level(s, lv):
    return s.get(s.cls(BV + "WarningLevel"), lv)


def now(s):
    return s.do(BV + "get_validation_level")


def is_level(s, v, lv):
    return v is level(s, lv) or s.I.prim_eq(v, level(s, lv))


def forms(s, lv):
    return {"member": level(s, lv), "int": LEVELS.index(lv)}[s.choose("as", ["member", "int"])]


def illegal(s):
    return {"number": 7, "negative": -1, "text": s.str("t"), "none": None,
            "opaque": s.opaque()}[s.choose("illegal", ["number", "negative", "text", "none",
                                                       "opaque"])]


def setting(s):
    s.check(is_level(s, now(s), "WARNING"), "the initial level is WARNING", f"{now(s)!r}")
    cur = "WARNING"
    for i in range(2):
        if s.flag("legal"):
            cur = s.choose("set", LEVELS)
            s.do(BV + "set_validation_level", forms(s, cur))
        else:
            r = s.attempt(s.do, BV + "set_validation_level", illegal(s))
            s.raises(r, ("ValueError", "TypeError"), "an illegal level is rejected", "set")
        s.check(is_level(s, now(s), cur), "the level is the one last set", f"{now(s)!r}")
        s.check(s.isa(now(s), s.cls(BV + "WarningLevel")), "the level is a WarningLevel",
                f"{now(s)!r}")


def scoped(s, depth):
    cur = s.choose("start", LEVELS)
    s.do(BV + "set_validation_level", level(s, cur))
    nest(s, cur, depth)
    s.check(is_level(s, now(s), cur), "the outer level is back at the end", f"{now(s)!r}")


class Boom(Exception):
    pass


def nest(s, outer, depth):
    if s.flag("legal"):
        inner = s.choose("scope", LEVELS)
        v = forms(s, inner)
    else:
        r = s.attempt(lambda: s.I.cm_enter(s.do(BV + "validation_level", illegal(s))))
        s.raises(r, ("ValueError", "TypeError"), "an illegal scoped level is rejected", "scope")
        s.check(is_level(s, now(s), outer), "a rejected scoped level changes nothing",
                f"{now(s)!r}")
        return
    mgr = s.do(BV + "validation_level", v)
    got = s.I.cm_enter(mgr)
    s.check(is_level(s, now(s), inner), "the scoped level applies inside", f"{now(s)!r}")
    s.check(is_level(s, got, outer), "entering returns the previous level", f"{got!r}")
    act = s.choose("inside", ["nothing", "set", "nested"] if depth > 1 else ["nothing", "set"])
    if act == "set":
        s.do(BV + "set_validation_level", level(s, s.choose("to", LEVELS)))
    elif act == "nested":
        nest(s, inner, depth - 1)
        s.check(is_level(s, now(s), inner), "the enclosing scope's level is back", f"{now(s)!r}")
    how = s.choose("leave", ["normally", "ValueError", "KeyboardInterrupt", "StopIteration"])
    if how == "normally":
        s.I.cm_exit(mgr, None)
    else:
        e = PyExc(s.I.make_exc(s.I.exc_class(how), "client"), "client")
        swallowed = s.attempt(s.I.cm_exit, mgr, e)
        if swallowed.ok:
            s.check(not swallowed.value, "an exception in the scope is not swallowed", how)
        else:
            s.check(swallowed.exc.value is e.value, "the client's exception passes through",
                    f"{swallowed!r}")
    s.check(is_level(s, now(s), outer), "leaving a scope restores the previous level",
            f"{now(s)!r} after leaving by {how}, was {outer}")


def rejection_inside(s):
    """A FATAL rejection inside a scope is an exit by exception like any other."""
    from rules.common import entity
    mgr = s.do(BV + "validation_level", level(s, "FATAL"))
    s.I.cm_enter(mgr)
    t = entity(s, "PropertyTemplate", bounds=s.new("RealBounds", 0, 1, "m"))
    r = s.attempt(lambda: s.new("Property", s.str("n"), template=t,
                                value=s.new("NominalReal", 5, "m")))
    s.check(r.exc is not None, "FATAL applies in the scope", f"{r!r}")
    s.attempt(s.I.cm_exit, mgr, r.exc)
    s.check(is_level(s, now(s), "WARNING"), "leaving a scope restores the previous level",
            f"{now(s)!r}")


def unaffected(s):
    """No other operation changes the level, whether it succeeds or fails."""
    from rules.graphs import world
    lv = s.choose("level", LEVELS)
    s.do(BV + "set_validation_level", level(s, "IGNORE"))
    g = world(s, "some")
    s.do(BV + "set_validation_level", level(s, lv))
    what = s.choose("operation", ["dumps", "flatten", "copy", "make_instance", "bad value"])
    if what == "dumps":
        s.attempt(lambda: s.do("gemd.json.loads", s.do("gemd.json.dumps", g["mr"])))
    elif what == "flatten":
        s.attempt(s.do, "gemd.util.flatten", g["mr"], s.str("sc"))
    elif what == "copy":
        s.attempt(s.m, s.new("GEMDJson"), "copy", g["mr"])
    elif what == "make_instance":
        s.attempt(s.do, "gemd.entity.util.make_instance", g["ms"])
    else:
        s.attempt(lambda: s.new("Property", s.str("n"), template=g["prt"],
                                value=s.new("NominalInteger", 999)))
    s.check(is_level(s, now(s), lv), f"{what} does not change the level", f"{now(s)!r}")


def run(r):
    r.scenario("setting", setting)
    r.scenario("scopes", scoped, 3 if r.thorough else 2, max_paths=40000)
    r.scenario("rejection inside a scope", rejection_inside)
    r.scenario("other operations", unaffected)
