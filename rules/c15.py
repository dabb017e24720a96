"""C15: unit definitions in force, remembered results and the working directory."""
from gsa.core import Obj, touch

INFO = {
    "explanation":
        "Typestate of the unit definitions: sequences of queries (filling every memo), changes of "
        "the definitions (absolute path, relative path, back to the default) and failures at "
        "every external step of a change (path missing, directory cannot be entered, definitions "
        "unreadable) are interpreted; each definitions file gives its own symbolic units, so "
        "which definitions answered is visible in every result, and the working directory is "
        "compared after every step.",
    "assumptions": ["pint answers by the registry it is called on",
                    "a definitions file is read when the change to it is made",
                    "failures: missing path, chdir failure, unreadable definitions",
                    "restoring the original directory does not itself fail"],
}
U = "gemd.units."
FILES = {"a": "/abstract-files/a/units.txt", "b": "sub/b.txt", "default": None}
DEFAULT = "/abstract-tmp/citrine_en.txt"
CWD = "/abstract-cwd"
WHERE = {"a": FILES["a"], "b": CWD + "/sub/b.txt", "default": DEFAULT}


def cwd(s):
    return s.I.proc.d["cwd"].d["#key"]


def reg_of(s, u):
    return u.d["#reg"].d["#file"]


def query(s, x, force, when, edits=0):
    """Every unit operation answers by the definitions in force; fills the memos too."""
    f = WHERE[force] + "_edited" * (edits if force != "default" else 0)
    other = force != "default"

    def names(v, plain):
        return s.I.prim_eq(v, s.I.unit_name(plain, f) if other else plain)
    for name, plain in (("m", "meter"), ("cm", "centimeter")):
        v = s.do(U + "parse_units", name)
        s.check(names(v, plain), "parsing answers by the definitions in force",
                f"parse_units({name!r}) {when} gave {v!r}, definitions {f}")
        u = s.do(U + "parse_units", name, return_unit=True)
        s.check(isinstance(u, Obj) and reg_of(s, u) == f,
                "unit objects belong to the definitions in force",
                f"{when}: unit of {reg_of(s, u)}, definitions {f}")
    v = s.do(U + "convert_units", x, "m", "cm")
    t = v.term if not isinstance(v, float) else None
    s.check(t is not None and t[0] == "conv" and names(t[3], "centimeter"),
            "conversion answers by the definitions in force",
            f"convert_units {when} gave {v!r}, definitions {f}")
    b = s.do(U + "get_base_units", "cm")
    u = s.items(b)[0]
    s.check(isinstance(u, Obj) and reg_of(s, u) == f,
            "base units answer by the definitions in force",
            f"get_base_units {when}: {u!r}, definitions {f}")
    if force == "default":
        bd = s.new("RealBounds", 0, 1, "cm")
        s.check(s.I.prim_eq(s.get(bd, "default_units"), "centimeter"),
                "bounds' units answer by the definitions in force",
                f"{s.get(bd, 'default_units')!r}")


def history(s, steps, faults):
    x = s.float("x")
    force = "default"
    query(s, x, force, "at first")
    for i in range(steps):
        to = s.choose("change to", list(FILES))
        s.I.faults = faults
        if to == "default" and s.flag("no argument"):
            r = s.attempt(s.do, U + "change_definitions_file")
        else:
            r = s.attempt(s.do, U + "change_definitions_file", FILES[to])
        s.I.faults = False
        if r.ok:
            force = to
        elif not faults:
            s.ok(r, "a change to a readable file succeeds", to)
        s.check(cwd(s) == CWD, "the working directory is unchanged",
                f"{cwd(s)!r} after a {'successful' if r.ok else 'failed'} change to {to}",
                where=None)
        query(s, x, force, f"after {'a' if r.ok else 'a failed'} change to {to}")


def edited(s):
    """The same file given again after its contents have changed."""
    x = s.float("x")
    to = s.choose("file", ["a", "b"])
    s.do(U + "change_definitions_file", FILES[to])
    query(s, x, to, "after a change")
    between = s.choose("between", ["nothing", "default", "other"])
    if between != "nothing":
        other = "default" if between == "default" else "b" if to == "a" else "a"
        s.do(U + "change_definitions_file", FILES[other])
        query(s, x, other, "after another change")
    touch(s.I.proc)
    s.I.proc.d["#edits"] = 1
    s.do(U + "change_definitions_file", FILES[to])
    query(s, x, to, "after a change to the edited file", 1)


def failing_query(s):
    """A unit unknown or incompatible is refused, again after a change, and remembers nothing."""
    to = s.choose("change to", list(FILES))
    x = s.float("x")
    for i in range(2):
        r = s.attempt(s.do, U + "parse_units", "not_a_unit")
        s.check(r.exc is not None, "unknown units are refused", f"{r!r}")
        r = s.attempt(s.do, U + "convert_units", x, "m", "kg")
        s.check(r.exc is not None, "incompatible units are refused", f"{r!r}")
        s.do(U + "change_definitions_file", FILES[to])


def run(r):
    r.scenario("changes", history, 3 if r.thorough else 2, False)
    r.scenario("one failing change", history, 1, True)
    r.scenario("failing changes", history, 3 if r.thorough else 2, True)
    r.scenario("edited file", edited)
    r.scenario("refused queries", failing_query)
