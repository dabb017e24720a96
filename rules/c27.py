"""C27: importing and using the library leaves the surrounding process alone."""
import ast
import os

from gsa.core import Obj
from rules.catalog import FIELDS, build
from rules.c09 import LEVELS, set_level
from rules.common import entity
from rules.graphs import world

INFO = {
    "explanation":
        "Effect lint: every call and assignment in every module of the package (demonstration "
        "scripts and __main__ blocks aside) is resolved through the import table and compared "
        "with the operations of the standard library and pint that act on the process (output, "
        "logging and warnings configuration, environment, working directory, interpreter limits, "
        "random state, signals, files). Effect analysis: the events of importing every module and "
        "of a battery of public operations, succeeding and failing, at every validation level, "
        "are collected by interpretation.",
    "assumptions": ["third-party calls other than those listed have no effect on the process"],
    "min_scenarios": 30, "min_sites": 60,
}

# dotted names that act on the process, by prefix
FORBIDDEN = {
    "print": "prints", "input": "reads the terminal", "breakpoint": "enters the debugger",
    "exit": "ends the process", "quit": "ends the process",
    "pprint.pprint": "prints", "pprint.pp": "prints", "sys.stdout": "prints",
    "sys.stderr": "prints", "sys.__stdout__": "prints", "sys.__stderr__": "prints",
    "traceback.print_": "prints", "warnings.showwarning": "prints", "os.write": "writes",
    "faulthandler.": "writes",
    "logging.basicConfig": "configures logging", "logging.disable": "configures logging",
    "logging.config": "configures logging", "logging.captureWarnings": "configures logging",
    "logging.setLoggerClass": "configures logging", "logging.addLevelName": "configures logging",
    "logging.debug": "configures the root logger", "logging.info": "configures the root logger",
    "logging.warning": "configures the root logger", "logging.error": "configures the root logger",
    "logging.critical": "configures the root logger", "logging.warn": "configures the root logger",
    "logging.exception": "configures the root logger", "logging.log": "configures the root logger",
    "warnings.simplefilter": "changes the warnings filters",
    "warnings.filterwarnings": "changes the warnings filters",
    "warnings.resetwarnings": "changes the warnings filters",
    "os.putenv": "changes the environment", "os.unsetenv": "changes the environment",
    "os.umask": "changes the process", "os.setuid": "changes the process",
    "os.fchdir": "changes the working directory", "os.kill": "acts on processes",
    "os.system": "runs a program", "os.popen": "runs a program", "os.exec": "runs a program",
    "os.spawn": "runs a program", "os.fork": "runs a program", "os._exit": "ends the process",
    "os.remove": "deletes a file", "os.unlink": "deletes a file", "os.rmdir": "deletes a file",
    "os.removedirs": "deletes a file", "os.rename": "moves a file", "os.replace": "moves a file",
    "os.mkdir": "makes a directory", "os.makedirs": "makes a directory",
    "os.symlink": "makes a file", "os.truncate": "writes a file", "os.chmod": "changes a file",
    "shutil.": "acts on files", "subprocess.": "runs a program", "socket.": "uses the network",
    "urllib.request": "uses the network", "requests.": "uses the network", "signal.": "signals",
    "atexit.": "acts at exit", "multiprocessing.": "runs a program",
    "threading.": "starts or configures threads", "locale.setlocale": "changes the locale",
    "sys.setrecursionlimit": "changes the recursion limit", "sys.settrace": "changes the process",
    "sys.setprofile": "changes the process", "sys.setswitchinterval": "changes the process",
    "sys.exit": "ends the process", "sys.set": "changes the process",
    "gc.": "changes garbage collection",
    "random.": "uses up the shared random state",
    "numpy.random.": "uses up the shared random state", "numpy.seterr": "changes numpy",
    "pandas.set_option": "changes pandas", "pandas.options": "changes pandas",
    "csv.field_size_limit": "changes a limit of csv", "csv.register_dialect": "changes csv",
    "asyncio.set_": "changes the event loop", "codecs.register": "changes the codecs",
    "copyreg.pickle": "changes how objects are copied",
    "mimetypes.add_type": "changes the known file types",
    "numpy.set_printoptions": "changes numpy", "decimal.getcontext": "decimal context",
    "decimal.setcontext": "decimal context", "pint.set_application_registry": "changes pint",
    "tracemalloc.": "changes the process", "resource.setrlimit": "changes the process",
    "tempfile.mkdtemp": "leaves a directory behind", "tempfile.mkstemp": "leaves a file behind",
    "importlib.reload": "reloads a module",
}
# reading or scoping, not acting
HARMLESS = {"threading.local", "threading.RLock", "threading.Lock", "threading.get_ident",
            "threading.current_thread", "gc.get_referrers", "gc.get_objects", "gc.collect",
            "shutil.which", "signal.Signals", "decimal.getcontext.copy",
            "random.Random", "random.SystemRandom", "random.getstate",
            "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState",
            "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.get_state"}
OWNED = ("random.Random.", "random.SystemRandom.", "numpy.random.default_rng.",
         "numpy.random.RandomState.", "numpy.random.Generator.")
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault",
            "popitem", "sort", "reverse", "add", "discard", "__setitem__", "__delitem__"}
STATE = ("os.environ", "sys.path", "sys.modules", "sys.argv", "sys.meta_path", "sys.path_hooks",
         "warnings.filters", "logging.root")
WRITERS = {"write_text": "writes a file", "write_bytes": "writes a file", "touch": "makes a file",
           "mkdir": "makes a directory", "unlink": "deletes a file", "rmdir": "deletes a file",
           "symlink_to": "makes a file"}


def own(repo):
    root = os.path.join(repo, "gemd")
    for d, subs, files in os.walk(root):
        subs[:] = sorted(x for x in subs if x != "__pycache__")
        rel = os.path.relpath(d, repo)
        if rel.split(os.sep)[:2] == ["gemd", "demo"]:
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                yield os.path.join(rel, f), os.path.join(d, f)


def aliases(tree):
    """Local name -> dotted name of everything imported from outside the package."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] != "gemd":
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else \
                        a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module \
                and n.module.split(".")[0] != "gemd":
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(e, al, local):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Subscript):       # sys.modules["x"].y, vars(logging)["root"].disabled
        base = dotted(e.value, al, local)
        return ".".join([base] + parts[::-1]) if base else None
    if isinstance(e, ast.Call):            # sys.stdout.write(...).x, getcontext().prec
        f = dotted(e.func, al, local) or (
            e.func.id if isinstance(e.func, ast.Name) and e.func.id not in local else None)
        text = [a.value for a in e.args if isinstance(a, ast.Constant)
                and isinstance(a.value, str)]
        if f in ("__import__", "importlib.import_module", "importlib.__import__") and text \
                and text[0].split(".")[0] != "gemd":
            whole = text[0] if f == "importlib.import_module" else text[0].split(".")[0]
            return ".".join([whole] + parts[::-1])
        if f == "getattr" and len(e.args) > 1 and text:
            base = dotted(e.args[0], al, local)
            return ".".join([base, text[0]] + parts[::-1]) if base else None
        if f in ("vars", "globals") and len(e.args) == 1:
            base = dotted(e.args[0], al, local)
            return ".".join([base] + parts[::-1]) if base else None
        base = dotted(e.func, al, local)
        return ".".join([base] + parts[::-1]) if base else None
    if not isinstance(e, ast.Name):
        return None
    if e.id in al:
        return ".".join([al[e.id]] + parts[::-1])
    if not parts and e.id in FORBIDDEN and e.id not in local:
        return e.id
    if not parts and e.id == "open" and e.id not in local:
        return "open"
    return None


def forbidden(name):
    if name in HARMLESS or name.startswith(OWNED):
        return None
    for k, v in FORBIDDEN.items():
        if name == k or name.startswith(k if k[-1] in "._" else k + "."):
            return v
    return None


def defined(tree):
    """Names the module defines itself (they hide builtins)."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def is_main(n):
    return isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and any(
        isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))


class Lint(ast.NodeVisitor):
    def __init__(self, run, rel, tree):
        self.run, self.rel = run, rel
        self.al = aliases(tree)
        self.local = defined(tree)
        self.funcs = []
        self.scoped = 0              # inside `with warnings.catch_warnings()`
        self.units = rel.replace(os.sep, "/").startswith("gemd/units/")

    def name(self, e):
        return dotted(e, self.al, self.local)

    def at(self, n):
        f = self.funcs[-1].name if self.funcs else "<module>"
        return f"{self.rel}:{n.lineno} {f}"

    def site(self, n, bad, what):
        self.run.site("no effect on the process", self.at(n), bad is None, f"{what}: {bad}")

    def visit_FunctionDef(self, n):
        self.funcs.append(n)
        self.generic_visit(n)
        self.funcs.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_If(self, n):
        if not is_main(n):
            self.generic_visit(n)

    def visit_With(self, n):
        k = any(isinstance(i.context_expr, ast.Call)
                and self.name(i.context_expr.func) == "warnings.catch_warnings" for i in n.items)
        self.scoped += k
        self.generic_visit(n)
        self.scoped -= k

    def params(self):
        out = set()
        for f in self.funcs:
            a = f.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        return out - {"self", "cls"}

    def asked(self, e):
        """The expression names something the caller passed in."""
        return any(isinstance(x, ast.Name) and x.id in self.params() for x in ast.walk(e))

    def visit_Call(self, n):
        name = self.name(n.func)
        bad = None
        if name is not None:
            bad = forbidden(name)
            if bad and self.scoped and name.startswith("warnings."):
                bad = None
            if name == "print" and any(k.arg == "file" and self.asked(k.value)
                                       for k in n.keywords):
                bad = None
            if name == "traceback.print_exc" and any(k.arg == "file" for k in n.keywords):
                bad = None
            for st in STATE:
                if name.startswith(st + ".") and name.rsplit(".", 1)[1] in MUTATORS | {
                        "setLevel", "addHandler"}:
                    bad = f"changes {st}"
            if name in ("open", "io.open", "builtins.open", "os.open"):
                mode = n.args[1] if len(n.args) > 1 else next(
                    (k.value for k in n.keywords if k.arg == "mode"), None)
                reading = mode is None or isinstance(mode, ast.Constant) and isinstance(
                    mode.value, str) and not set(mode.value) & set("wax+")
                if not reading and not (n.args and self.asked(n.args[0])) and not self.units:
                    bad = "writes a file"
            if self.units and name.startswith("shutil.copy"):
                bad = None      # where to is decided from the events of the import
            if name in ("os.chdir", "contextlib.chdir") and not self.units:
                bad = "changes the working directory"
            self.site(n, bad, name)
        if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args \
                and n.func.id not in self.local:
            owner = self.name(n.args[0])
            if owner is not None:
                self.site(n, "changes another module", f"{n.func.id}({owner}, ...)")
        if isinstance(n.func, ast.Attribute):
            a = n.func.attr
            v = n.func.value
            if a in MUTATORS and isinstance(v, ast.Attribute) and v.attr in (
                    "handlers", "filters") and not (n.args and isinstance(n.args[0], ast.Call)
                    and (self.name(n.args[0].func) or "").endswith("NullHandler")):
                self.site(n, "configures logging", f"{v.attr}.{a}")
            if a in MUTATORS and isinstance(v, ast.Call) and self.name(v) is not None \
                    and isinstance(v.func, ast.Name) and v.func.id in ("vars", "getattr"):
                self.site(n, "changes another module", f"{self.name(v)}.{a}")
            if a in ("addHandler", "removeHandler", "setLevel", "addFilter") and not (
                    n.args and isinstance(n.args[0], ast.Call)
                    and (self.name(n.args[0].func) or "").endswith("NullHandler")):
                self.site(n, "configures logging", a)
            if a in WRITERS and not self.units and not self.asked(n.func.value):
                self.site(n, WRITERS[a], a)
        self.generic_visit(n)

    def store(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x)
            return
        if isinstance(t, ast.Starred):
            return self.store(t.value)
        if isinstance(t, ast.Attribute):
            name = self.name(t)
            if name is not None:
                self.site(t, "changes another module", name)
            if t.attr in ("propagate", "disabled") and isinstance(t.value, ast.Name) \
                    and "log" in t.value.id.lower():
                self.site(t, "configures logging", f"{t.value.id}.{t.attr}")
        elif isinstance(t, ast.Subscript):
            name = self.name(t.value)
            if name is not None:
                self.site(t, "changes another module's state", name)

    def visit_Assign(self, n):
        for t in n.targets:
            self.store(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.store(n.target)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.store(n.target)
        self.generic_visit(n)

    def visit_Delete(self, n):
        for t in n.targets:
            self.store(t)
        self.generic_visit(n)


def lint(r):
    for rel, path in own(r.repo):
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        Lint(r, rel, tree).visit(tree)


# ---------------------------------------------------------------- events of import and use
def bad_event(I, e):
    k = e[0]
    if k == "print":
        return f"prints {e[1]!r}"
    if k == "logcfg":
        return f"configures logging ({e[1]})"
    if k == "warncfg":
        return f"changes the warnings filters ({e[1]})"
    if k in ("write_file", "open"):
        p = e[1][0] if isinstance(e[1], tuple) and e[1] else e[1]
        p = p.d.get("#key", p) if isinstance(p, Obj) else p
        if k == "open" and len(e[1]) > 1 and isinstance(e[1][1], str) \
                and not set(e[1][1]) & set("wax+"):
            return None
        if k == "open" and len(e[1]) < 2:
            return None
        if not (isinstance(p, str) and p.startswith("/abstract-tmp")):
            return f"writes {p!r}"
    return None


def imports(r):
    I = r.I or r.world()
    for e in I.events:
        b = bad_event(I, e)
        r.site("importing has no effect on the process", f"{e[-1]}", b is None,
               f"importing the library {b}")
    cwd = I.proc.d["cwd"].d["#key"]
    r.site("importing leaves the working directory", "gemd/units/impl.py",
           cwd == "/abstract-cwd", f"the working directory is {cwd!r} after import")


def quiet(s, what):
    for e in s.I.events:
        b = bad_event(s.I, e)
        s.check(b is None, "an operation has no effect on the process", f"{what} {b}",
                where=e[-1])
    cwd = s.I.proc.d["cwd"].d["#key"]
    s.check(cwd == "/abstract-cwd", "an operation leaves the working directory",
            f"{what}: {cwd!r}")


def making(s, cls):
    o, _ = build(s, cls, None if s.flag("populated") else (), s.flag("links"))
    what = s.choose("then", ["nothing", "dump", "json", "repr", "compare"]
                    + (["bad field"] if FIELDS[cls] else []))
    if what == "dump":
        s.attempt(lambda: s.m(s.cls("DictSerializable"), "build", s.m(o, "dump")))
    elif what == "json":
        s.attempt(lambda: s.do("gemd.json.loads", s.do("gemd.json.dumps", o)))
    elif what == "repr":
        s.attempt(lambda: s.I.call(s.I.builtins["repr"], [o], {}))
        s.attempt(lambda: s.I.call(s.I.builtins["str"], [o], {}))
    elif what == "compare":
        s.attempt(lambda: s.eq(o, s.opaque()))
        s.attempt(lambda: s.eq(o, o))
    elif what == "bad field":
        f = s.choose("field", list(FIELDS[cls]))
        s.attempt(lambda: s.put(o, f, s.opaque()))
    quiet(s, f"{cls} {what}")


def unexpected(s, cls):
    """Loading a dictionary with an extra field, and constructing with one."""
    o, _ = build(s, cls, (), True)
    d = s.m(o, "dump")
    s.I.setitem(d, "no_such_field", 1)
    s.attempt(lambda: s.m(s.cls("DictSerializable"), "build", d))
    s.attempt(lambda: s.m(s.cls(cls), "from_dict", d))
    quiet(s, f"{cls} with an unexpected field")


def using(s, op):
    s.I.max_steps = 3000000
    g = world(s, s.choose("uids", ["some", "none"]))
    root = s.choose("root", ["mr", "ir", "ms", "prt"])
    o = g[root]
    sc = s.str("scope")
    J = s.new("GEMDJson")
    {"dumps": lambda: s.attempt(s.do, "gemd.json.dumps", o),
     "loads": lambda: s.attempt(lambda: s.do("gemd.json.loads", s.do("gemd.json.dumps", o))),
     "copy": lambda: s.attempt(s.m, J, "copy", o),
     "thin": lambda: s.attempt(s.m, J, "thin_dumps", o),
     "raw": lambda: s.attempt(lambda: s.m(J, "raw_loads", s.m(J, "raw_dumps", o))),
     "bad text": lambda: s.attempt(s.do, "gemd.json.loads", '{"context": []}'),
     "bad type": lambda: s.attempt(s.m, J, "raw_loads", '{"type": "nonsense"}'),
     "flatten": lambda: s.attempt(s.do, "gemd.util.flatten", o, sc),
     "substitute": lambda: s.attempt(s.do, "gemd.util.substitute_links", o, sc),
     "objects": lambda: s.attempt(s.do, "gemd.util.substitute_objects", s.list(o), s.dict()),
     "uuids": lambda: s.attempt(s.do, "gemd.util.set_uuids", o, sc),
     "foreach": lambda: s.attempt(s.do, "gemd.util.recursive_foreach", o,
                                  s.I.builtins["id"]),
     "instance": lambda: s.attempt(s.do, "gemd.entity.util.make_instance", o),
     "cached": lambda: s.attempt(s.do, "gemd.util.cached_isinstance", o, s.cls("MaterialRun")),
     "equal": lambda: s.attempt(s.eq, o, o),
     "sort": lambda: s.attempt(s.do, "gemd.util.writable_sort_order", o),
     }[op]()
    quiet(s, f"{op} of {root}")


def levels(s):
    lv = s.choose("level", LEVELS)
    set_level(s, lv)
    t = entity(s, "PropertyTemplate", bounds=s.new("RealBounds", 0, 1, "m"))
    v = s.choose("value", [0.5, 5])
    how = s.choose("how", ["attribute", "template", "fraction", "negative", "units", "scope"])
    num = s.new("NominalReal", v, "m")
    if how == "attribute":
        s.attempt(lambda: s.new("Property", s.str("n"), template=t, value=num))
    elif how == "template":
        mt = entity(s, "MeasurementTemplate", properties=s.list(s.tuple(
            t, s.new("RealBounds", 0, 1, "m"))))
        sp = entity(s, "MeasurementSpec", template=mt)
        s.attempt(lambda: entity(s, "MeasurementRun", spec=sp, properties=s.list(
            s.new("Property", s.str("n"), template=t, value=num))))
    elif how == "fraction":
        s.attempt(lambda: s.put(entity(s, "IngredientSpec"), "mass_fraction",
                                s.new("NominalReal", v, "")))
    elif how == "negative":
        s.attempt(lambda: s.put(entity(s, "IngredientSpec"), "absolute_quantity",
                                s.new("NominalReal", -v, "kg")))
    elif how == "units":
        s.attempt(lambda: s.put(entity(s, "IngredientSpec"), "mass_fraction",
                                s.new("NominalReal", v, "kg")))
    else:
        m = s.do("gemd.entity.bounds_validation.validation_level", s.opaque())
        s.attempt(lambda: s.I.cm_enter(m))
    quiet(s, f"{how} at {lv}")


def unit(s):
    op = s.choose("operation", ["parse", "convert", "base", "bad parse", "bad convert",
                                "incompatible"])
    x = s.float("x")
    if op == "parse":
        s.attempt(s.do, "gemd.units.parse_units", "cm", return_unit=s.flag("unit"))
    elif op == "convert":
        s.attempt(s.do, "gemd.units.convert_units", x, "m", "cm")
    elif op == "base":
        s.attempt(s.do, "gemd.units.get_base_units", "cm")
    elif op == "bad parse":
        s.attempt(s.do, "gemd.units.parse_units", s.choose("what", [5, None]))
    elif op == "bad convert":
        s.attempt(s.do, "gemd.units.convert_units", x, "m", None)
    else:
        s.attempt(s.do, "gemd.units.convert_units", x, "m", "kg")
    quiet(s, f"unit operation {op}")


def definitions(s):
    s.I.faults = s.flag("faults")
    s.attempt(s.do, "gemd.units.change_definitions_file",
              s.choose("file", ["/abstract-files/a/units.txt", "sub/b.txt", None]))
    s.I.faults = False
    quiet(s, "change of definitions")


def building(s):
    from rules.c22 import INFO as _       # same builders
    op = s.choose("builder", ["edge", "measurement", "attribute", "node", "value", "bad edge",
                              "bad attribute", "bad node"])
    B = "gemd.builders."
    ps, ms = entity(s, "ProcessSpec"), entity(s, "MaterialSpec")
    t = entity(s, "PropertyTemplate", bounds=s.new("RealBounds", 0, 1, "m"))
    if op == "edge":
        s.attempt(s.do, B + "add_edge", ms, ps, mass_fraction=0.5)
    elif op == "bad edge":
        s.attempt(s.do, B + "add_edge", ps, ms)
    elif op == "measurement":
        mr = entity(s, "MaterialRun")
        s.attempt(s.do, B + "add_measurement", mr, name=s.str("n"))
    elif op == "attribute":
        s.attempt(s.do, B + "add_attribute", ms, t, 0.5)
    elif op == "bad attribute":
        s.attempt(s.do, B + "add_attribute", ps, t, s.opaque())
    elif op == "node":
        s.attempt(s.do, B + "make_node", s.str("n"))
    elif op == "bad node":
        s.attempt(s.do, B + "make_node", s.opaque(), process_name=s.opaque())
    else:
        s.attempt(s.do, B + "make_value", 0.5, s.new("RealBounds", 0, 1, "m"))
    quiet(s, f"builder {op}")


def enums(s):
    c = s.cls(s.choose("enumeration", ["Origin", "SampleType"]))
    v = {"name": lambda: s.str("text"), "opaque": s.opaque, "none": lambda: None}[
        s.choose("value", ["name", "opaque", "none"])]()
    s.attempt(s.m, c, "from_str", v, exception=s.flag("exception"))
    s.attempt(s.m, c, "get_enum", v)
    s.attempt(s.m, c, "get_value", v)
    quiet(s, "enumeration")


MIGRATED = '''
from enum import Enum
@migrated_enum(old_value="OLD", new_value="NEW", deprecated_in="1", removed_in="9")
class E(BaseEnumeration):
    NEW = "new"
'''


def migrated(s):
    ns = s.client(MIGRATED, BaseEnumeration=s.cls("BaseEnumeration"), migrated_enum=s.cls(
        "gemd.enumeration.base_enumeration.migrated_enum"))
    r = s.attempt(s.I.getitem, ns["E"], "OLD")
    s.ok(r, "a migrated name is found", "E['OLD']")
    s.attempt(s.get, ns["E"], "OLD")
    s.attempt(s.get, s.get(ns["E"], "NEW"), "OLD")
    s.attempt(s.I.getitem, ns["E"], "NEITHER")
    s.attempt(s.get, ns["E"], "NEW")
    quiet(s, "migrated enumeration")


OPS = ("dumps", "loads", "copy", "thin", "raw", "bad text", "bad type", "flatten", "substitute",
       "objects", "uuids", "foreach", "instance", "cached", "equal", "sort")


def run(r):
    lint(r)
    imports(r)
    for c in FIELDS:
        r.scenario(f"{c} operations", making, c)
        r.scenario(f"{c} with an unexpected field", unexpected, c)
    for op in OPS:
        r.scenario(f"{op} of a history", using, op)
    r.scenario("validation", levels)
    r.scenario("units", unit)
    r.scenario("definitions", definitions)
    r.scenario("builders", building)
    r.scenario("enumerations", enums)
    r.scenario("migrated enumeration", migrated)
