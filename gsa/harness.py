"""Obligations, path exploration and reporting shared by all rules.

A rule is a set of *scenarios*.  A scenario is a small abstract client of the public API of the
package: it builds an abstract pre-state (symbolic atoms, nondeterministic choices), applies
public operations and states obligations on the abstract post-state.  The analyser follows every
branch that the abstraction leaves open; an obligation that fails on a path on which every step
was modelled exactly is a violation.  A path with a step outside the model is *undecided*: it
raises no alarm and is listed in the evidence.
"""
import ast
import json
import os
import sys
import threading
import time

from .core import (Unsupported, Budget, PyExc, TRAIL, Tup, Atom, PD, Obj, ClassVal, JsonText,
                   FuncVal, MISSING, ModuleVal, Env)
from .interp import Interp, Frame

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PUBLIC = ("gemd", "gemd.builders", "gemd.json", "gemd.util", "gemd.units", "gemd.entity.util",
          "gemd.enumeration", "gemd.entity.bounds", "gemd.entity.value", "gemd.entity.template",
          "gemd.entity.attribute", "gemd.entity.object", "gemd.entity.bounds_validation",
          "gemd.entity.case_insensitive_dict", "gemd.entity.valid_list", "gemd.entity.setters",
          "gemd.entity.link_by_uid", "gemd.entity.file_link", "gemd.entity.source",
          "gemd.entity.dict_serializable", "gemd.entity.base_entity",
          "gemd.enumeration.base_enumeration")


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: the check can give no answer."""


class Fail(Exception):
    """An obligation failed; abandon the path."""


class Abandon(Exception):
    """The path needs nothing further (e.g. the scenario does not apply)."""


class Result:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is None:
            return f"returned {self.value!r}"
        return f"raised {self.exc.name}{self.exc.value.d.get('args')!r} at {self.exc.origin}"


class S:
    """The client API of one path of one scenario."""

    def __init__(self, run, scenario):
        self.run = run
        self.I = run.I
        self.scenario = scenario
        self.notes = []
        self.checked = 0

    # ---- construction of abstract inputs
    def str(self, name="s", **kw):
        """A text, distinct from every other one.  Unless `apart`, it may be a variant of another
        one in case or in surrounding blanks; id scopes compare regardless of case, so they are
        apart."""
        if "scope" in name:
            kw.setdefault("apart", True)
        return self.I.atom(name, "str", **kw)

    def float(self, name="x", **kw):
        return self.I.atom(name, "float", **kw)

    def int(self, name="n", **kw):
        return self.I.atom(name, "int", **kw)

    def list(self, *xs):
        return self.I.new_list(list(xs))

    def tuple(self, *xs):
        return Tup(xs)

    def dict(self, *items, **kw):
        return self.I.new_dict(list(items) + list(kw.items()))

    def set(self, *xs):
        return self.I.new_set(list(xs))

    def opaque(self, name="wrong"):
        """A value of a type unrelated to anything the library knows."""
        c = self.I.id_map.get(("opaque", "cls"))
        if c is None:
            c = self.I.native_class("Unrelated")
            self.I.id_map[("opaque", "cls")] = c
        o = Obj(c)
        o.label = name
        return o

    def generator(self, *xs):
        from .core import GenVal
        return GenVal(iter(list(xs)))

    def choose(self, label, options):
        options = list(options)
        i = self.I.choose(label, len(options))
        if isinstance(options[i], (str, int, tuple)) or options[i] is None:
            self.notes.append(f"{label}={options[i]!r}")
        else:
            self.notes.append(f"{label}=#{i}")
        return options[i]

    def flag(self, label):
        return self.choose(label, [True, False])

    # ---- access to the library
    def cls(self, name):
        if "." in name:
            mod, leaf = name.rsplit(".", 1)
            try:
                m = self.I.load(mod)
            except PyExc:
                raise AnalysisBroken(f"module {mod} not found")
            v = self.I.mod_attr(m, leaf)
            if v is MISSING:
                raise AnalysisBroken(f"{name} not found")
            return v
        for mod in PUBLIC:
            m = self.I.modules.get(mod)
            if m is not None and name in m.ns:
                return m.ns[name]
        raise AnalysisBroken(f"public name {name} not found")

    fn = cls

    def client(self, src, **ns):
        """Interpret a piece of client code (rule text, not repository code); its namespace."""
        m = ModuleVal("client", "<client>")
        m.ns.update({"__name__": "client", **ns})
        env = Env(None, "module", m)
        env.vars = m.ns
        self.I.stack.append(Frame(m, "<client>"))
        try:
            self.I.exec_block(ast.parse(src).body, env)
        finally:
            self.I.stack.pop()
        return m.ns

    def new(self, name, /, *a, **k):
        c = name if isinstance(name, ClassVal) else self.cls(name)
        return self.I.call(c, list(a), k)

    def do(self, name, /, *a, **k):
        return self.I.call(self.cls(name), list(a), k)

    def get(self, o, *names):
        for n in names:
            o = self.I.getattr(o, n)
        return o

    def put(self, o, n, v):
        self.I.setattr(o, n, v)

    def m(self, o, n, /, *a, **k):
        return self.I.meth(o, n, *a, **k)

    def items(self, o):
        return list(self.I.iterate(o))

    def attempt(self, f, /, *a, **k):
        try:
            return Result(f(*a, **k))
        except PyExc as e:
            return Result(None, e)

    def try_put(self, o, n, v):
        return self.attempt(self.put, o, n, v)

    def try_new(self, name, /, *a, **k):
        return self.attempt(self.new, name, *a, **k)

    def is_exc(self, r, *names):
        return r.exc is not None and any(
            r.exc.value.cls.issub(self.I.builtins[n]) for n in names)

    def same(self, a, b):
        """Identity of heap objects; equality of plain values of the same type."""
        I = self.I
        if a is b:
            return True
        if isinstance(a, Obj) or isinstance(b, Obj):
            a2, b2 = I.strval(a), I.strval(b)
            if a2 is a and b2 is b:
                return False
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls:
                return False
            a, b = a2, b2
            if isinstance(a, Obj) or isinstance(b, Obj):
                return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(map(self.same, a.items, b.items))
        if I.type_of(a) is not I.type_of(b):
            return False
        return I.prim_eq(a, b)

    def eq(self, a, b):
        return self.I.truth(self.I.eq(a, b))

    def isa(self, o, name):
        return self.I.isinstance(o, self.cls(name) if isinstance(name, str) else name)

    def tname(self, o):
        return self.I.type_of(o).name

    def reorder(self, events):
        return events

    def logs(self):
        return [e for e in self.I.events if e[0] in ("log", "warn")]

    def warnings(self):
        return [e for e in self.I.events
                if e[0] == "log" and e[1] in ("warning", "warn", "error", "critical", "exception")]

    def clear_events(self):
        self.I.events = []

    # ---- obligations
    def check(self, cond, key, msg="", where=None, o=None, field=None):
        self.checked += 1
        self.run.obligation(self, key, bool(cond))
        if not cond:
            w = where
            if w is None and isinstance(o, Obj):
                w = o.w.get(field) if field else None
                if w is None:
                    w = o.w.get("#") or next(reversed(list(o.w.values())), None)
            self.run.violation(self, key, msg, w)
            raise Fail()

    def fail(self, key, msg="", where=None):
        self.check(False, key, msg, where=where)

    def ok(self, r, key, msg=""):
        """The operation must have succeeded."""
        self.check(r.ok, key, f"{msg}: unexpectedly {r!r}", where=r.exc.origin if r.exc else None)
        return r.value

    def raises(self, r, names, key, msg=""):
        names = (names,) if isinstance(names, str) else names
        self.check(r.exc is not None, key, f"{msg}: accepted ({r!r}), expected "
                   f"{' or '.join(names)}", where=self.last_write())
        self.check(self.is_exc(r, *names), key, f"{msg}: {r!r}, expected {' or '.join(names)}",
                   where=r.exc.origin)

    def last_write(self):
        return None

    def done(self):
        raise Abandon()


class Run:
    """One analysis run for one property."""

    def __init__(self, prop, tier="quick", repo="/repo", seed=1):
        self.prop = prop
        self.tier = tier
        self.repo = repo
        self.seed = seed
        self.scen = {}          # name -> stats
        self.obl = {}           # (scenario, key) -> [decided, failed]
        self.viol = {}          # (scenario, key) -> report
        self.undecided = []
        self.rules = {}
        self.structural = []
        self.t0 = time.time()
        self.I = None
        self.total_paths = 0
        self.total_steps = 0
        self.tasks = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def world(self, extra=()):
        I = Interp(self.repo)
        for m in PUBLIC + tuple(extra):
            try:
                I.load(m)
            except PyExc as e:
                raise AnalysisBroken(f"loading {m}: {e.name} {e.value.d.get('args')} {e.origin}")
            except Unsupported as e:
                raise AnalysisBroken(f"loading {m}: {e}")
        I.building = False
        self.I = I
        return I

    def obligation(self, s, key, good):
        k = (s.scenario, key)
        st = self.obl.setdefault(k, [0, 0])
        if not s.I.imprecise:
            st[0] += 1
            if not good:
                st[1] += 1

    def violation(self, s, key, msg, where):
        if s.I.imprecise:
            self.undecided.append(f"{s.scenario}/{key}: {msg} (imprecise: {s.I.imprecise[0]})")
            return
        k = (s.scenario, key)
        rep = self.viol.get(k)
        if rep is None:
            self.viol[k] = rep = {
                "scenario": s.scenario, "obligation": key, "message": msg,
                "where": where or (s.I.last_operation() if len(s.I.stack) == 1 else
                                   s.I.where()),
                "operations": [f.full for f in s.I.client_calls[-8:]], "choices": list(s.notes),
                "branches": [f"{d[0]} -> {d[1]}" for d in s.I.dec.taken], "paths": 0}
        rep["paths"] += 1

    def scenario(self, name, fn, *args, **opt):
        """Register a scenario: every path of fn(S, *args) will be explored."""
        assert name not in self.scen, name
        self.scen[name] = {"paths": 0, "decided": 0, "undecided": 0, "obligations": 0,
                           "steps": 0, "truncated": False, "min": 1}
        self.tasks.append((name, fn, args, opt))

    def execute(self, jobs=None):
        """Explore all registered scenarios, several at a time (forked workers)."""
        import pickle
        import select
        jobs = jobs or int(os.environ.get("GSA_JOBS", "0")) or os.cpu_count() or 1
        tasks, self.tasks = self.tasks, []
        if jobs == 1 or len(tasks) == 1:
            for name, fn, args, opt in tasks:
                self.explore(name, fn, *args, **opt)
            return
        results, running, nxt = {}, {}, 0
        sys.stdout.flush()
        sys.stderr.flush()
        while nxt < len(tasks) or running:
            while nxt < len(tasks) and len(running) < jobs:
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    code = 0
                    try:
                        name, fn, args, opt = tasks[nxt]
                        self.obl, self.viol, self.undecided = {}, {}, []
                        self.total_paths = self.total_steps = 0
                        try:
                            self.explore(name, fn, *args, **opt)
                            out = ("ok", self.scen[name], self.obl, self.viol, self.undecided,
                                   self.total_paths, self.total_steps, self.I.functions_seen)
                        except AnalysisBroken as e:
                            out = ("broken", str(e))
                        except BaseException:
                            import traceback
                            out = ("error", traceback.format_exc())
                        data = pickle.dumps(out)
                        with os.fdopen(wr, "wb") as f:
                            f.write(data)
                    except BaseException:
                        code = 1
                    os._exit(code)
                os.close(wr)
                running[rd] = (pid, nxt, bytearray())
                nxt += 1
            ready, _, _ = select.select(list(running), [], [])
            for rd in ready:
                pid, i, buf = running[rd]
                chunk = os.read(rd, 1 << 20)
                if chunk:
                    buf.extend(chunk)
                    continue
                os.close(rd)
                os.waitpid(pid, 0)
                del running[rd]
                results[i] = bytes(buf)
        for i, (name, *_r) in enumerate(tasks):
            out = pickle.loads(results[i]) if results[i] else ("error", "worker died")
            if out[0] == "broken":
                raise AnalysisBroken(out[1])
            if out[0] == "error":
                if os.environ.get("GSA_DEBUG"):
                    print(out[1])
                self.scen[name]["undecided"] += 1
                self.undecided.append(f"{name}: analyser error {out[1][-200:]}")
                continue
            _, st, obl, viol, und, tp, ts, fs = out
            self.scen[name] = st
            for k, v in obl.items():
                o = self.obl.setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            self.viol.update(viol)
            self.undecided.extend(und)
            self.total_paths += tp
            self.total_steps += ts
            self.I.functions_seen |= fs

    def explore(self, name, fn, *args, max_paths=None, rule=None, seconds=None, setup=None,
                min_decided=1):
        I = self.I
        cap = max_paths or (20000 if self.thorough else 5000)
        limit = seconds or (240 if self.thorough else 40)
        st = {"paths": 0, "decided": 0, "undecided": 0, "obligations": 0, "steps": 0,
              "truncated": False, "min": min_decided}
        self.scen[name] = st
        if rule:
            self.rules[name] = rule
        pre, t0 = [], time.time()
        while pre is not None:
            if st["paths"] >= cap or time.time() - t0 > limit:
                st["truncated"] = True
                break
            TRAIL.begin()
            I.reset_path(pre)
            I.faults = False
            s = S(self, name)
            st["paths"] += 1
            why = None
            try:
                if setup:
                    setup(s)
                fn(s, *args)
            except (Fail, Abandon):
                pass
            except PyExc as e:
                try:
                    self.obligation(s, "no unexpected error", False)
                    self.violation(s, "no unexpected error",
                                   f"{e.name}{e.value.d.get('args')!r} escapes from a documented "
                                   f"operation", e.origin)
                except Exception as e2:   # pragma: no cover
                    why = f"host error while reporting: {e2!r}"
            except (Unsupported, Budget) as e:
                why = f"{e} @{I.where()}"
            except AnalysisBroken:
                TRAIL.rollback()
                raise
            except RecursionError:
                why = "host recursion limit"
            except Exception as e:
                if os.environ.get("GSA_DEBUG"):
                    raise
                why = f"analyser error {type(e).__name__}: {e} @{I.where()}"
            if why is not None:
                st["undecided"] += 1
                if len(self.undecided) < 200:
                    self.undecided.append(f"{name}: {why}")
            elif I.imprecise:
                st["undecided"] += 1
                if len(self.undecided) < 200:
                    self.undecided.append(f"{name}: imprecise: {I.imprecise[0]}")
            else:
                st["decided"] += 1
            st["obligations"] += s.checked
            st["steps"] += I.steps
            pre = I.dec.next_prefix()
            I.path = None       # generators of this path that die later do nothing
            TRAIL.rollback()
        self.total_paths += st["paths"]
        self.total_steps += st["steps"]
        return st

    # ---- structural rules
    def site(self, key, where, good, msg=""):
        """One instance of a structural (syntax-tree / dataflow) rule."""
        st = self.obl.setdefault(("structure", key), [0, 0])
        st[0] += 1
        self.structural.append(where)
        if not good:
            st[1] += 1
            self.viol.setdefault(("structure", f"{key} {where}"), {
                "scenario": "structure", "obligation": key, "message": msg, "where": where,
                "choices": [], "branches": [], "paths": 1})


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("finding: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out.append((key.replace("key=", "").strip(), desc.strip()))
    return out


def finish(run, info):
    known = known_findings(run.prop)
    viol, quiet = [], []
    for (sc, key), rep in run.viol.items():
        ident = f"{sc}/{key}"
        hit = next((d for k, d in known if k == ident), None)
        if hit is not None:
            quiet.append((ident, hit))
        else:
            viol.append(rep)
    decided = sum(1 for v in run.scen.values() if v["decided"] >= v["min"])
    n = len(run.scen)
    obl = sum(v[0] for v in run.obl.values())
    ev = {
        "property": run.prop, "tier": run.tier, "seed": run.seed, "level": "other",
        "coverage": {
            "explanation": info["explanation"],
            "modules_analysed": len([m for m in run.I.modules.values() if m.path]) if run.I else 0,
            "functions_analysed": len(run.I.functions_seen) if run.I else 0,
            "scenarios": n, "scenarios_decided": decided,
            "paths": run.total_paths, "abstract_steps": run.total_steps,
            "obligations_decided": obl,
            "distinct_obligations": len(run.obl),
            "undecided_paths": sum(v["undecided"] for v in run.scen.values()),
            "truncated": [k for k, v in run.scen.items() if v["truncated"]],
            "structural_sites": len(run.structural),
            "samples": [f"{k[0]}/{k[1]}: {v[0]} path(s)" for k, v in list(run.obl.items())[:12]],
            "functions_sample": sorted(run.I.functions_seen)[:40] if run.I else [],
            "undecided": run.undecided[:40],
            "scenario_table": {k: {x: v[x] for x in ("paths", "decided", "undecided",
                                                    "obligations")}
                               for k, v in run.scen.items()},
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(viol),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{run.prop}: {n} scenarios ({decided} decided), {run.total_paths} paths, {obl} "
          f"obligations decided, {len(run.structural)} structural sites, "
          f"{ev['coverage']['undecided_paths']} undecided paths, {ev['wall_s']} s")
    for ident, desc in quiet:
        print(f"KNOWN-FINDING: property={run.prop} {ident}: {desc}")
    if viol:
        rp = os.path.join(d, run.prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": run.prop, "reports": viol}, f, indent=1, default=repr)
        for rep in viol[:12]:
            print(f"  [{rep['scenario']}] {rep['obligation']}: {rep['message']}")
            print(f"      at {rep['where']}  client: {', '.join(rep['choices']) or '-'}")
            for b in rep["branches"][-4:]:
                print(f"      branch {b}")
        print(f"VIOLATION property={run.prop} replay={rp}")
        return 1
    floor = info.get("min_scenarios", max(1, n // 2))
    if n and decided < floor or n == 0 and not run.structural:
        print(f"analysis broken: only {decided} of {n} scenarios decided")
        for u in run.undecided[:10]:
            print("   ", u)
        return 2
    if info.get("min_sites") and len(run.structural) < info["min_sites"]:
        print(f"analysis broken: {len(run.structural)} structural sites, "
              f"expected at least {info['min_sites']}")
        return 2
    return 0


def main(prop, module, tier, repo):
    run = Run(prop, tier, repo, int(os.environ.get("VERIF_SEED", "1") or 1))
    out = {}

    def body():
        try:
            run.world()
            module.run(run)
            run.execute()
            out["rc"] = finish(run, module.INFO)
        except AnalysisBroken as e:
            print(f"analysis broken: {e}")
            out["rc"] = 2
        except BaseException as e:
            import traceback
            traceback.print_exc()
            out["rc"] = 3
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    return out.get("rc", 3)
