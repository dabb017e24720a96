"""Development aid: check the analyser's model of Python against the repository's own tests.

Every test function is interpreted *abstractly* (with its concrete literals).  A test that the
real suite passes must not fail here; 'unsupported' is acceptable.  Not used by any check.
"""
import ast
import glob
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)
from gsa.core import *  # noqa
from gsa.interp import Interp, Frame  # noqa

REPO = "/repo"


def m_pytest(I):
    B = I.builtins
    c = I.native_class("RaisesContext")

    def init(I, a, k):
        a[0].d["#e"] = a[1]
        a[0].d["#m"] = k.get("match")
        a[0].d["value"] = None
    c.ns["__init__"] = Native("raises", init)
    c.ns["__enter__"] = Native("raises.__enter__", lambda I, a, k: a[0])

    def ex(I, a, k):
        if a[2] is None:
            I.raise_("AssertionError", f"DID NOT RAISE {a[0].d['#e']!r}")
        a[0].d["value"] = a[2]
        return I.exc_match(a[3], a[0].d["#e"])
    c.ns["__exit__"] = Native("raises.__exit__", ex)
    w = I.native_class("WarnsContext")
    w.ns["__init__"] = Native("warns", lambda I, a, k: None)
    w.ns["__enter__"] = Native("w.__enter__", lambda I, a, k: a[0])
    w.ns["__exit__"] = Native("w.__exit__", lambda I, a, k: False)

    class Mk:
        pass
    mark = Obj(I.native_class("mark"))

    def param(I, a, k):
        def deco(I, b, kk):
            b[0].d["#param"] = a
            return b[0]
        return Native("p", deco)
    mark.d["parametrize"] = Native("parametrize", param)

    def xfail(I, a, k):
        def deco(I, b, kk):
            b[0].d["#xfail"] = True
            return b[0]
        return Native("p", deco)
    mark.d["xfail"] = Native("xfail", xfail)
    return {"raises": c, "warns": w, "deprecated_call": w, "mark": mark}


def load_file(I, path):
    name = os.path.relpath(path, REPO)[:-3].replace("/", ".")
    m = ModuleVal(name, path)
    m.tree = ast.parse(open(path).read(), path)
    m.ns["__name__"] = name
    m.ns["__file__"] = path
    env = Env(None, "module", m)
    env.vars = m.ns
    I.stack.append(Frame(m, "<module>"))
    try:
        I.exec_block(m.tree.body, env)
    finally:
        I.stack.pop()
    return m


def main():
    verbose = "-v" in sys.argv
    pat = [a for a in sys.argv[1:] if not a.startswith("-")]
    tot = dict(ok=0, bad=0, uns=0)
    for f in sorted(glob.glob(REPO + "/tests/**/test_*.py", recursive=True)):
        if pat and not any(p in f for p in pat):
            continue
        I = Interp(REPO)
        I.natives["pytest"] = m_pytest
        try:
            I.load("gemd")
            for x in ("gemd.json", "gemd.builders", "gemd.util"):
                I.load(x)
            m = load_file(I, f)
        except PyExc as e:
            print("LOADFAIL", f, e.name, e.value.d.get("args"), e.origin)
            tot["bad"] += 1
            continue
        except Unsupported as e:
            print("LOADUNS", f, e)
            tot["uns"] += 1
            continue
        I.building = False
        for n, v in list(m.ns.items()):
            if not (n.startswith("test") and isinstance(v, FuncVal)):
                continue
            calls = [{}]
            if "#param" in v.d:
                a = v.d["#param"]
                names = [x.strip() for x in a[0].split(",")] if isinstance(a[0], str) else \
                    [x for x in I.iterate(a[0])]
                calls = []
                for row in I.iterate(a[1]):
                    vals = [row] if len(names) == 1 else list(I.iterate(row))
                    calls.append(dict(zip(names, vals)))
            for kw in calls:
                pre, k = [], 0
                while pre is not None and k < 30:
                    k += 1
                    TRAIL.begin()
                    I.reset_path(pre)
                    try:
                        I.call(v, [], kw)
                        tot["ok"] += 1
                    except PyExc as e:
                        if not v.d.get("#xfail"):
                            tag = "imprecise" if I.imprecise else "FAIL"
                            tot["bad" if not I.imprecise else "uns"] += 1
                            print(tag, os.path.basename(f), n, e.name,
                                  str(e.value.d.get("args"))[:200], e.origin, I.imprecise[:1])
                    except (Unsupported, Budget) as e:
                        tot["uns"] += 1
                        if verbose:
                            print("uns", os.path.basename(f), n, e, I.where())
                    except RecursionError:
                        print("HOSTREC", n)
                    except Exception:
                        tot["bad"] += 1
                        print("HOST", os.path.basename(f), n, I.where())
                        traceback.print_exc(limit=-3)
                    pre = I.dec.next_prefix()
                    TRAIL.rollback()
    print(tot)


if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
