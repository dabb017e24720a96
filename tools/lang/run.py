"""Development aid: run the language snippets in CPython and in the analyser's model."""
import glob
import importlib.util
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import conformance as C  # noqa: sets paths and stack size
from gsa.core import *  # noqa
from gsa.interp import Interp  # noqa


def main():
    tot = dict(ok=0, bad=0, uns=0)
    pat = sys.argv[1:]
    for path in sorted(glob.glob(HERE + "/snippets*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        host = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(host)
        import ast
        src = open(path).read()
        tree = ast.parse(src)
        imports = [n for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))]
        rest = [n for n in tree.body if n not in imports]
        I = Interp("/repo")
        I.load("gemd")
        m = ModuleVal("snippets", path)
        m.tree = tree
        m.ns["__name__"] = "snippets"
        m.ns["__file__"] = path
        env = Env(None, "module", m)
        env.vars = m.ns
        I.stack.append(C.Frame(m, "<module>"))
        for n in imports:
            parts = [ast.copy_location(type(n)(**{**{f: getattr(n, f) for f in n._fields},
                                                  "names": [a]}), n) for a in n.names]
            for p in parts:
                try:
                    I.exec_block([p], env)
                except (Unsupported, PyExc) as e:
                    print("IMPORT", ast.unparse(p), str(e)[:100])
        for n in rest:
            try:
                I.exec_block([n], env)
            except (Unsupported, PyExc) as e:
                print("TOP", ast.unparse(n)[:60], str(e)[:100])
        I.stack.pop()
        I.building = False
        for name in [n for n in vars(host) if n.startswith("t_")]:
            if pat and not any(p in name for p in pat):
                continue
            getattr(host, name)()
            v = m.ns.get(name)
            TRAIL.begin()
            I.reset_path([])
            try:
                I.call(v, [], {})
                tot["ok"] += 1
            except PyExc as e:
                tot["bad"] += 1
                print("BAD", name, e.name, str(e.value.d.get("args"))[:150], e.origin)
            except (Unsupported, Budget) as e:
                tot["uns"] += 1
                print("UNS", name, str(e)[:150], I.where())
            except Exception:
                tot["bad"] += 1
                print("HOST", name, I.where())
                traceback.print_exc(limit=-2)
            TRAIL.rollback()
    print(tot)


if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
