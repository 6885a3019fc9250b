"""replay one counterexample against the real, unpatched compiler:
exit 1 = the violation reproduces, 0 = it does not"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, VERIF)
from vlib import core, scen  # noqa: E402

scen.setup_paths()


def main():
    v = json.load(open(sys.argv[1]))
    job = v["job"]
    mod = importlib.import_module("props." + job["prop"].lower())
    env = scen.ConEnv(v["inputs"], v["tables"])
    sys.setrecursionlimit(20000)
    try:
        try:
            getattr(mod, job["fn"])(env, **job["params"])
        except (core.IllTyped, core.AsmError) as x:
            env.fail("emitted TEAL is ill-typed or does not assemble: %s" % x)
    except scen.Failed as f:
        print("reproduced: %s" % f)
        if "source" in env.notes:
            print(env.notes["source"])
        sys.exit(1)
    print("not reproduced")
    sys.exit(0)


main()
