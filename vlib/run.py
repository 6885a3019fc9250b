"""Check driver: explores every job of a property on 8 processes, replays each
counterexample against the unpatched code, writes evidence."""
import argparse
import importlib
import json
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from vlib import symstr  # noqa: E402

if any(a.upper() in symstr.TEXT_PROPS for a in sys.argv[1:]):
    symstr.install()

from vlib import scen  # noqa: E402

scen.setup_paths()


class Trace:
    """which functions of the code under test ran (measured)"""

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "verif")
        except ValueError:
            return
        root = os.path.join(scen.REPO, "tealish")

        def start(code, off):
            if code.co_filename.startswith(root):
                self.seen.add(os.path.basename(code.co_filename) + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)


TRACE = None


def init_worker():
    global TRACE
    from vlib import symenv
    symenv.patch_int()
    symenv.cache_parser()
    TRACE = Trace()
    sys.setrecursionlimit(20000)


def run_job(spec):
    prop, name, fn_name, params, limits = spec
    from vlib import core, engine, symdom, symenv
    mod = importlib.import_module("props." + prop.lower())
    fn = getattr(mod, fn_name)
    t0 = time.time()
    eng = engine.Engine(timeout_ms=limits.get("timeout_ms", 20000), max_paths=limits.get("max_paths"),
                        deadline=t0 + limits.get("deadline", 600))
    core.set_domain(symdom.SymD())
    core.set_backend(eng)
    env = symenv.SymEnv(eng, dict(prop=prop, name=name, fn=fn_name, params=params))
    out = dict(name=name, inconclusive=None, xval=None)
    state = {"xval": False, "stop": False}

    def body():
        env.begin()
        try:
            try:
                fn(env, **params)
            except (core.IllTyped, core.AsmError) as x:
                env.fail("emitted TEAL is ill-typed or does not assemble: %s" % x)
        except scen.Failed:
            if len(env.violations) >= limits.get("max_violations", 3):
                raise engine.StopJob()
            return
        if not state["xval"] and env.trace and len(env.trace):
            state["xval"] = True
            out["xval"] = cross_validate(env, eng, fn, params)

    try:
        eng.explore(body)
    except engine.StopJob:
        pass
    except engine.Inconclusive as x:
        out["inconclusive"] = str(x)
    except symstr.Unsupported as x:
        out["inconclusive"] = "not modelled: %s" % x
    except Exception:
        out["inconclusive"] = "error in check: " + traceback.format_exc()[-1500:]
    out.update(stats=eng.stats, violations=env.violations, comparisons=env.comparisons,
               samples=env.samples, programs=len(env.programs), wall=time.time() - t0,
               funcs=sorted(TRACE.seen) if TRACE else [])
    return out


def digest(trace, conc):
    from vlib.core import AnyVal
    r = []

    def v(x):
        if isinstance(x, AnyVal):
            return ["any", x.fname] + [v(y) for y in x.args]
        if x is None or isinstance(x, str):
            return x
        y = conc(x)
        if isinstance(y, (bytes, bytearray)):
            return "0x" + bytes(y).hex()
        return y
    for t in trace:
        if t[0] == "outcome":
            r.append(["outcome", t[1], v(t[2])])
        else:
            r.append([t[0], t[1], [v(x) for x in t[2]], [v(x) for x in t[3]]])
    return json.dumps(r, sort_keys=True, default=str)


def cross_validate(env, eng, fn, params):
    """push one solver model per job through the concrete semantics and compare"""
    import z3
    from vlib import core, engine, symdom
    if eng._check() != z3.sat:
        return "path unsatisfiable"
    m = eng.solver.model()
    if eng.uf2_log or len(eng.ids) > 1:
        # prefer short strings
        for n in (24, 300, None):
            small = [symdom._len(r) <= n for r, _ in eng.ids] if n else []
            r, m2 = env.refine(z3.And(small + [v.t <= 2 * n for v in eng.inputs.values() if n and hasattr(v, "t")]), 12)
            if r == z3.sat:
                break
        if r == z3.unsat:
            return "path unsatisfiable"
        m = m2 or m
    want = digest(env.trace, lambda x: core.D.concrete(m, x))
    inputs, tables = env.concretize(m)
    dom = core.D
    try:
        ce = scen.ConEnv(inputs, tables)
        try:
            fn(ce, **params)
            got = digest(ce.trace, lambda x: x)
        except scen.Failed as x:
            got = "failed: %s" % x
    except Exception as x:
        got = "error: %s" % x
    finally:
        core.set_domain(dom)
        core.set_backend(eng)
    if got == want:
        return "ok"
    k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), 0)
    k = max(0, k - 60)
    return "MISMATCH want=%s got=%s" % (want[k:k + 300], got[k:k + 300])


def replay_cmd(path):
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([py, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True,
                           timeout=120, env=env, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return 1, "replay does not terminate within 120 s"
    return p.returncode, (p.stdout + p.stderr).strip()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", default=None, help="only jobs whose name contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop.upper()
    try:
        mod = importlib.import_module("props." + prop.lower())
        jobs = mod.jobs(a.tier)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in j[0]]
    limits = dict(getattr(mod, "LIMITS", {}))
    specs = [(prop, n, f, p, dict(limits, **(rest[0] if rest else {}))) for (n, f, p, *rest) in jobs]
    results = []
    cases = [k["case"] for k in load_known(prop)]
    ncpu = min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    budget = 780 if a.tier == "quick" else 6 * 3600
    with ctx.Pool(ncpu, initializer=init_worker) as pool:
        it = pool.imap_unordered(run_job, specs, chunksize=1)
        try:
            for _ in specs:
                left = budget - (time.time() - t0)
                r = it.next(timeout=max(left, 1))
                results.append(r)
                new = sum(any((v["case"] or None) not in cases for v in x["violations"]) for x in results)
                if new >= 40 or new and a.tier == "quick" and time.time() - t0 > 300:
                    # enough to report; the rest of the exploration would change nothing
                    pool.terminate()
                    break
                if a.v:
                    print("  %-40s paths=%d queries=%d solver=%.1fs wall=%.1fs viol=%d %s" % (
                        r["name"], r["stats"]["paths"], r["stats"]["queries"], r["stats"]["solver_s"], r["wall"],
                        len(r["violations"]), r["inconclusive"] or ""), flush=True)
        except multiprocessing.TimeoutError:
            pool.terminate()
            if any(x["violations"] for x in results):
                finish(prop, mod, a, seed, t0, results)
            print("INCONCLUSIVE property=%s the exploration did not finish within %d s" % (prop, budget))
            sys.exit(2)
    finish(prop, mod, a, seed, t0, results)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def finish(prop, mod, a, seed, t0, results):
    known = load_known(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol, inconc, knownhits = [], [], {}
    n = 0
    for r in sorted(results, key=lambda r: r["name"]):
        if r["inconclusive"]:
            inconc.append("%s: %s" % (r["name"], r["inconclusive"]))
        if r["comparisons"] == 0 and not r["violations"] and not r["inconclusive"]:
            inconc.append("%s: vacuous, no obligation was reached" % r["name"])
        for v in r["violations"]:
            n += 1
            if len(viol) >= 5 and n > 40:
                continue
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            rc, text = replay_cmd(path)
            if rc != 1:
                inconc.append("%s: counterexample does not reproduce (rc=%d): %s | %s" % (
                    r["name"], rc, v["message"], text[-300:]))
                continue
            k = [k for k in known if k["case"] == v["case"] and v["case"]]
            if k:
                knownhits[k[0]["id"]] = k[0]
                continue
            viol.append((v, path, text))
    tot = {}
    for r in results:
        for k, x in r["stats"].items():
            tot[k] = tot.get(k, 0) + x
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    samples = [s for r in results for s in r["samples"]][:: max(1, len(results) // 5)][:5]
    xv = [r["xval"] for r in results if r["xval"]]
    cov = dict(
        programs=sum(r["programs"] for r in results),
        disagreements_checked=sum(r["comparisons"] for r in results),
        samples=samples or ["(no program)"],
        jobs=len(results),
        paths=tot.get("paths", 0),
        paths_cut_by_bound=tot.get("cut", 0),
        solver_queries=tot.get("queries", 0),
        solver_seconds=round(tot.get("solver_s", 0), 2),
        solver_unknown=tot.get("unknown", 0),
        functions_executed_symbolically=funcs,
        bounds=getattr(mod, "BOUNDS", {}),
        encoding_cross_checks=dict(run=len(xv), agree=sum(x == "ok" for x in xv),
                                   mismatches=["%s: %s" % (r["name"], r["xval"]) for r in results if r["xval"] not in (None, "ok")][:5]),
        inconclusive=inconc[:10],
        known_findings=sorted(knownhits),
    )
    level = getattr(mod, "LEVEL", "translation_validation")
    if level == "model_checking":
        cov.update(states=tot.get("paths", 0), transitions=tot.get("branches", 0),
                   traces_validated_against_impl=len(xv))
    if level == "other":
        cov["explanation"] = mod.EXPLANATION
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v, path, text in viol[:5]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  job %s%s: %s" % (v["job"]["name"], " [%s]" % v["case"] if v["case"] else "", v["message"]))
        if a.v and v.get("source"):
            print("    | " + v["source"].replace("\n", "\n    | "))
    for x in inconc[:8]:
        print("INCONCLUSIVE property=%s %s" % (prop, x))
    print("%s %s: %d jobs, %d paths, %d obligations, %d queries (%.1f s solver), %d cut, wall %.1f s, xval %d/%d" % (
        prop, a.tier, len(results), tot.get("paths", 0), cov["disagreements_checked"], tot.get("queries", 0),
        tot.get("solver_s", 0), tot.get("cut", 0), time.time() - t0, cov["encoding_cross_checks"]["agree"], len(xv)))
    if a.v and cov["encoding_cross_checks"]["mismatches"]:
        print("XVAL", "\n".join(cov["encoding_cross_checks"]["mismatches"]))
    if viol:
        sys.exit(1)
    # a few undecided jobs leave the verdict on the others; errors do not
    if len(inconc) * 10 > len(results) or any("error in check" in x for x in inconc):
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
