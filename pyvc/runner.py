"""pyvc driver: run the specification module of one property and write a JSON summary.

usage: python3-vt -m pyvc.runner C13 OUT.json [--tier quick|thorough] [-v]
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_unit(u, verbose=False):
    """One unit = one function (or scenario) under contract, verified in its own engine."""
    from .core import Engine, Unsupported, PyExc
    from .interp import Interp
    t0 = time.time()
    E = Engine(verbose=verbose, rlimit=u.get("rlimit", 4000000))
    E.max_paths = u.get("max_paths", 3000)
    E.deadline = t0 + u.get("time", 240)
    r = {"unit": u["name"], "mode": u.get("mode", "proof"), "bound": u.get("bound", "")}
    cover = {"n": 0}
    Engine.cur = E

    def thunk():
        Engine.cur = E
        I = Interp(E)
        u["fn"](I)
        cover["n"] += 1

    try:
        E.explore(thunk)
        r["status"] = "done"
    except Unsupported as e:
        r["status"] = "unsupported"
        r["reason"] = str(e)[:400]
        if verbose:
            traceback.print_exc()
    except PyExc as e:
        r["status"] = "unsupported"
        r["reason"] = "uncaught exception of the code under verification: %s" % (e,)
        if verbose:
            traceback.print_exc()
    except RecursionError:
        r["status"], r["reason"] = "unsupported", "recursion limit of the verifier"
    except Exception as e:
        r["status"], r["reason"] = "error", "%s: %s" % (type(e).__name__, str(e)[:300])
        if verbose:
            traceback.print_exc()
    obs = {}
    for x in E.results:
        o = obs.setdefault(x.name, {"proved": 0, "refuted": 0, "unknown": 0, "detail": "", "definite": True})
        o[x.status] += 1
        if x.status != "proved":
            o["detail"] = x.detail
            if x.status == "refuted" and not x.definite:
                o["definite"] = False
    carried = sorted(E.stale_reads & E.carried)
    if carried:                       # the invariant of a loop does not cover a variable that its iterations pass on
        r["status"], r["reason"] = "unsupported", "variables carried through a loop: " + ", ".join("%s (%s)" % (x, q) for q, x in carried)
        for o in obs.values():
            o["definite"] = False
    r["obligations"] = obs
    r["hints"] = [h for x in E.results for h in getattr(x, "hints", [])][:12]
    r["instances"] = len(E.results)
    r["paths"], r["completed_paths"] = E.paths, cover["n"]
    if r["status"] == "done" and (not E.results or cover["n"] + getattr(E, "absorbed", 0) == 0):
        r["status"], r["reason"] = "vacuous", "no obligation or no feasible path"
    missed = sorted(k for k, v in getattr(E, "covered", {}).items() if not v)
    if r["status"] == "done" and missed:
        r["status"], r["reason"] = "vacuous", "never reached with consistent assumptions: " + "; ".join(missed)
    if r["status"] != "done":
        r["hints"] += E.witness() or [{"unit": u["name"]}]
    r["functions"] = E.funcs
    r["assumed"] = sorted(E.assumed)
    r["backends"] = E.backends
    r["solver_time"] = round(E.solver_time, 2)
    r["checks"] = E.n_checks
    r["time"] = round(time.time() - t0, 2)
    return r


def _worker(job):
    prop, k, verbose = job
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    out = {}

    def go():
        mod = importlib.import_module("pyvc.specs." + prop.lower())
        out["r"] = run_unit(mod.units()[k], verbose)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out.get("r")


def main():
    prop, outp = sys.argv[1], sys.argv[2]
    verbose = "-v" in sys.argv
    sys.path.insert(0, HERE)
    mod = importlib.import_module("pyvc.specs." + prop.lower())
    us = mod.units()
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    idx = [k for k, u in enumerate(us) if not only or any(o in u["name"] for o in only)]
    t0 = time.time()
    res = []
    if verbose:
        for k in idx:
            res.append(_worker((prop, k, verbose)))
    else:
        import subprocess
        from concurrent.futures import ThreadPoolExecutor

        def one(k):
            f = "%s.unit%d" % (outp, k)
            lim = us[k].get("time", 240) + 60
            try:
                subprocess.run([sys.executable, "-m", "pyvc.runner1", prop, str(k), f], cwd=HERE, env=dict(os.environ, PYTHONHASHSEED="0"), timeout=lim, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            try:
                r = json.load(open(f))
                os.unlink(f)
                return r
            except Exception:
                return {"unit": us[k]["name"], "mode": us[k].get("mode", "proof"), "status": "timeout", "reason": "no result within the time limit",
                        "obligations": {}, "functions": {}, "assumed": [], "backends": {}, "solver_time": 0, "checks": 0, "time": lim, "instances": 0, "bound": ""}
        with ThreadPoolExecutor(int(os.environ.get("PYVC_JOBS", "6"))) as ex:
            res = list(ex.map(one, idx))
    d = {"property": prop, "units": res, "wall": round(time.time() - t0, 2)}
    json.dump(d, open(outp, "w"), indent=1, default=str)
    for r in res:
        np_ = sum(1 for o in r["obligations"].values() if not o["refuted"] and not o["unknown"])
        print("%-50s %-11s %d/%d obligations, %d instances, %.1fs %s" % (r["unit"], r["status"], np_, len(r["obligations"]), r["instances"], r["time"], r.get("reason", "")))
        for n, o in r["obligations"].items():
            if o["refuted"] or o["unknown"]:
                print("    FAILED %s: refuted %d unknown %d definite %s %s" % (n, o["refuted"], o["unknown"], o["definite"], o["detail"][:300] if verbose else ""))


if __name__ == "__main__":
    main()
