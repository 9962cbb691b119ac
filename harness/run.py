"""usage: python -m harness.run PROP OUT.json [--factor F] [--budget SECONDS] [--jobs J] [--base B]"""
import importlib
import json
import os
import subprocess
import sys
import time


def opt(name, default, conv=float):
    if name in sys.argv:
        return conv(sys.argv[sys.argv.index(name) + 1])
    return default


def worker(prop, out, factor, budget, base, k, jobs):
    import logging
    logging.disable(logging.CRITICAL)
    from . import common
    t0 = time.time()
    importlib.import_module("harness." + prop.lower())
    res = {"cases": {}, "violations": [], "errors": [], "samples": []}
    cases = common.CASES.get(prop, [])
    todo = []
    for c in cases:
        n = max(1, int(round(c.n * factor)))
        res["cases"][c.name] = {"runs": 0, "nontrivial": 0, "inconclusive": 0, "errors": 0, "time": 0.0, "reasons": []}
        for i in range(k, n, jobs):
            todo.append((i / n, c, i))
    todo.sort(key=lambda t: t[0])
    for _, c, i in todo:
        if time.time() - t0 > budget:
            res["stopped"] = "time budget"
            break
        st = res["cases"][c.name]
        if st["inconclusive"] >= 5 and st["runs"] == 0:
            continue
        seed = common.seed_of(c.name, i, base)
        t1 = time.time()
        s, msg, ctx = common.run_case(c, seed, factor > 1.5)
        st["time"] += time.time() - t1
        if s == "ok":
            st["runs"] += 1
            st["nontrivial"] += ctx.nontrivial
            if len(res["samples"]) < 4:
                res["samples"].append({"case": c.name, "seed": seed, "inputs": common.show(ctx.notes)})
        elif s == "violation":
            st["runs"] += 1
            res["violations"].append({"property": prop, "case": c.name, "seed": seed, "message": msg,
                                      "inputs": common.show(ctx.notes), "events": common.show(ctx.log[-400:]), "hints": common.HINTS})
            if len(res["violations"]) >= 3:
                break
        elif s == "inconclusive":
            st["inconclusive"] += 1
            if len(st["reasons"]) < 3:
                st["reasons"].append(msg[:300])
        else:
            st["errors"] += 1
            if len(res["errors"]) < 6:
                res["errors"].append({"case": c.name, "seed": seed, "message": msg})
    res["wall"] = time.time() - t0
    json.dump(res, open(out, "w"), indent=1, default=str)


def merge(parts):
    r = {"cases": {}, "violations": [], "errors": [], "samples": [], "wall": 0}
    for p in parts:
        for n, c in p["cases"].items():
            q = r["cases"].setdefault(n, {"runs": 0, "nontrivial": 0, "inconclusive": 0, "errors": 0, "time": 0.0, "reasons": []})
            for key in ("runs", "nontrivial", "inconclusive", "errors", "time"):
                q[key] += c[key]
            q["reasons"] = (q["reasons"] + c["reasons"])[:3]
        r["violations"] += p["violations"]
        r["errors"] += p["errors"]
        r["samples"] += p["samples"]
        r["wall"] = max(r["wall"], p["wall"])
        if p.get("stopped"):
            r["stopped"] = p["stopped"]
    return r


def main():
    prop, out = sys.argv[1], sys.argv[2]
    factor, budget = opt("--factor", 1.0), opt("--budget", 90.0)
    jobs, base = opt("--jobs", 4, int), opt("--base", 1, int)
    if "--worker" in sys.argv:
        return worker(prop, out, factor, budget, base, opt("--worker", 0, int), jobs)
    ps = []
    for k in range(jobs):
        o = "%s.part%d" % (out, k)
        ps.append((o, subprocess.Popen([sys.executable, "-m", "harness.run", prop, o, "--factor", str(factor), "--budget", str(budget),
                                        "--jobs", str(jobs), "--base", str(base), "--worker", str(k)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    parts, dead = [], []
    for o, p in ps:
        try:
            _, err = p.communicate(timeout=budget + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        try:
            parts.append(json.load(open(o)))
        except Exception:
            dead.append((err or b"").decode(errors="replace")[-1500:])
        if os.path.exists(o):
            os.unlink(o)
    r = merge(parts)
    r["dead"] = dead
    json.dump(r, open(out, "w"), indent=1, default=str)
    if "-v" in sys.argv:
        for n, c in r["cases"].items():
            print("%-40s runs %d nontrivial %d inconclusive %d errors %d  %.1fs %s" % (n, c["runs"], c["nontrivial"], c["inconclusive"], c["errors"], c["time"], c["reasons"][:1]))
        for v in r["violations"][:4]:
            print("VIOL", v["case"], v["seed"], v["message"][:1200])
            if "-vv" in sys.argv:
                print(json.dumps(v["inputs"])[:2000], v["events"][-30:])
        for e in r["errors"][:3]:
            print("ERR", e["case"], e["seed"], e["message"])
        for d in dead:
            print("DEAD", d)


if __name__ == "__main__":
    main()
