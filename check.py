#!/usr/bin/env python3
"""usage: check.py PROP [--thorough]

Decides one property on /repo's current working tree:
  1. the verification-condition engine (pyvc) reads the functions of /repo that the property depends on, generates
     every obligation of their contracts and discharges it with z3/cvc5/sympy back ends;
  2. in parallel, the bounded stand-in (harness) runs the same functions against executable specifications; it decides
     only functions out of the verifier's reach, and supplies the failing input for a refuted obligation.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: undecided / tool failure.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"


def env(hints=None):
    e = dict(os.environ)
    if hints:
        e["VERIF_HINTS"] = json.dumps(hints)
    e["PYTHONPATH"] = REPO + ":" + HERE
    e["OPENBLAS_NUM_THREADS"] = e["OMP_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYVC_REPO"] = REPO
    return e


def harness(prop, out, factor, budget, jobs, base, hints=None):
    return subprocess.Popen([PY, "-m", "harness.run", prop, out, "--factor", str(factor), "--budget", str(budget), "--jobs", str(jobs), "--base", str(base)],
                            cwd=HERE, env=env(hints), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def known():
    """Open findings: lines 'finding: property=ID key=KEY what'; fixed ones suppress nothing."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(w.split("=", 1) for w in line.split() if "=" in w)
                r.append((d.get("property"), d.get("key"), line))
    return r


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    ev = os.path.join(HERE, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "_"):
            os.unlink(os.path.join(rep, f))
    try:
        return decide(prop, thorough, seed, t0, tmp, ev, rep)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, thorough, seed, t0, tmp, ev, rep):
    has_spec = os.path.exists(os.path.join(HERE, "pyvc", "specs", prop.lower() + ".py"))
    ho, vo = os.path.join(tmp, "h.json"), os.path.join(tmp, "v.json")
    hp = harness(prop, ho, 8.0 if thorough else 1.0, 500 if thorough else 150, 4, seed)
    vp = None
    if has_spec:
        e = env()
        e["PYVC_TIER"] = "thorough" if thorough else "quick"
        vp = subprocess.Popen([VT, "-m", "pyvc.runner", prop, vo], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    herr = hp.communicate()[1].decode(errors="replace")[-800:]
    h = load(ho) or {"cases": {}, "violations": [], "errors": [], "samples": [], "dead": [herr]}
    vout = ""
    v = {"units": []}
    if vp:
        try:
            vout = vp.communicate(timeout=max(60, 640 - (time.time() - t0)))[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            vp.kill()
            vp.communicate()
        v = load(vo) or {"units": []}
    viol = []
    for x in h["violations"]:
        viol.append({"kind": "input", "case": x["case"], "message": x["message"].split("\n")[0], "file": x})
    refuted = []
    for u in v["units"]:
        for n, o in u.get("obligations", {}).items():
            if o["refuted"]:
                refuted.append((u, n, o))
    definite = [(u, n, o) for u, n, o in refuted if o["definite"] and u["mode"] == "proof"]
    hints = [x for u in v["units"] for x in u.get("hints", [])]
    if (refuted or hints) and not viol:
        # look harder for a concrete failing input before reporting
        ho2 = os.path.join(tmp, "h2.json")
        left = max(30, min(180, 760 - (time.time() - t0)))
        hp = harness(prop, ho2, 6.0, left, 7, seed + 1000, hints)
        try:
            hp.communicate(timeout=left + 60)
        except subprocess.TimeoutExpired:
            hp.kill()
        h2 = load(ho2)
        if h2:
            for x in h2["violations"]:
                viol.append({"kind": "input", "case": x["case"], "message": x["message"].split("\n")[0], "file": x})
            for n, c in h2["cases"].items():
                q = h["cases"].setdefault(n, {"runs": 0, "nontrivial": 0, "inconclusive": 0, "errors": 0, "time": 0, "reasons": []})
                for key in ("runs", "nontrivial", "inconclusive", "errors"):
                    q[key] += c[key]
    if viol and refuted:
        for w in viol:
            w["file"]["refuted_obligations"] = [{"unit": u["unit"], "obligation": n, "verifier": o["detail"]} for u, n, o in refuted][:20]
    if definite and not viol:
        u, n, o = definite[0]
        viol.append({"kind": "obligation", "case": u["unit"], "message": n,
                     "file": {"property": prop, "obligation": n, "unit": u["unit"], "verifier_output": o["detail"], "functions": u["functions"],
                              "all_failed": [{"unit": a["unit"], "obligation": b, "verifier_output": c["detail"]} for a, b, c in definite][:30],
                              "note": "the verifier refutes this obligation; no failing input was found by running the code"}})
    opened = [k for k in known() if k[0] == prop]
    lines, code, seen = [], 0, set()
    for k, x in enumerate(viol):
        key = x["case"]
        hit = [o for o in opened if o[1] and o[1] == "%s" % key]
        if hit:
            continue
        if (x["kind"], key) in seen:
            continue
        seen.add((x["kind"], key))
        path = os.path.join(rep, "%s_%d.json" % (prop, k))
        json.dump(x["file"], open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if x["kind"] == "obligation" else ""))
        lines.append("  %s: %s" % (x["case"], x["message"][:300]))
        code = 1
    for o in opened:
        print("KNOWN-FINDING: property=%s %s" % (prop, o[2]))
    runs = sum(c["runs"] for c in h["cases"].values())
    total = sum(len(u.get("obligations", {})) for u in v["units"] if u["mode"] == "proof")
    okay = sum(1 for u in v["units"] if u["mode"] == "proof" and u["status"] == "done" for o in u["obligations"].values() if not o["refuted"] and not o["unknown"])
    undec = [{"unit": u["unit"], "status": u["status"], "reason": u.get("reason", ""),
              "open": [n for n, o in u.get("obligations", {}).items() if o["refuted"] or o["unknown"]]}
             for u in v["units"] if u["status"] != "done" or any(o["refuted"] or o["unknown"] for o in u["obligations"].values())]
    if not code and runs == 0 and (total == 0 or undec):
        print("undecided: no obligation set was discharged and no bounded check ran: %s %s" % (h.get("dead"), h["errors"][:1]))
        code = 2
    funcs, assumed, back = {}, set(), {}
    for u in v["units"]:
        funcs.update(u.get("functions") or {})
        assumed |= set(u.get("assumed") or [])
        for b, c in (u.get("backends") or {}).items():
            back[b] = back.get(b, 0) + c
    level = manifest_level(prop)
    cov = {
        "obligations": total, "discharged": okay,
        "obligation_instances": sum(u.get("instances", 0) for u in v["units"]),
        "checker_cmd": "python3-vt -m pyvc.runner %s OUT.json" % prop,
        "trusted_base": sorted(assumed),
        "functions_under_contract": funcs,
        "back_ends": back, "solver_time_s": round(sum(u.get("solver_time", 0) for u in v["units"]), 2),
        "units": [{"unit": u["unit"], "mode": u["mode"], "bound": u.get("bound", ""), "status": u["status"], "paths": u.get("paths"), "time_s": u.get("time"),
                   "obligations": sorted(u.get("obligations", {}))} for u in v["units"]],
        "not_discharged": undec,
        "bounded_stand_in": {n: {k: c[k] for k in ("runs", "nontrivial", "inconclusive", "errors")} for n, c in h["cases"].items()},
        "evaluations": runs, "distinct_nontrivial": sum(c["nontrivial"] for c in h["cases"].values()),
        "rule": "bounded stand-in, never counted as proved: random cases from the generators of harness/%s.py with their own seed each; non-trivial if the case reached the behaviour it is about" % prop.lower(),
        "samples": h["samples"][:3],
        "explanation": "obligations are generated from /repo's current source and discharged by the back ends named; the bounded stand-in runs the real code",
    }
    doc = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
           "assumptions": sorted(assumed) + ASSUMED.get(prop, []) + common_assumptions(), "wall_s": round(time.time() - t0, 2), "violations": sum(1 for x in lines if x.startswith("VIOLATION")),
           "stand_in_errors": h["errors"][:3], "verifier_output": vout[-6000:]}
    json.dump(doc, open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d functions (%.0f s of solver time); bounded stand-in: %d runs; %.0f s" % (prop, okay, total, len(funcs), cov["solver_time_s"], runs, time.time() - t0))
    for x in undec:
        print("  not discharged: %s (%s) %s %s" % (x["unit"], x["status"], x["reason"][:160], x["open"][:3]))
    for x in lines:
        print(x)
    return code


LIFE = ["generate_evals, generate_points and the surrogate enter by the contracts proved in C05, C06, C12, C16 and C21", "the surrogate can be built when the adaptive phase starts (documented precondition)",
        "controllers deliver any event at any time on any pending evaluation; POAP's Proposal and EvalRecord are interpreted from the installed source", "POAP's RetryStrategy (used by RandomStrategy only): what is put is proposed again until it is evaluated, its counter of outstanding evaluations is right"]
ASSUMED = {"C01": LIFE, "C02": LIFE, "C03": LIFE, "C04": LIFE, "C18": LIFE + ["dill restores an equal object"],
           "C05": ["truncnorm.rvs returns values in the interval", "round_vars by its contract (C13)", "predict by its contract (C16)"],
           "C06": ["pyDOE2.lhs: numpy RandomState.rand and permutation by contract (its source is interpreted)", "random.shuffle permutes", "matrix_rank returns some number", "round_vars by its contract (C13)", "at least two points for the symmetric design"],
           "C07": ["cdist returns the Euclidean distances", "dtol > 0"],
           "C08": ["normal cdf and pdf uninterpreted, 0 <= cdf <= 1", "GeneticAlgorithm.optimize by its contract (C09)", "ei_tol = 0 for the exact selection rule"],
           "C09": ["the designs by their contract (C06)", "round_vars by its contract (C13)", "the objective is a function of the row it is given"],
           "C11": ["lexsort sorts by the keys it is given", "at least as many free centers as points wanted (workers <= ncenters)", "cdist returns the Euclidean distances", "some two evaluated points differ (otherwise the nearest other point does not exist)", "nd_sorting by its contract (C10)"],
           "C14": ["lu_factor returns P A = L U with the row interchanges in LAPACK's order, solve_triangular solves the triangular system it is given, cholesky returns the factor or raises (so the system is nonsingular)", "linear algebra: a finite sum splits at any place, sums of equal terms are equal, (L U) c = L (U c), the Schur complement of a symmetric matrix is symmetric", "at least one new point and at least as many points as tail functions when a fit is due", "kernel and tail are functions of the points (their formulas: C15)"],
           "C16": ["sklearn and pyearth: fit and predict are functions of what they are given"],
           "C17": ["POSIX: rename is atomic, what was written before close is complete", "dill.dump writes a loadable file when it returns"],
           "C19": ["exp, log, sin, cos, sqrt: the identities and bounds in pyvc/algebra.py", "floating-point pi and e within 1e-12", "interval bounds: numpy exp within 1e-14 (relative), sin and cos within 1e-14; + - * / sqrt correctly rounded"],
           "C20": ["union1d and intersect1d of numpy by contract", "nan arguments only in the stand-in"],
           "C21": ["truncnorm.rvs differs from the centre with probability one", "the search of SOP: see C11 (generate_evals)"]}


def common_assumptions():
    return ["machine floating-point numbers are treated as real numbers (nan and infinities only where the contracts mention them)",
            "the semantics that pyvc gives to the Python statements and numpy operations it interprets (cross-checked against CPython and numpy by tools/selftest.py)",
            "z3, cvc5 and sympy are sound"]


def manifest_level(prop):
    m = load(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"


if __name__ == "__main__":
    sys.exit(main())
