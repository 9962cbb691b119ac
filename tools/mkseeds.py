"""Write and validate the planted bugs of /verif/seeded (not used by any check).

python3 tools/mkseeds.py [ids...]   writes patch.diff, demo.sh, demo.py, meta.json for each seed, and checks in a scratch copy
of /repo that the patch applies, the demo passes without and fails with it, and (--tests) that the stable tests pass."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed_list import SEEDS  # noqa: E402

SH = """#!/bin/bash
export OPENBLAS_NUM_THREADS=1 PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
DRV = open(os.path.join(HERE, "seed_drv.py")).read()


def run(cmd, cwd, **env):
    e = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=cwd)
    e.update(env)
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e)


def one(s, tests):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "edit does not match once (%d)" % t.count(old)
            open(p, "w").write(t.replace(old, new))
        diff = run("git diff", repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write((DRV if s.get("drv") else "") + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = run("bash %s/demo.sh" % d, repo)
        test = ""
        if tests:
            t = run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly --timeout=600 "
                    "--continue-on-collection-errors -W ignore tests --junitxml=%s/j.xml -o junit_family=xunit2" % tmp, repo)
            r = subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + tmp + "/j.xml"],
                               capture_output=True, text=True)
            try:
                o = json.load(open(tmp + "/o.json"))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                ok = o.get("passed") or [k for k, v in o.items() if v == "passed"]
                test = "tests missing: %s" % [x for x in st if x not in ok]
            except Exception as e:
                test = "tests? %r %s" % (e, r.stdout[-200:] + r.stderr[-200:])
        run("git checkout -- .", repo)
        r0 = run("bash %s/demo.sh" % d, repo)
        return s["id"], "demo clean=%d patched=%d %s %s" % (r0.returncode, r1.returncode, test,
                ("" if r0.returncode == 0 else r0.stderr[-500:]) + ("" if r1.returncode else "NOT FAILING") + "\n      " + r1.stderr.strip().split("\n")[-1][:200])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--tests" in sys.argv
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(lambda s: one(s, tests), [s for s in SEEDS if not ids or s["id"] in ids]):
            print(i, r, flush=True)
