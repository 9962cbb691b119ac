"""Table of section 2 of DESIGN.md from the verifier's output: python3 tools/mktable.py DIR (DIR/o_CXX.json) -> stdout."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| property | functions | units | obligations | planted bug, caught by |\n|---|---|---|---|---|")
seeds = {}
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % s))
    seeds.setdefault(m["property"], []).append(s)
for l in open(H + "/properties.jsonl"):
    i = json.loads(l)["id"]
    d = json.load(open("%s/o_%s.json" % (sys.argv[1], i)))
    f = set(k for u in d["units"] for k in u["functions"])
    n = sum(len(u["obligations"]) for u in d["units"])
    ok = sum(1 for u in d["units"] for o in u["obligations"].values() if not o["refuted"] and not o["unknown"])
    print("| %s | %d | %d | %d of %d | %s |" % (i, len([x for x in f if x.startswith("pySOT")]), len(d["units"]), ok, n, ", ".join(seeds.get(i, []))))
