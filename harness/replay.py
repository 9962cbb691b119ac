"""usage: python -m harness.replay FILE: runs the recorded case against the code again (exit 1 if it still fails)."""
import importlib
import json
import sys


def main():
    from . import common
    d = json.load(open(sys.argv[1]))
    if "case" not in d:
        print("no failing input recorded: the file names the failed obligation\n" + json.dumps(d, indent=1)[:4000])
        return 1
    common.HINTS[:] = d.get("hints", [])
    importlib.import_module("harness." + d["property"].lower())
    for c in common.CASES[d["property"]]:
        if c.name == d["case"]:
            s, msg, ctx = common.run_case(c, d["seed"])
            print(s, msg)
            return 1 if s == "violation" else 0
    print("unknown case")
    return 2


if __name__ == "__main__":
    sys.exit(main())
