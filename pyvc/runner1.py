"""Run one unit in its own process: python3-vt -m pyvc.runner1 C13 0 OUT.json"""
import json
import sys

from .runner import _worker

if __name__ == "__main__":
    r = _worker((sys.argv[1], int(sys.argv[2]), False))
    json.dump(r, open(sys.argv[3], "w"), default=str)
