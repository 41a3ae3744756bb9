"""./check PROP --replay FILE : run one counterexample on the real code."""

import json
import sys

from .runner import Worker


def main():
    prop, path = sys.argv[1:3]
    d = json.load(open(path))
    w = Worker("replay", prop)
    r = w.ask({"i": d["index"], "tier": d["tier"], "values": d["values"]}, 300)
    w.close()
    print(d["harness"], r)
    sys.exit(1 if r and r["status"] == "refuted" else 0)


main()
