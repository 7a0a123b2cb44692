"""Replays a recorded violation without the explorer:  python -m mc.replay FILE"""
import importlib
import json
import sys

from . import env


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    env.load()
    from . import explore

    mod = importlib.import_module("checks." + r["property"].lower())
    h, params = mod.harnesses(r["tier"])[r["harness"]][:2]
    c, viol, status = explore._execute(h, r["choices"], scratch="/tmp", params=params)
    for n, l, _, _ in c.taken:
        print("  %s = %s" % (n, l))
    for v in viol:
        print("%s: %s" % (v.kind, v))
        for k, d in v.details.items():
            print("   %s: %s" % (k, d))
    print("reproduced" if viol else "not reproduced")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
