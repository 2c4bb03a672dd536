#!/usr/bin/env python3
"""usage: check.py PROPERTY | check.py --build | check.py --replay FILE"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core

MODULES = ["column", "codec", "buffers", "reader", "segment"]


def registry():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module(m).CHECKS)
    return r


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--build":
        core.build()
        return 0
    prop = sys.argv[1]
    reg = registry()
    if prop not in reg:
        print(f"no check for {prop}")
        return 2
    ck = core.Check(prop)
    try:
        core.build()
        reg[prop](ck)
        for token, text in sorted(ck.known_hits.items()):
            print(f"KNOWN-FINDING: property={prop} {token}: {text}")
        ck.finish()
        print(f"[{prop}] ok, {ck.cov['traces_validated_against_impl']} executions of the code judged, "
              f"{ck.cov['states']} states")
        return 0
    except core.Violation as v:
        ck.cov["violation"] = v.text[:500]
        ck.finish()
        print(f"[{prop}] {v.text}")
        print(f"VIOLATION property={prop} replay={v.replay}")
        return 1
    except core.ToolError as e:
        print(f"[{prop}] error of the check: {e}")
        ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
