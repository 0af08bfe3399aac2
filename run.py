#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] | --replay FILE"""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        import json
        r = json.load(open(a.replay))
        ck = core.Check(r["property"], "quick", 1)
        case = r["case"]
        ck.record([case])
        bad = ck.judge(r["module"], [case])
        for b in bad:
            print("clause", b["clause"], "\n expected", b["exp"], "\n observed", b["obs"])
        return 1 if bad else 0
    mod = importlib.import_module("props." + a.prop.lower())
    ck = core.Check(a.prop, "thorough" if a.tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        return mod.run(ck)
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
