#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        from vlib import harness

        mod = importlib.import_module("props." + a.property.lower())
        if a.replay:
            return harness.replay(a.property, mod, a.replay)
        return harness.run_check(a.property, mod, a.tier, a.seed)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
