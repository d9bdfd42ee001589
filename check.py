#!/usr/bin/env python3
"""Entry point of every check: check.py <property id> [--tier quick|thorough] [--seed N]."""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from lib.runner import Ctx, MachineryError, VERIF  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    mod = importlib.import_module(f"props.{a.prop.lower()}")
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        mod.run(ctx)
        known = json.loads((VERIF / "known_findings.json").read_text())["findings"]
        return ctx.finish(mod.LEVEL, mod.ASSUMPTIONS, known)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        ctx.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        ctx.cleanup()
        return 2


if __name__ == "__main__":
    sys.exit(main())
