#!/usr/bin/env python3
"""Entry point of all checks:  check.py <property> [--tier quick|thorough]"""
from __future__ import annotations

import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.model import AnalysisError, Program  # noqa: E402
from sa.report import Report, finish  # noqa: E402
from sa.rules import registry  # noqa: E402
from sa.rules.common import Ctx  # noqa: E402


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="check that the engine finds seeded defects in small examples and stays silent on correct ones")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    if a.self_test:
        from sa.selftest import run
        return run()
    check = registry.CHECKS.get(a.property)
    if check is None:
        print(f"no check for property {a.property}", file=sys.stderr)
        return 2
    rep = Report(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        ctx = Ctx(Program(), rep)
        check.fn(ctx)
    except AnalysisError as e:
        if rep.unlisted():
            # the code that the remaining rules rely on is missing, but there are violations to report already
            return finish(rep, check.technique, check.rule, registry.TRUSTED, len(ctx.visited))
        print(f"{a.property}: no answer: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if rep.unlisted():
            return finish(rep, check.technique, check.rule, registry.TRUSTED, len(ctx.visited))
        return 3
    return finish(rep, check.technique, check.rule, registry.TRUSTED, len(ctx.visited))


if __name__ == "__main__":
    sys.exit(main())
