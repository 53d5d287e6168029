#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registry of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.rules import registry  # noqa: E402


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        c = registry.CHECKS.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check has been built")})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": "static analysis: " + c.technique, "level": "other",
                       "level_note": c.note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
