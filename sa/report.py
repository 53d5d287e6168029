"""Collecting obligations and findings, known findings, evidence files."""
from __future__ import annotations

import json
import os
import re
import time
from dataclasses import dataclass, field

from .model import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Finding:
    prop: str
    key: str  # stable: rule + construct
    msg: str
    loc: str


@dataclass
class Report:
    prop: str
    tier: str
    seed: int
    findings: dict[str, Finding] = field(default_factory=dict)
    obligations: dict[str, list[str]] = field(default_factory=dict)  # rule -> constructs
    skipped: dict[str, list[str]] = field(default_factory=dict)
    notes: list[str] = field(default_factory=list)
    functions: set = field(default_factory=set)
    t0: float = field(default_factory=time.time)

    def ok(self, rule: str, construct: str) -> None:
        """Register one obligation that was analysed."""
        self.obligations.setdefault(rule, []).append(construct)

    def fail(self, rule: str, construct: str, msg: str, loc: str) -> None:
        key = f"{rule}:{construct}"
        if key not in self.findings:
            self.findings[key] = Finding(self.prop, key, msg, loc)

    def skip(self, rule: str, construct: str) -> None:
        """The analysis is not precise enough for this construct: recorded as not decided."""
        self.skipped.setdefault(rule, []).append(construct)

    def unlisted(self) -> list[Finding]:
        known = load_known()
        return [f for f in self.findings.values() if (self.prop, f.key) not in known]

    def require(self, rule: str, minimum: int) -> None:
        n = len(self.obligations.get(rule, []))
        if n < minimum:
            raise AnalysisError(f"rule {rule} of {self.prop} analysed only {n} constructs (expected at least {minimum}): "
                                "the code that the rule is anchored on cannot be found")


def load_known(path: str = None) -> dict[tuple[str, str], str]:
    """Known findings: lines  KNOWN-FINDING: property=<id> key=<key> <what>.  Lines starting with 'fixed:' suppress nothing."""
    path = path or os.path.join(VERIF, "known_findings.txt")
    out = {}
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING:\s+property=(\S+)\s+key=(\S+)\s+(.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(rep: Report, technique: str, rule_text: str, trusted: list[str], engine_visited: int) -> int:
    known = load_known()
    wall = time.time() - rep.t0
    viol, kf = [], []
    for f in rep.findings.values():
        (kf if (rep.prop, f.key) in known else viol).append(f)
    nobl = sum(len(v) for v in rep.obligations.values())
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": "other",
        "wall_s": round(wall, 3),
        "coverage": {
            "explanation": rule_text,
            "obligations": nobl,
            "discharged": nobl - len(viol) - len(kf) if nobl >= len(viol) + len(kf) else 0,
            "violations": [{"key": f.key, "construct": f.loc, "what": f.msg} for f in viol],
            "known_findings": [{"key": f.key, "construct": f.loc, "what": f.msg} for f in kf],
            "rules": {r: {"count": len(v), "constructs": sorted(set(v))} for r, v in sorted(rep.obligations.items())},
            "not_decided": {r: sorted(set(v)) for r, v in sorted(rep.skipped.items())},
            "functions_analysed": engine_visited,
            "notes": rep.notes,
            "technique": technique,
            "trusted_base": trusted,
        },
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{rep.prop}.json")
    with open(p, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for f in kf:
        print(f"KNOWN-FINDING: property={rep.prop} {f.key} at {f.loc}: {known[(rep.prop, f.key)]}")
    for f in viol[:int(os.environ.get("VERIF_SHOW", "15"))]:
        print(f"  {f.loc}: [{f.key}] {f.msg}")
    if viol:
        print(f"VIOLATION property={rep.prop} replay={p}")
    print(f"{rep.prop}: {nobl} obligations, {len(viol)} violations, {len(kf)} known findings, "
          f"{sum(len(v) for v in rep.skipped.values())} not decided, {wall:.1f}s")
    return 1 if viol else 0
