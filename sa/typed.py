"""Runs the type checker (pyright) on a copy of the current sources and returns its diagnostics.

Nothing of the analysed program is executed: pyright parses and type checks the sources. The diagnostics are only raw
material: the rules in sa/rules/types.py decide which of them violate a property.
"""
from __future__ import annotations

import ast
import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass

from .model import PKG, AnalysisError, Program

RULES = ["reportUnusedCallResult", "reportUnusedExpression", "reportUnnecessaryComparison", "reportUnnecessaryContains",
         "reportUnnecessaryIsInstance", "reportMatchNotExhaustive", "reportUnusedVariable", "reportUnusedCoroutine"]


@dataclass
class Diag:
    rule: str
    rel: str
    line: int
    col: int
    msg: str
    fn: str = ""  # enclosing function or class


def diagnostics(prog: Program) -> list[Diag]:
    exe = shutil.which("pyright") or "/opt/veriftools/pyvenv/bin/pyright"
    if not os.path.exists(exe):
        raise AnalysisError("the type checker (pyright) is not installed")
    tmp = tempfile.mkdtemp(prefix="vtyped_")
    try:
        shutil.copytree(os.path.join(prog.repo, PKG), os.path.join(tmp, PKG), ignore=shutil.ignore_patterns("__pycache__"))
        cfg = {"include": [PKG], "pythonVersion": "3.12", "typeCheckingMode": "standard", **{r: "error" for r in RULES}}
        if os.path.isdir("/opt/venv"):
            cfg.update(venvPath="/opt", venv="venv")
        with open(os.path.join(tmp, "pyrightconfig.json"), "w", encoding="utf-8") as fh:
            json.dump(cfg, fh)
        env = dict(os.environ, PYRIGHT_PYTHON_IGNORE_WARNINGS="1", PYRIGHT_PYTHON_NODE_ENV="", NODE_OPTIONS="--max-old-space-size=6000")
        env.pop("PYRIGHT_PYTHON_NODE_ENV")
        try:
            r = subprocess.run([exe, "-p", tmp, "--outputjson"], cwd=tmp, env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise AnalysisError("the type checker did not finish") from None
        i = r.stdout.find("{")
        try:
            data = json.loads(r.stdout[i:]) if i >= 0 else None
        except ValueError:
            data = None
        if not data or data.get("summary", {}).get("filesAnalyzed", 0) < 10:
            raise AnalysisError("the type checker gave no result: " + (r.stdout + r.stderr)[-400:])
        out = []
        for d in data["generalDiagnostics"]:
            rel = os.path.relpath(d["file"], tmp)
            out.append(Diag(d.get("rule") or "", rel, d["range"]["start"]["line"] + 1, d["range"]["start"]["character"], d["message"].replace("\xa0", " ")))
        locate(prog, out)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def locate(prog: Program, diags: list[Diag]) -> None:
    """Finds the enclosing function of each diagnostic."""
    spans: dict[str, list] = {}
    for m in prog.modules.values():
        out = []

        def rec(n, q):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    lo = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    out.append((lo, c.end_lineno, ".".join(q + [c.name])))
                    rec(c, q + [c.name])
                else:
                    rec(c, q)
        rec(m.tree, [])
        spans[m.rel] = out
    for d in diags:
        best = None
        for lo, hi, q in spans.get(d.rel, ()):
            if lo <= d.line <= hi and (best is None or lo >= best[0]):
                best = (lo, q)
        d.fn = best[1] if best else "<module>"


def type_head(t: str) -> str:
    t = t.strip().rstrip("*")
    m = re.match(r"(?:type\[)?([\w.]+)", t)
    return m.group(1) if m else t


def union_parts(t: str) -> list[str]:
    """Splits a printed type at its top level '|'."""
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch in "[(":
            depth += 1
        elif ch in "])":
            depth -= 1
        if ch == "|" and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
