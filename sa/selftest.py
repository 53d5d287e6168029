"""Positive and negative examples for the engine: every rule template fires on a broken class and is silent on a correct one."""
from __future__ import annotations

import os
import shutil
import tempfile

from .model import Program
from .report import Report
from .rules import qal
from .rules.common import Ctx

SRC = '''
from __future__ import annotations
from typing import Optional, Sequence

class SqlExpression:
    pass

class Leaf:
    def __init__(self, name: str) -> None:
        self._name = name
        self._hash_val = hash(name)
    def tables(self) -> set[str]:
        return {self._name}
    def __hash__(self): return self._hash_val
    def __eq__(self, other): return isinstance(other, type(self)) and self._name == other._name

class Good:
    def __init__(self, a: Leaf, b: Optional[Leaf], cs: Sequence[Leaf]) -> None:
        self._a, self._b, self._cs = a, b, tuple(cs)
        self._hash_val = hash((a, b, self._cs))
    def _all(self):
        yield self._a
        if self._b is not None:
            yield self._b
        yield from self._cs
    def tables(self) -> set[str]:
        res = set()
        for x in self._all():
            res |= x.tables()
        return res
    def __hash__(self): return self._hash_val
    def __eq__(self, other):
        if not isinstance(other, type(self)):
            return False
        return (self._a, self._b, self._cs) == (other._a, other._b, other._cs)

class Bad(Good):
    def tables(self) -> set[str]:
        if self._b is None:
            return self._a.tables()
        return self._a.tables() | self._b.tables()
    def __eq__(self, other):
        return isinstance(other, type(self)) and self._a == other._a and self._cs == other._cs
    __hash__ = Good.__hash__
'''


def run() -> int:
    d = tempfile.mkdtemp(prefix="sa-selftest-")
    try:
        os.makedirs(os.path.join(d, "postbound"))
        with open(os.path.join(d, "postbound", "__init__.py"), "w") as fh:
            fh.write(SRC)
        rep = Report("SELF", "quick", 1)
        ctx = Ctx(Program(d), rep)
        classes = [ctx.prog.cls(n) for n in ("Leaf", "Good", "Bad")]
        for c, f, cmp in qal.rule_eq(ctx, classes):
            qal.rule_hash(ctx, c, cmp)
        leaf = ctx.prog.cls("Leaf")
        qal.rule_collect(ctx, "tables", "tables", classes, lambda k: k is leaf)
        want = {"eq:Bad.b", "hash:Bad.b", "tables:Bad.tables:cs"}
        got = set(rep.findings)
        if got != want:
            print("self-test failed:", sorted(got), "instead of", sorted(want))
            return 1
        print("self-test passed")
        return 0
    finally:
        shutil.rmtree(d)
