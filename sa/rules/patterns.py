"""Shapes of code that contradict any property about all elements of a collection, checked in the functions that a property depends on."""
from __future__ import annotations

import ast

from .common import Ctx

LOG = {"log", "logger", "debug", "info", "warn", "warning", "print", "_log", "_logger", "verbose"}


def own_statements(loop, kinds):
    """Statements that belong to a loop (and not to a nested loop or function), with the branches they are in."""
    out = []

    def rec(stmts, chain):
        for i, s in enumerate(stmts):
            if isinstance(s, kinds):
                out.append((s, chain + [(stmts, i)]))
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                rec(s.orelse, chain + [(stmts, i)])
                continue
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    rec(b, chain + [(stmts, i)])
            for h in getattr(s, "handlers", []):
                rec(h.body, chain + [(stmts, i)])
            for c in getattr(s, "cases", []):
                rec(c.body, chain + [(stmts, i)])
    rec(loop.body, [])
    return out


def names(n, ctx=None) -> set[str]:
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def _silent(s) -> bool:
    """The statement has no influence on the result."""
    if isinstance(s, (ast.Pass, ast.Break)):
        return True
    if isinstance(s, ast.Expr):
        if isinstance(s.value, ast.Constant):
            return True
        if isinstance(s.value, ast.Call):
            f = s.value.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            return nm in LOG
    return False


def _collects(s) -> bool:
    """The statement contributes the current element to a result."""
    for n in ast.walk(s):
        if isinstance(n, (ast.AugAssign, ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call | ast.BinOp) and any(names(t, ast.Store) & names(n.value) for t in n.targets):
            return True  # a fold
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not _silent(n):
            return True
    return False


def receivers(stmts) -> set[str]:
    """The containers that the statements add to."""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.args:
                out.add(ast.unparse(n.value.func.value))
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                out.add(ast.unparse(n.targets[0].value))
            elif isinstance(n, ast.AugAssign):
                out.add(ast.unparse(n.target))
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                out.add("yield")
    return out


MUTATORS = {"append", "add", "update", "extend", "insert", "remove", "pop", "popleft", "discard", "setdefault", "clear", "put", "get", "next", "push"}
EXPECTED_END = {"StopIteration", "Empty", "KeyboardInterrupt", "EOFError", "Full", "IndexError"}


def accumulated(loop) -> set[str]:
    """Names that carry information from one iteration to the next (including containers that are modified)."""
    out = set()
    first: dict[str, bool] = {}
    for n in ast.walk(loop):
        if isinstance(n, ast.AugAssign):
            out |= names(n.target)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            # objects that take part in a call for its effects
            out |= names(n.value.func) | {x for a in n.value.args for x in names(a)}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
            out.add(n.func.value.id)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    out |= names(t)
                for x in names(t, ast.Store):
                    if x in names(n.value):
                        out.add(x)
    return out


def early_stops(fn) -> list[tuple[int, str]]:
    out = []
    for loop in [n for n in ast.walk(fn) if isinstance(n, ast.For)]:
        targets = names(loop.target)
        for br, chain in own_statements(loop, (ast.Break,)):
            if len(chain) < 2:
                continue
            stmts, i = chain[-1]
            holder = chain[-2][0][chain[-2][1]]
            rest = [s for st, j in chain[:-1] for s in st[j + 1:]]
            if isinstance(holder, ast.If):
                rest += holder.orelse if stmts is holder.body else holder.body
            elif isinstance(holder, ast.Match):
                rest += [s for c in holder.cases if c.body is not stmts for s in c.body]
            elif isinstance(holder, ast.Try):
                h = next((h for h in holder.handlers if h.body is stmts), None)
                if h is None or h.type is None or EXPECTED_END & names(h.type) or any(isinstance(x, ast.Attribute) and x.attr in EXPECTED_END for x in ast.walk(h.type)):
                    continue
                rest += holder.body + holder.orelse
                if not all(_silent(s) for s in stmts) or not any(_collects(s) for s in rest):
                    continue
                out.append((br.lineno, f"the loop over '{ast.unparse(loop.iter)[:60]}' ends at the first element that leads to an error instead of skipping it"))
                continue
            else:
                continue
            before = [s for s in stmts if not _silent(s)]
            if before and (not receivers(before) & receivers(rest) or not all(isinstance(s, ast.Expr) for s in before) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in before for x in ast.walk(s))):
                continue  # something else is decided before the loop is left
            if not any(_collects(s) for s in rest):
                continue
            derived = set(targets)
            for n in ast.walk(loop):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and names(n.value) & derived:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        derived |= names(t, ast.Store)
            test = holder.test if isinstance(holder, ast.If) else holder.subject
            used = names(test)
            acc = accumulated(loop)
            if used & (acc - derived) and not _known(test, derived, acc):
                continue  # the loop is left because of what was found so far
            if not used & derived and any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(test)):
                continue  # a condition about the surroundings that may change
            if any(_uses(s, targets) for s in _after(fn, loop)):
                continue  # the position or element at which the loop stopped is used
            out.append((br.lineno, f"the loop over '{ast.unparse(loop.iter)[:60]}' ends at the first element that is not suitable instead of skipping it"))
    return out


def _known(test, derived, acc) -> bool:
    """Tests whether the current element has been seen before."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test = test.operand
    return (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)) and bool(names(test.left) & derived)
            and isinstance(test.comparators[0], ast.Name) and test.comparators[0].id in acc)


def _uses(s, targets) -> bool:
    """Reads one of the names before it is bound again."""
    if isinstance(s, ast.For):
        bound = names(s.target)
        return bool(names(s.iter) & targets) or any(_uses(x, targets - bound) for x in s.body + s.orelse)
    out = set()

    def rec(n, hidden):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            hidden = hidden | {x for g in n.generators for x in names(g.target)}
        elif isinstance(n, ast.Lambda):
            hidden = hidden | {a.arg for a in n.args.args}
        elif isinstance(n, ast.For):
            rec(n.iter, hidden)
            hidden = hidden | names(n.target)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in hidden:
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            rec(c, hidden)
    rec(s, set())
    return bool(out & targets)


def _after(fn, loop):
    """Statements that follow a loop in its function."""
    res = []

    def rec(stmts) -> bool:
        for i, s in enumerate(stmts):
            hit = s is loop
            if not hit:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and rec(b):
                        hit = True
                for h in list(getattr(s, "handlers", [])) + list(getattr(s, "cases", [])):
                    if rec(h.body):
                        hit = True
            if hit:
                res.extend(stmts[i + 1:])
                return True
        return False
    rec(fn.body)
    return res


def single_pass(fn) -> list[tuple[int, str]]:
    """Loops over collections whose body always ends in the first iteration although they collect results."""
    out = []
    for loop in [n for n in ast.walk(fn) if isinstance(n, ast.For)]:
        last = loop.body[-1]
        if not isinstance(last, (ast.Return, ast.Break)) or len(loop.body) < 2:
            continue
        if own_statements(loop, (ast.Continue,)):
            continue
        if not any(_collects(s) for s in loop.body[:-1]):
            continue
        acc = accumulated(loop)
        if isinstance(last, ast.Return) and (last.value is None or not names(last.value) & acc):
            continue
        out.append((last.lineno, f"the loop over '{ast.unparse(loop.iter)[:60]}' ends after its first element"))
    return out


def _pure(n) -> bool:
    return not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda)) for x in ast.walk(n))


def twins(fn) -> list[tuple[int, str]]:
    """Combinations and comparisons of an expression with itself."""
    out = []
    for n in ast.walk(fn):
        pair = None
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            # x != x is the idiom for NaN
            if not (isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(n.left, ast.Name)):
                pair = (n.left, n.comparators[0])
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            pair = (n.left, n.right)
        elif isinstance(n, ast.BoolOp):
            seen = {}
            for v in n.values:
                d = ast.dump(v)
                if d in seen:
                    pair = (v, v)
                seen[d] = v
        if pair is not None and not isinstance(pair[0], ast.Constant) and ast.dump(pair[0]) == ast.dump(pair[1]) and _pure(n) and names(n):
            out.append((n.lineno, f"'{ast.unparse(n)[:80]}' combines an expression with itself"))
    return out


def slice_of(ctx: Ctx) -> set[str]:
    """The functions that the rules of a property have evaluated, and what they mention in their modules."""
    mentions = getattr(ctx.prog, "_mentions", None)
    if mentions is None:
        mentions = ctx.prog._mentions = {}
        by_name: dict = {}
        for f in ctx.prog.functions:
            by_name.setdefault((f.module.name, f.name), []).append(f)
        for f in ctx.prog.functions:
            hit = mentions.setdefault(f.qual, set())
            for n in ast.walk(f.node) if f.node is not None else ():
                nm = n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") else n.id if isinstance(n, ast.Name) else None
                for g in by_name.get((f.module.name, nm), ()):
                    if isinstance(n, ast.Name) and g.cls is not None or isinstance(n, ast.Attribute) and f.cls is not None and g.cls is not f.cls:
                        continue
                    hit.add(g.qual)
    out, todo = set(), [q for q in ctx.visited if isinstance(q, str)]
    while todo:
        q = todo.pop()
        if q not in out:
            out.add(q)
            todo += mentions.get(q, ())
    return out


def apply(ctx: Ctx):
    """All functions that the rules of a property have evaluated."""
    relevant = slice_of(ctx)
    for f in ctx.prog.functions:
        if f.qual not in relevant or f.node is None or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        short = f.qual.split("postbound.", 1)[-1]
        for rule, find in (("early-stop", early_stops), ("single-pass", single_pass), ("twin", twins)):
            hits = find(f.node)
            if any(isinstance(n, ast.For) for n in ast.walk(f.node)) or hits:
                ctx.rep.ok(rule, short)
            for line, msg in hits:
                ctx.rep.fail(rule, short, f"in {f.qual}, {msg}", f"{f.module.rel}:{line}")
