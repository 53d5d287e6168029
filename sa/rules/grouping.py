"""Q10: the text of nested operators keeps their grouping."""
from __future__ import annotations

from .common import *
from .qal import resolve_method
from .text import own, text_paths

# binding strength of the operators in SQL
BINDS = {"Add": 1, "Subtract": 1, "Multiply": 2, "Divide": 2, "Modulo": 2, "Concatenate": 0}
ASSOCIATIVE = {"Add", "Multiply", "Concatenate"}


def needed(op: str, inner: str, right: bool) -> bool:
    if BINDS[op] != BINDS[inner]:
        return BINDS[inner] < BINDS[op]
    return right and not (op == inner and op in ASSOCIATIVE)


def leaf_parts(v: V) -> list:
    """The text as a flat sequence of pieces."""
    if v.shape is not None and v.shape[0] == "fmt":
        return [x for p in v.shape[1] for x in leaf_parts(p)]
    return [v]


def piece(v: V):
    return v.shape[1] if v.shape is not None and v.shape[0] == "const" and isinstance(v.shape[1], str) else None


def enclosed(v: V, path: tuple, closing: bool = True) -> Optional[bool]:
    """Is each occurrence of the text of path surrounded by brackets? None if the text is of unknown form."""
    if v.shape is None or v.shape[0] != "fmt":
        return None
    ps = leaf_parts(v)
    hits = [i for i, x in enumerate(ps) if piece(x) is None and any(q[:len(path)] == path for q in x.src)]
    if not hits:
        return None
    for i in hits:
        if ps[i].shape is not None and ps[i].shape[0] == "join":
            return None  # pieces of unknown layout
        if any(x[:len(path)] != path and x[0] == path[0] and len(x) > 1 for x in ps[i].src):
            return None  # several components at once
        j = i - 1
        while j >= 0 and piece(ps[j]) == "":
            j -= 1
        before = piece(ps[j]) if j >= 0 else ""
        j = i + 1
        while j < len(ps) and piece(ps[j]) == "":
            j += 1
        after = piece(ps[j]) if j < len(ps) else ""
        if before is None or (closing and after is None):
            return False
        if not before.rstrip().endswith("(") or (closing and not after.lstrip().startswith(")")):
            return False
    return True


class Shape:
    """What is known about the element whose text is analysed."""

    def __init__(self, ctx: Ctx, c: ClassInfo):
        self.ctx, self.c, self.facts = ctx, c, {}

    def path(self, param: str) -> tuple:
        from .text import base_content
        k = base_content(self.ctx, self.c)
        g = own(self.ctx, k, param)
        if not g:
            raise AnalysisError(f"{k.name} does not store {param}")
        return ("self", g[0])

    def given(self, p: tuple):
        self.facts[("t", p)] = True
        self.facts[("n", p)] = False

    def missing(self, p: tuple):
        self.facts[("t", p)] = False
        self.facts[("n", p)] = True

    def kind(self, p: tuple, *cs: ClassInfo):
        self.facts[("T", p)] = frozenset(c.qual for c in cs)
        self.given(p)

    def option(self, p: tuple, enum: str, member: str):
        self.facts[("e", p, (enum, member))] = True
        self.given(p)


def nested(ctx: Ctx, s: Shape, p: tuple, inner: ClassInfo, operator: Optional[tuple] = None):
    """The component at p is an element of kind inner (with some operator)."""
    s.kind(p, inner)
    if operator is not None:
        param, enum, member = operator
        for g in own(ctx, inner, param):
            s.option(p + (g,), enum, member)


def judge(ctx: Ctx, rule: str, key: str, s: Shape, p: tuple, what: str, inner_closed: bool = False, closing: bool = True, fn: str = "__str__"):
    f = resolve_method(ctx, s.c, fn)
    try:
        it, outs = text_paths(ctx, s.c, f, facts=s.facts)
    except Budget:
        ctx.rep.skip(rule, key)
        return
    got = [enclosed(v, p, closing) for v, _ in outs]
    if not got or None in got:
        ctx.rep.skip(rule, key)
        return
    ctx.rep.ok(rule, key)
    ctx.rep.ok("grouping", key)
    if not all(got) and not inner_closed:
        ctx.rep.fail(rule, key, f"the text of {what} lacks brackets", f.loc())


def kinds_of(ctx: Ctx, name: str) -> list[ClassInfo]:
    base = ctx.prog.cls(name)
    return [c for c in [base] + ctx.prog.subclasses(base) if not c.abstract_methods()]


def self_enclosed(ctx: Ctx, s: Shape) -> bool:
    """Does the text of an element consist of brackets?"""
    f = resolve_method(ctx, s.c, "__str__")
    try:
        it, outs = text_paths(ctx, s.c, f, facts=s.facts)
    except Budget:
        return False
    for v, _ in outs:
        ps = [x for x in leaf_parts(v) if piece(x) != ""] if v.shape is not None and v.shape[0] == "fmt" else []
        if not ps or not (piece(ps[0]) or "").startswith("(") or not (piece(ps[-1]) or "").endswith(")"):
            return False
    return bool(outs)


def check_Q10(ctx: Ctx):
    arithmetic(ctx)
    connectives(ctx)
    operands(ctx)
    casts(ctx)
    set_operations(ctx)
    ctx.rep.require("grouping", 1)


def arithmetic(ctx: Ctx):
    prog = ctx.prog
    column, pred = prog.cls("ColumnExpression"), prog.cls("BinaryPredicate")
    ops = [m for m in prog.cls("MathOperator").enum_members() if m in BINDS]
    for m in kinds_of(ctx, "MathExpression"):
        def shape(op, right, inner, inner_op=None):
            s = Shape(ctx, m)
            s.option(s.path("operator"), "MathOperator", op)
            sides = [s.path("first_argument"), s.path("second_argument")]
            nested(ctx, s, sides[right], inner, ("operator", "MathOperator", inner_op) if inner_op else None)
            s.kind(sides[not right], column)
            return s, sides[right]
        for op in ops:
            for right in (False, True):
                for inner in ops:
                    if needed(op, inner, right):
                        s, p = shape(op, right, m, inner)
                        judge(ctx, "arithmetic", f"{m.name}:{op}({inner}):{'right' if right else 'left'}", s, p, f"{op} with the {'right' if right else 'left'} operand {inner}")
                s, p = shape(op, right, pred)
                judge(ctx, "arithmetic", f"{m.name}:{op}(predicate):{'right' if right else 'left'}", s, p, f"{op} with a predicate as operand")
        for inner in ops:
            s = Shape(ctx, m)
            s.option(s.path("operator"), "MathOperator", "Subtract")
            p = s.path("first_argument")
            nested(ctx, s, p, m, ("operator", "MathOperator", inner))
            s.missing(s.path("second_argument"))
            judge(ctx, "arithmetic", f"{m.name}:negated({inner})", s, p, f"the negation of {inner}")


def connectives(ctx: Ctx):
    compound = ctx.prog.cls("CompoundPredicate")
    s = Shape(ctx, compound)
    op, ch = s.path("operation"), s.path("children")
    for outer, inner in (("Not", "And"), ("Not", "Or"), ("And", "Or")):
        i = Shape(ctx, compound)
        i.option(op, "CompoundOperator", inner)
        closed = self_enclosed(ctx, i)
        s = Shape(ctx, compound)
        s.option(op, "CompoundOperator", outer)
        for p in (ch, ch + ("0",), ch + ("*",)):
            if p == ch and outer != "Not":
                continue
            s.kind(p, compound)
            s.option(p + op[1:], "CompoundOperator", inner)
        if outer != "Not":
            if closed:
                ctx.rep.ok("connectives", f"{outer}({inner})")
                continue
        judge(ctx, "connectives", f"{outer}({inner})", s, ch, f"{outer} with the operand {inner}", inner_closed=closed)


OPERANDS = [("BinaryPredicate", "first_argument"), ("BinaryPredicate", "second_argument"), ("BetweenPredicate", "column"), ("InPredicate", "column")]


def operands(ctx: Ctx):
    binary, compound = ctx.prog.cls("BinaryPredicate"), ctx.prog.cls("CompoundPredicate")
    for cname, param in OPERANDS:
        for c in kinds_of(ctx, cname):
            for inner, opr in ((binary, None), (compound, "And")):
                s = Shape(ctx, c)
                p = s.path(param)
                nested(ctx, s, p, inner, ("operation", "CompoundOperator", opr) if opr else None)
                judge(ctx, "operands", f"{c.name}.{param}:{inner.name}", s, p, f"{c.name} with a predicate as {param}")
    for c in kinds_of(ctx, "BetweenPredicate"):
        for i in ("0", "1"):
            s = Shape(ctx, c)
            p = s.path("interval") + (i,)
            nested(ctx, s, p, binary)
            judge(ctx, "operands", f"{c.name}.interval[{i}]", s, p, f"{c.name} with a predicate as bound")


def casts(ctx: Ctx):
    m = ctx.prog.cls("MathExpression")
    for c in kinds_of(ctx, "CastExpression"):
        for op in ("Add", "Multiply", "Concatenate"):
            s = Shape(ctx, c)
            p = s.path("expression")
            nested(ctx, s, p, m, ("operator", "MathOperator", op))
            judge(ctx, "casts", f"{c.name}:{op}", s, p, f"{c.name} of {op}", closing=False)
    for c in kinds_of(ctx, "ArrayAccessExpression"):
        s = Shape(ctx, c)
        p = s.path("array_expression") if "array_expression" in ctx.content(c) else s.path(next(iter(ctx.content(c))))
        nested(ctx, s, p, m, ("operator", "MathOperator", "Concatenate"))
        judge(ctx, "casts", f"{c.name}:Concatenate", s, p, f"{c.name} of a concatenation", closing=False)


def set_operations(ctx: Ctx):
    prog = ctx.prog
    for cname in ("UnionClause", "ExceptClause", "IntersectClause"):
        for c in kinds_of(ctx, cname):
            for param in ("left_query", "right_query"):
                s = Shape(ctx, c)
                p = s.path(param)
                s.kind(p, prog.cls("SetQuery"))
                judge(ctx, "set-operations", f"{c.name}.{param}:SetQuery", s, p, f"{c.name} with a set operation as {param}")
                for part in ("limit_clause", "orderby_clause"):
                    s = Shape(ctx, c)
                    p = s.path(param)
                    s.kind(p, prog.cls("ImplicitSqlQuery"))
                    s.given(p + (part,))
                    s.given(p + (part.replace("_clause", ""),))
                    judge(ctx, "set-operations", f"{c.name}.{param}:{part}", s, p, f"{c.name} whose {param} has a {part}")
