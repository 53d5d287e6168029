"""Rules for cardinality values."""
from __future__ import annotations

from .flow import *

STATES = ("valid", "inf", "nan")
OPS = {"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=", "__eq__": "=="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}
LOSSY = {"abs", "max", "min", "round", "floor", "ceil", "int", "trunc", "fabs"}
COMMUTATIVE = {"add": "Add", "mul": "Mult"}
BIN = {"sub": "Sub", "truediv": "Div", "floordiv": "Div|FloorDiv", "mod": "Mod", "pow": "Pow"}


def expected(op: str, a: str, b: str) -> Optional[bool]:
    """The result for the given states, None if it depends on the values."""
    if a == b == "valid":
        return None
    if op == "==":
        return a == b
    if "nan" in (a, b):
        return False
    x, y = (0 if a == "valid" else 1), (0 if b == "valid" else 1)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def state_facts(fields: dict, root: str, state: str) -> dict:
    out = {}
    for st, p in fields.items():
        q = (root,) + p[1:]
        out[("t", q)] = st == state
        out[("n", q)] = False
        out[("T", q)] = frozenset({"bool"})
    return out


def check_C01(ctx: Ctx):
    rep = ctx.rep
    c = ctx.prog.cls("Cardinality")
    fields = {}
    for st, m in (("valid", "is_valid"), ("inf", "isinf"), ("nan", "isnan")):
        f = c.find(m)
        if f is None:
            raise LookupError(f"Cardinality.{m}")
        ps = {o.v.path for o in Run(ctx, f, c).returns if o.v is not None and o.v.path is not None and len(o.v.path) == 2}
        if len(ps) == 1:
            fields[st] = ps.pop()
    construction(ctx, c, fields)
    for name, op in OPS.items():
        f = c.find(name)
        if f is None:
            rep.fail("order", name, f"cardinalities do not implement {op}", c.loc())
            continue
        other = f.arg_names()[1]
        for a in STATES:
            for b in STATES:
                run = Run(ctx, f, c, facts={**state_facts(fields, "self", a), **state_facts(fields, other, b)}, args={other: c}, roots=("self", other))
                want = expected(op, a, b)
                rep.ok("order", f"{a}{op}{b}")
                key = f"{name}:{a}:{b}"
                if not run.returns:
                    rep.fail("order", key, f"{f.qual}() fails for a cardinality that is {a} and one that is {b}", f.loc())
                for o in run.outs:
                    if o.kind == "raise":
                        rep.fail("order", key, f"{f.qual}() fails for a cardinality that is {a} and one that is {b}", f.loc())
                        continue
                    got = decided(o)
                    if want is None:
                        if got is not None:
                            rep.fail("order", key, f"{f.qual}() is always {got} for valid cardinalities", f.loc())
                        comparison(ctx, c, f, o, op, other, key)
                    elif got is None and raw(o):
                        rep.fail("order", key, f"{f.qual}() compares plain values for a cardinality that is {a} and one that is {b}", f.loc())
                    elif got is not None and got is not want:
                        rep.fail("order", key, f"{f.qual}() is {got} for a cardinality that is {a} and one that is {b}, expected {want}", f.loc())
        # plain numbers
        run = Run(ctx, f, c, facts={**state_facts(fields, "self", "valid"), ("T", (other,)): frozenset({"int"})}, roots=("self",))
        for o in run.outs:
            rep.ok("order", f"{op}:number")
            if o.kind == "raise" or decided(o) is not None:
                rep.fail("order", f"{name}:number", f"{f.qual}() does not compare a valid cardinality with a plain number", f.loc())
            else:
                comparison(ctx, c, f, o, op, other, f"{name}:number")
        for state in ("inf", "nan"):
            run = Run(ctx, f, c, facts={**state_facts(fields, "self", state), ("T", (other,)): frozenset({"int"})}, roots=("self",))
            if not run.returns:
                rep.fail("order", f"{name}:{state}:number", f"{f.qual}() fails for a cardinality that is {state} and a number", f.loc())
            want = expected(op, state, "valid")
            for o in run.outs:
                rep.ok("order", f"{state}{op}:number")
                got = decided(o) if o.kind == "return" else None
                if o.kind == "raise" or got is None and raw(o) or got is not None and got is not want:
                    rep.fail("order", f"{name}:{state}:number", f"{f.qual}() {'fails' if o.kind == 'raise' else f'is {got}'} for a cardinality that is {state} and a number", f.loc())
    hashing(ctx, c, fields)
    access(ctx, c, fields)
    arithmetic(ctx, c)
    rep.require("order", 40)
    rep.require("state", 9)
    rep.require("operands", 6)


def decided(o: Outcome) -> Optional[bool]:
    if is_const(o.v):
        return bool(o.v.shape[1]) if o.v.shape[1] is not NotImplemented else None
    if o.v.path is not None:
        t = o.s.facts.get(("t", o.v.path))
        if t is not None:
            return t
    yes, no = (bool(o.it.assume(o.v, b, o.s.copy())) for b in (True, False))
    return None if yes and no else True if yes else False


def raw(o: Outcome) -> bool:
    """A comparison of the stored number of a cardinality, which has no meaning unless it is valid."""
    sh = o.v.shape
    if sh is None or sh[0] != "cmp":
        return False
    sides = [o.it.mat(x, o.s) for x in sh[2:4]]
    return all(not x.calls and x.shape is None and x.path is not None and (len(x.path) == 1 or x.path[-1] == "value") for x in sides) and any(len(x.path) > 1 for x in sides)


def comparison(ctx: Ctx, c: ClassInfo, f: FuncInfo, o: Outcome, op: str, other: str, key: str):
    sh = o.v.shape
    if sh is None or sh[0] != "cmp" or sh[1] not in FLIP:
        return
    a, b = o.it.mat(sh[2], o.s), o.it.mat(sh[3], o.s)
    ra, rb = ({p[0] for p in x.src} for x in (a, b))
    got = sh[1]
    if "self" in rb and other in ra:
        got = FLIP[got]
        ra, rb = rb, ra
    if not ("self" in ra and other in rb) and ra and rb:
        ctx.rep.fail("order", key, f"{f.qual}() does not compare the two values", f.loc())
    elif got != op:
        ctx.rep.fail("order", key, f"{f.qual}() compares the values by {got} instead of {op}", f.loc())


def construction(ctx: Ctx, c: ClassInfo, fields):
    f = c.find("__init__")
    p = f.arg_names()[1]
    for st, kind in (("nan", (True, False)), ("inf", (False, True)), ("valid", (False, False))):
        run = Run(ctx, f, c, facts={("t", (p, "isnan()")): kind[0], ("t", (p, "isinf()")): kind[1], ("t", (p, "isfinite()")): st == "valid"})
        for o in run.returns:
            for g, path in fields.items():
                v = o.attr(("self",), path[1])
                ctx.rep.ok("state", f"{st}:{g}")
                if v is None:
                    continue
                got = decided(Outcome(o.it, "return", v, o.s))
                if got is not None and got is not (g == st):
                    ctx.rep.fail("state", f"__init__:{st}:{g}", f"{f.qual}() marks a number that is {st} {'as' if got else 'not as'} {g}", f.loc())


def hashing(ctx: Ctx, c: ClassInfo, fields):
    f = c.find("__hash__")
    if f is None:
        ctx.rep.fail("hash", "__hash__", "cardinalities are not hashable", c.loc())
        return
    run = Run(ctx, f, c, facts=state_facts(fields, "self", "valid"))
    flags = {p[1] for p in fields.values()}
    for o in run.returns:
        ctx.rep.ok("hash", "valid")
        if o.v is not None and ({q[1] for q in o.v.src if len(q) > 1} & flags or "id" in o.v.calls):
            ctx.rep.fail("hash", "valid", f"{f.qual}() differs from the hash of the number that a valid cardinality is equal to", f.loc())
        elif o.v is not None and not o.v.src:
            pass
    for st in ("nan", "inf"):
        for o in Run(ctx, f, c, facts=state_facts(fields, "self", st)).outs:
            ctx.rep.ok("hash", st)
            if o.kind == "raise":
                ctx.rep.fail("hash", st, f"{f.qual}() fails for cardinalities that are {st}", f.loc())


def access(ctx: Ctx, c: ClassInfo, fields):
    """Numeric conversions in all states."""
    for m in ("value", "__int__"):
        f = c.find(m)
        for st in STATES:
            run = Run(ctx, f, c, facts=state_facts(fields, "self", st))
            ctx.rep.ok("access", f"{m}:{st}")
            kinds = {o.kind for o in run.outs}
            if (st == "valid" and "raise" in kinds) or (st != "valid" and "return" in kinds):
                ctx.rep.fail("access", f"{m}:{st}", f"{f.qual} {'fails' if st == 'valid' else 'provides a number'} for a cardinality that is {st}", f.loc())
    for m in ("__float__", "get"):
        f = c.find(m)
        for st in STATES:
            outs = Run(ctx, f, c, facts=state_facts(fields, "self", st)).outs
            if not outs:
                ctx.rep.fail("access", f"{m}:{st}", f"{f.qual}() fails for a cardinality that is {st}", f.loc())
            for o in outs:
                ctx.rep.ok("access", f"{m}:{st}")
                if o.kind == "raise":
                    ctx.rep.fail("access", f"{m}:{st}", f"{f.qual}() fails for a cardinality that is {st}", f.loc())
                elif o.v is not None and st != "valid":
                    txt = o.v.shape[1] if o.v.shape is not None and o.v.shape[0] == "ext" else ""
                    wrong = {"nan": "inf", "inf": "nan"}[st]
                    if is_const(o.v) and isinstance(o.v.shape[1], (int, float)):
                        import math
                        x = o.v.shape[1]
                        if not (math.isnan(x) if st == "nan" else math.isinf(x)):
                            ctx.rep.fail("access", f"{m}:{st}", f"{f.qual}() is {x} for a cardinality that is {st}", f.loc())
                    elif txt in (f"math.{wrong}", f"numpy.{wrong}"):
                        ctx.rep.fail("access", f"{m}:{st}", f"{f.qual}() is {wrong} for a cardinality that is {st}", f.loc())
    for m, st in (("is_unknown", "nan"), ("isnan", "nan"), ("isinf", "inf"), ("is_valid", "valid"), ("__bool__", "valid")):
        f = c.find(m)
        if f is None:
            continue
        for s in STATES:
            for o in Run(ctx, f, c, facts=state_facts(fields, "self", s)).returns:
                ctx.rep.ok("access", f"{m}:{s}")
                got = decided(o)
                if got is not None and got is not (s == st):
                    ctx.rep.fail("access", f"{m}:{s}", f"{f.qual}() is {got} for a cardinality that is {s}", f.loc())


def arithmetic(ctx: Ctx, c: ClassInfo):
    """The operands of non-commutative operators keep their sides."""
    for nm, op in (BIN | COMMUTATIVE).items():
        for r in ("", "r"):
            f = c.find(f"__{r}{nm}__")
            if f is None:
                continue
            other = f.arg_names()[1]
            left, right = ("self", other) if not r else (other, "self")
            for arg_ty in (c.qual, "int"):
                run = Run(ctx, f, c, facts={("T", (other,)): frozenset({arg_ty})}, roots=("self", other))
                for o in run.returns:
                    # the value is exactly what Python computes for the numbers
                    if nm == "floordiv" or o.v is None or o.v.ty is None or c.name not in o.v.calls:
                        continue
                    ctx.rep.ok("exact", f.name)
                    if o.v.calls & LOSSY:
                        ctx.rep.fail("exact", f.name, f"{f.qual}() applies {', '.join(sorted(o.v.calls & LOSSY))}() to the operands or the result", f.loc())
                if nm in COMMUTATIVE:
                    continue
                for e, _, _ in run.it.log:
                    if e.name != "@binop" or e.m["op"] not in op.split("|"):
                        continue
                    a, b = ({p[0] for p in e.m[i].src} for i in (0, 1))
                    if not a & {"self", other} or not b & {"self", other}:
                        continue
                    ctx.rep.ok("operands", f.name)
                    if left not in a or right not in b:
                        ctx.rep.fail("operands", f.name, f"{f.qual}() computes {right} {op} {left} instead of {left} {op} {right}", f.loc())
