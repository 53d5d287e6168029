"""X03: choices over kinds and options."""
from __future__ import annotations

from dataclasses import dataclass, field

from .common import *


@dataclass
class Branch:
    kinds: list
    guard: bool
    line: int
    body: list


@dataclass
class Chain:
    func: FuncInfo
    subject: str
    branches: list
    default: Optional[list]
    match: bool
    line: int
    open_end: bool = False  # nothing follows the last branch


def kind_of(prog: Program, f: FuncInfo, n: ast.AST):
    """A class, a member of an enumeration or a literal."""
    if isinstance(n, ast.Constant):
        return ("const", n.value) if n.value is not None else ("none",)
    if isinstance(n, (ast.Name, ast.Attribute)):
        r = prog.resolve_dotted(f.module.name, n)
        if isinstance(r, ClassInfo):
            return ("class", r)
        if isinstance(n, ast.Attribute):
            c = prog.resolve_dotted(f.module.name, n.value)
            if isinstance(c, ClassInfo) and c.is_enum():
                return ("enum", c, n.attr)
        if isinstance(n, ast.Name) and n.id in ("str", "int", "float", "bool", "list", "tuple", "dict", "set", "frozenset"):
            return ("builtin", n.id)
    return None


def parts(n: ast.AST) -> list[ast.AST]:
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        return [x for e in n.elts for x in parts(e)]
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        return parts(n.left) + parts(n.right)
    return [n]


def atom(prog: Program, f: FuncInfo, t: ast.AST):
    """(subject, kinds) of an elementary test."""
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
        ks = [kind_of(prog, f, x) for x in parts(t.args[1])]
        return (ast.unparse(t.args[0]), ks) if None not in ks else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op, a, b = t.ops[0], t.left, t.comparators[0]
        if isinstance(op, (ast.Eq, ast.Is)):
            k = kind_of(prog, f, b)
            if k is not None and k[0] in ("const", "enum") and not (k[0] == "const" and isinstance(k[1], (bool, int, float))):
                return ast.unparse(a), [k]
        if isinstance(op, ast.In) and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
            ks = [kind_of(prog, f, x) for x in b.elts]
            if ks and all(k is not None and k[0] in ("const", "enum") for k in ks):
                return ast.unparse(a), ks
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        got = [atom(prog, f, x) for x in t.values]
        if all(g is not None for g in got) and len({g[0] for g in got}) == 1:
            return got[0][0], [k for g in got for k in g[1]]
    return None


def test(prog: Program, f: FuncInfo, t: ast.AST):
    """(subject, kinds, guarded) of the test of a branch."""
    a = atom(prog, f, t)
    if a is not None:
        return (*a, False)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for x in t.values:
            a = atom(prog, f, x)
            if a is not None:
                return (*a, True)
    return None


def leaves(body: list) -> bool:
    """Does control never continue after a block?"""
    if not body:
        return False
    n = body[-1]
    if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(n, ast.If):
        return bool(n.orelse) and leaves(n.body) and leaves(n.orelse)
    if isinstance(n, ast.Match):
        return any(irrefutable(c.pattern) and c.guard is None for c in n.cases) and all(leaves(c.body) for c in n.cases)
    if isinstance(n, ast.With):
        return leaves(n.body)
    if isinstance(n, ast.Try):
        return leaves(n.body) and all(leaves(h.body) for h in n.handlers)
    return False


def irrefutable(p: ast.AST) -> bool:
    return isinstance(p, ast.MatchAs) and (p.pattern is None or irrefutable(p.pattern)) or isinstance(p, ast.MatchStar)


def pattern_kinds(prog: Program, f: FuncInfo, p: ast.AST):
    """(kinds, guarded) of a case, None if it is of another form."""
    if isinstance(p, ast.MatchAs) and p.pattern is not None:
        return pattern_kinds(prog, f, p.pattern)
    if isinstance(p, ast.MatchOr):
        got = [pattern_kinds(prog, f, x) for x in p.patterns]
        if any(g is None for g in got):
            return None
        return [k for g in got for k in g[0]], any(g[1] for g in got)
    if isinstance(p, ast.MatchClass):
        k = kind_of(prog, f, p.cls)
        if k is None:
            return None
        return [k], not all(irrefutable(x) for x in p.patterns + p.kwd_patterns)
    if isinstance(p, ast.MatchValue):
        k = kind_of(prog, f, p.value)
        return ([k], False) if k is not None else None
    if isinstance(p, ast.MatchSingleton):
        return [("none",) if p.value is None else ("const", p.value)], False
    return None


def chains(prog: Program, f: FuncInfo) -> list[Chain]:
    out: list[Chain] = []

    def block(body: list, last: bool):
        i = 0
        while i < len(body):
            n = body[i]
            used = 1
            if isinstance(n, ast.Match):
                bs, default, ok = [], None, True
                for c in n.cases:
                    if irrefutable(c.pattern):
                        if c.guard is None:
                            default = c.body
                        continue
                    k = pattern_kinds(prog, f, c.pattern)
                    if k is None:
                        ok = False
                        continue
                    bs.append(Branch(k[0], k[1] or c.guard is not None, c.pattern.lineno, c.body))
                if bs:
                    out.append(Chain(f, ast.unparse(n.subject), bs, default, True, n.lineno, last and i == len(body) - 1 and ok))
                for c in n.cases:
                    block(c.body, last and i == len(body) - 1)
            elif isinstance(n, ast.If):
                got = ladder(n)
                if got is not None:
                    subject, bs, default = got
                    # a sequence of branches that each leave the block
                    while default is None and all(leaves(b.body) for b in bs) and i + used < len(body) and isinstance(body[i + used], ast.If):
                        more = ladder(body[i + used])
                        if more is None or more[0] != subject:
                            break
                        bs, default = bs + more[1], more[2]
                        used += 1
                    rest = body[i + used:]
                    if default is None and all(leaves(b.body) for b in bs) and rest:
                        default = rest
                    out.append(Chain(f, subject, bs, default, False, n.lineno, last and i + used == len(body)))
                for m in body[i:i + used]:
                    inner(m)
            for name in ("body", "orelse", "finalbody"):
                if not isinstance(n, (ast.If, ast.Match, ast.FunctionDef, ast.ClassDef)) and isinstance(getattr(n, name, None), list):
                    block(getattr(n, name), False)
            for h in getattr(n, "handlers", []):
                block(h.body, False)
            i += used

    def inner(n: ast.If):
        block(n.body, False)
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            if ladder(n) is None:
                block(n.orelse, False)
            else:
                inner(n.orelse[0])
        elif n.orelse:
            block(n.orelse, False)

    def ladder(n: ast.If):
        t = test(prog, f, n.test)
        if t is None:
            return None
        subject, bs = t[0], [Branch(t[1], t[2], n.lineno, n.body)]
        while len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            m = n.orelse[0]
            t = test(prog, f, m.test)
            if t is None or t[0] != subject:
                break
            bs.append(Branch(t[1], t[2], m.lineno, m.body))
            n = m
        return subject, bs, (n.orelse or None)
    if not isinstance(f.node, ast.Lambda):
        block(f.node.body, True)
    return out


def below(a, b) -> bool:
    """Is each object of kind a also of kind b?"""
    if a[0] == "class" and b[0] == "class":
        return b[1] in a[1].mro()
    if a[0] == "class" and b[0] == "builtin":
        return any(x == b[1] for c in a[1].mro() for x in c.ext_bases()) if hasattr(a[1], "ext_bases") else any(isinstance(x, ast.Name) and x.id == b[1] for c in a[1].mro() for x in c.node.bases)
    if a == ("builtin", "bool") and b == ("builtin", "int"):
        return True
    return a == b or (a[0] == b[0] == "enum" and a[1:] == b[1:])


def show(k) -> str:
    return k[1].name if k[0] == "class" else f"{k[1].name}.{k[2]}" if k[0] == "enum" else repr(k[1]) if len(k) > 1 else "None"


def family(prog: Program, ks: list):
    """The closed set of kinds that a chain distinguishes."""
    if ks and all(k[0] == "enum" for k in ks) and len({k[1] for k in ks}) == 1:
        return ks[0][1].name, [("enum", ks[0][1], m) for m in members(ks[0][1])]
    cs = [k[1] for k in ks if k[0] == "class"]
    if len(cs) < 2 or len(cs) < len(ks):
        return None
    common = [c for c in cs[0].mro() if all(c in x.mro() for x in cs)]
    if not common:
        return None
    base = common[0]
    kinds = [c for c in prog.concrete_subclasses(base)]
    return base.name, [("class", c) for c in kinds]


def members(c: ClassInfo) -> list[str]:
    out = []
    for n in c.node.body:
        if isinstance(n, ast.Assign):
            out += [t.id for t in n.targets if isinstance(t, ast.Name) and not t.id.startswith("_")]
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            out.append(n.target.id)
    return out


def raises(body: Optional[list]) -> bool:
    return bool(body) and isinstance(body[-1], ast.Raise) and len(body) <= 3


def check_X03(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    for f in prog.functions:
        for ch in chains(prog, f):
            where = f"{f.module.rel}:{ch.line}"
            key = f"{f.qual}:{ch.subject.replace(' ', '')}"
            rep.ok("choice", key)
            hidden(ctx, ch, key)
            unhandled(ctx, ch, key, where)
    results(ctx)
    options(ctx)
    tables(ctx)
    rep.require("choice", 100)
    rep.require("result", 500)


def hidden(ctx: Ctx, ch: Chain, key: str):
    seen: list = []
    for b in ch.branches:
        for k in b.kinds:
            over, by = next(((s, o) for s, o in seen if below(k, s)), (None, None))
            if over is not None and [ast.dump(n) for n in by.body] != [ast.dump(n) for n in b.body]:
                ctx.rep.fail("hidden", f"{key}:{show(k)}", f"{ch.func.qual} never reaches its branch for {show(k)}, {show(over)} is handled before", f"{ch.func.module.rel}:{b.line}")
        if not b.guard:
            seen += [(k, b) for k in b.kinds]


# kinds that a module documents as unsupported or that its callers never pass
UNSUPPORTED = {
    ("postbound/duckdb.py", "ScanOperator.IndexOnlyScan"), ("postbound/duckdb.py", "ScanOperator.BitmapScan"),
    ("postbound/duckdb.py", "JoinOperator.IndexNestedLoopJoin"),
    ("postbound/relalg.py", "ValuesTableSource"), ("postbound/relalg.py", "FunctionTableSource"),
    ("postbound/relalg.py", "StarExpression"), ("postbound/relalg.py", "ArrayExpression"), ("postbound/relalg.py", "QuantifierExpression"),
    ("postbound/transform.py", "ValuesTableSource"), ("postbound/transform.py", "FunctionTableSource"),
    ("postbound/qal/_qal.py", "FunctionTableSource"), ("postbound/qal/_qal.py", "UnaryPredicate", "BasePredicate"),  # simple filters have exactly one value
}
# wrappers that users create explicitly, they never occur in queries
WRAPPERS = {"SimpleFilter", "SimpleJoin"}


def unhandled(ctx: Ctx, ch: Chain, key: str, where: str):
    ks = [k for b in ch.branches for k in b.kinds]
    if len(ks) < 2 or not (raises(ch.default) or (ch.default is None and ch.match)):
        return
    fam = family(ctx.prog, ks)
    if fam is None and all(k[0] == "const" for k in ks):
        lits = literal_values(ctx.prog, ch.func, ch.subject)
        if lits is not None:
            fam = ch.subject, [("const", x) for x in sorted(lits, key=str)]
    if fam is None:
        return
    kinds = fam[1]
    pred = ctx.prog.cls("AbstractPredicate")
    stage = ctx.prog.cls("OptimizationStage")
    if any(k[0] == "class" and stage in k[1].mro() for k in kinds):
        return  # users extend the stages
    if not any(k[0] == "class" and pred in k[1].mro() for k in ks):
        kinds = [k for k in kinds if not (k[0] == "class" and pred in k[1].mro())]
    kinds = [k for k in kinds if not (k[0] == "class" and k[1].name in WRAPPERS)]
    missing = [k for k in kinds if not any(below(k, s) for s in ks)]
    # a choice between a few kinds is no choice between all of them
    if 3 * len(missing) > len(kinds) and len(missing) > 1:
        return
    ctx.rep.ok("complete", key)
    for k in missing:
        if (ch.func.module.rel, show(k)) not in UNSUPPORTED and (ch.func.module.rel, show(k), fam[0]) not in UNSUPPORTED:
            ctx.rep.fail("unhandled", f"{key}:{show(k)}", f"{ch.func.qual} has no branch for {show(k)}", where)


def own_nodes(n: ast.AST):
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            yield c
            yield from own_nodes(c)


def complete_tests(prog: Program, f: FuncInfo, n) -> bool:
    """Do the tests of the branches of a final choice certainly cover all values?"""
    tests, numbers, subject = [], 0, None
    if isinstance(n, ast.Match):
        tests = [c.guard for c in n.cases if c.guard is not None]
        subject, values = ast.unparse(n.subject), []
        for c in n.cases:
            k = pattern_kinds(prog, f, c.pattern)
            if k is not None:
                values += k[0]
    else:
        while True:
            tests.append(n.test)
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                n = n.orelse[0]
            else:
                break
        got = [atom(prog, f, t) for t in tests]
        values = [k for g in got if g is not None for k in g[1]]
        subject = got[0][0] if got[0] is not None else None
    texts = {ast.unparse(t) for t in tests}
    if any(isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and ast.unparse(t.operand) in texts for t in tests):
        return True
    if any(isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)) for t in tests):
        return True  # ranges of numbers
    enums = {k[1] for k in values if k[0] == "enum"}
    if len(enums) == 1 and {k[2] for k in values if k[0] == "enum"} >= set(members(next(iter(enums)))):
        return True
    lits = literal_values(prog, f, subject)
    return lits is not None and lits <= {k[1] for k in values if k[0] == "const"}


def aliases(prog: Program) -> dict:
    """The names of module-level aliases of Literal[...]."""
    out: dict = {}
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = literals(n.value)
                if v is not None:
                    out.setdefault(n.targets[0].id, []).append(v)
    return {k: v[0] for k, v in out.items() if len(v) == 1}


def literals(n: ast.AST):
    if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Literal" and all(isinstance(x, ast.Constant) for x in parts(n.slice)):
        return {x.value for x in parts(n.slice)}
    return None


def literal_values(prog: Program, f: FuncInfo, param: Optional[str]):
    """The values of a parameter that is annotated with Literal[...], None if there might be others."""
    for a in f.all_params():
        if a.arg == param and a.annotation is not None:
            if not hasattr(prog, "literal_aliases"):
                prog.literal_aliases = aliases(prog)
            out: set = set()
            for n in parts(a.annotation):
                if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Optional":
                    n = n.slice
                v = literals(n)
                if v is None and isinstance(n, (ast.Name, ast.Attribute)):
                    v = prog.literal_aliases.get(ast.unparse(n).split(".")[-1])
                if v is None and not (isinstance(n, ast.Constant) and n.value is None):
                    return None
                out |= v or set()
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == param for n in own_nodes(f.node)):
                return None
            return out or None
    return None


def options(ctx: Ctx):
    """Options are only compared with values that they can have."""
    for f in ctx.prog.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own_nodes(f.node):
            got = None
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                b = n.comparators[0]
                if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(b, ast.Constant) and isinstance(b.value, str):
                    got = n.left, [b]
                elif isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
                    got = n.left, [x for x in b.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            elif isinstance(n, ast.Match):
                got = n.subject, [x.value for c in n.cases for x in ast.walk(c.pattern) if isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str)]
            if got is None or not isinstance(got[0], ast.Name):
                continue
            lits = literal_values(ctx.prog, f, got[0].id)
            if lits is None:
                continue
            ctx.rep.ok("option", f"{f.qual}:{got[0].id}")
            for x in got[1]:
                if x.value not in lits:
                    ctx.rep.fail("option", f"{f.qual}:{got[0].id}:{x.value}", f"{f.qual} compares {got[0].id} with {x.value!r}, its values are {', '.join(sorted(map(repr, lits)))}", f"{f.module.rel}:{n.lineno}")


def ends(prog: Program, f: FuncInfo, body: list) -> Optional[ast.AST]:
    """The statement after which control may reach the end of a block."""
    last = None
    for n in body:
        last = n
        if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return None
        if isinstance(n, ast.If):
            m, leaving = n, True
            while True:
                leaving = leaving and ends(prog, f, m.body) is None
                if len(m.orelse) == 1 and isinstance(m.orelse[0], ast.If):
                    m = m.orelse[0]
                    continue
                break
            if leaving and (ends(prog, f, m.orelse) is None if m.orelse else complete_tests(prog, f, n)):
                return None
        elif isinstance(n, ast.Match):
            if all(ends(prog, f, c.body) is None for c in n.cases) and (
                    any(irrefutable(c.pattern) and c.guard is None for c in n.cases) or complete_tests(prog, f, n)):
                return None
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            if ends(prog, f, n.body) is None:
                return None
        elif isinstance(n, ast.Try):
            if n.finalbody and ends(prog, f, n.finalbody) is None:
                return None
            if ends(prog, f, n.body + n.orelse) is None and all(ends(prog, f, h.body) is None for h in n.handlers):
                return None
        elif isinstance(n, ast.While):
            if isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, ast.Break) for x in own_nodes(n)):
                return None
    return last or f.node


def results(ctx: Ctx):
    """A function that returns a result does so for each case that it distinguishes."""
    for f in ctx.prog.functions:
        if isinstance(f.node, ast.Lambda) or f.name.startswith("__set") or f.name == "__exit__":
            continue
        ns = list(own_nodes(f.node))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ns):
            continue
        vals = [n for n in ns if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        if not vals or f.node.returns is None or "None" in ast.unparse(f.node.returns) or "Optional" in ast.unparse(f.node.returns):
            continue
        ctx.rep.ok("result", f.qual)
        n = ends(ctx.prog, f, f.node.body)
        if n is not None:
            ctx.rep.fail("result", f.qual, f"{f.qual} returns no result on the path through the end of line {n.lineno}", f"{f.module.rel}:{n.lineno}")


def tables(ctx: Ctx):
    """Each key of a lookup table has one entry."""
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict) and len(n.keys) > 1:
                seen: dict = {}
                ctx.rep.ok("table", f"{m.rel}:{len(n.keys)}:{ast.unparse(n.keys[0]) if n.keys[0] is not None else '**'}")
                for k, v in zip(n.keys, n.values):
                    if k is None or not isinstance(k, (ast.Constant, ast.Name, ast.Attribute)):
                        continue
                    d = ast.dump(k)
                    if d in seen and seen[d] != ast.dump(v):
                        ctx.rep.fail("table", f"{m.rel}:{ast.unparse(k).replace(' ', '_')}", f"a lookup table has two entries for {ast.unparse(k)}, the first one is ignored", f"{m.rel}:{k.lineno}")
                    seen[d] = ast.dump(v)
