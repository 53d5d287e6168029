"""T04: transformations of whole queries keep the clauses that they do not target."""
from __future__ import annotations

from .common import *
from .qal import adapter

TM = "postbound.transform"
QM = "postbound.qal._qal"

# (query constructor, parameter) that need not be carried over, by function: a fragment is a different query for which the hints and the
# kind of EXPLAIN of the original have no defined meaning
PARTIAL_COPY = {"extract_query_fragment": {"hints", "explain_clause"}}


def clause_params(ctx: Ctx, cls: ClassInfo) -> dict[str, ClassInfo]:
    """Constructor parameter of a query -> base class of its clause."""
    base = ctx.prog.cls("BaseClause")
    out = {}
    for p, d in ctx.content(cls).items():
        for n in d["ty"].names or ():
            c = ctx.prog.class_of_qual(n)
            if c is not None and c.is_subclass(base):
                out[p] = c
    return out


def clause_classes(ctx: Ctx) -> list[ClassInfo]:
    base = ctx.prog.cls("BaseClause")
    return [c for c in ctx.family("BaseClause") if not adapter(ctx, c) and c.module is base.module]


def elements(q: str) -> tuple:
    return (q, "clauses()", "*")


def run_returns(ctx: Ctx, f: FuncInfo, args, facts):
    it = ctx.interp()
    try:
        return it, [(it.mat(v, s), s) for k, v, s in it.run(f, args, facts=facts) if k == "return"]
    except Budget:
        return it, None


def check_T04(ctx: Ctx):
    rep = ctx.rep
    prog = ctx.prog
    sql = prog.cls("SqlQuery")
    classes = clause_classes(ctx)
    # -- operations that exchange one kind of clause ------------------------------------------------------------------
    rule = "keeps-other-clauses"
    for name, target, new in [("as_star_query", "Select", "star"), ("as_count_star_query", "Select", "count_star"), ("as_explain", "Explain", None),
                              ("drop_hints", "Hint", None)]:
        f = prog.func(TM, name)
        ps = [a.arg for a in f.all_params()]
        q, tgt = ps[0], prog.cls(target)
        for c in classes:
            hit = c.is_subclass(tgt)
            it, rets = run_returns(ctx, f, {q: pathv((q,), Ty(frozenset({sql.qual})))}, {("T", elements(q)): frozenset({c.qual}), ("t", elements(q)): True,
                                                                                      ("n", elements(q)): False})
            rep.ok(rule, f"{name}({c.name})")
            if rets is None:
                rep.skip(rule, f"{name}({c.name})")
                continue
            for v, s in rets:
                if not any(e.name == "clauses" and not e.all_args() for e in s.events) or v.path == (q,):
                    continue
                if not hit and not covered(v, elements(q)):
                    if not any(elements(q)[:len(p)] == p and p != elements(q) for p in v.src):
                        rep.fail(rule, f"{name}({c.name})", f"{f.qual} loses the {c.name} of the query", f.loc())
                if hit and elements(q) in v.src:
                    rep.fail(rule, f"{name}({c.name})", f"{f.qual} keeps the {c.name} of the query", f.loc())
                if new is not None and new not in v.calls:
                    rep.fail(rule, f"{name}:new", f"{f.qual} does not add the new projection", f.loc())
                if name == "as_explain" and len(ps) > 1 and not covered(v, (ps[1],)):
                    rep.fail(rule, f"{name}:new", f"{f.qual} does not add the requested EXPLAIN clause", f.loc())
                if name == "drop_hints" and len(ps) > 1:
                    keep = s.facts.get(("t", (ps[1],))) is True and s.facts.get(("t", (q, "hints"))) is True
                    if keep and not covered(v, (q, "hints", "query_hints")) and not any(p == (q, "hints") for p in v.src):
                        rep.fail(rule, f"{name}:query-hints", f"{f.qual} loses the query hints if only preparatory statements should be removed", f.loc())
                    if any(p[:3] == (q, "hints", "preparatory_statements") for p in v.src) or (
                            s.facts.get(("t", (ps[1],))) is False and any(p[:2] == (q, "hints") for p in v.src)):
                        rep.fail(rule, f"{name}:removed", f"{f.qual} keeps hints that should be removed", f.loc())
    f = prog.func(TM, "as_explain_analyze")
    q = f.all_params()[0].arg
    it, rets = run_returns(ctx, f, {}, {})
    rep.ok(rule, f.name)
    for v, s in rets or []:
        if not any(p[0] == q for p in v.src):
            rep.fail(rule, f.name, f"{f.qual} does not use the query", f.loc())
        elif not v.calls & {"explain_analyze"} and not any("analyze" in str(x) for x in v.calls | v.strs):
            e = next((e for e in s.events if e.name == "as_explain"), None)
            if e is not None and len(e.all_args()) < 2:
                rep.fail(rule, f.name, f"{f.qual} does not request the execution of the query", f.loc())

    # -- adding, dropping and replacing clauses -----------------------------------------------------------------------
    rule = "add-drop-replace"
    for name, must_param in [("add_clause", True), ("drop_clause", False), ("replace_clause", False)]:
        f = prog.func(TM, name)
        ps = [a.arg for a in f.all_params()]
        it, rets = run_returns(ctx, f, {ps[0]: pathv((ps[0],), Ty(frozenset({sql.qual})))}, {})
        rep.ok(rule, name)
        for v, s in rets or []:
            if v.path == (ps[0],) or any(p == (ps[0],) or p == (ps[0], "clauses()") for p in v.src):
                continue
            if not any(p[:2] == (ps[0], "clauses()") for p in v.src) and not any(p[0] == ps[0] for p in v.src):
                rep.fail(rule, f"{name}:query", f"{f.qual} loses the clauses of the query", f.loc())
            if must_param and not any(p[0] == ps[1] for p in v.must):
                rep.fail(rule, f"{name}:new", f"{f.qual} does not always add the new clauses", f.loc())
            if name == "replace_clause" and not any(p[0] == ps[1] for p in v.src):
                rep.fail(rule, f"{name}:new", f"{f.qual} does not use the replacements", f.loc())
        if name != "replace_clause":
            polarity(ctx, f, rule)
        else:
            # a clause without replacement is kept
            r = ps[1]
            it, rets = run_returns(ctx, f, {ps[0]: pathv((ps[0],), Ty(frozenset({sql.qual})))}, {("t", (r,)): False})
            for v, s in rets or []:
                if any(p[:2] == (ps[0], "clauses()") for p in v.src) and not covered(v, elements(ps[0])) and \
                        not any(elements(ps[0])[:len(p)] == p and p != elements(ps[0]) for p in v.src):
                    rep.fail(rule, f"{name}:keep", f"{f.qual} drops clauses that have no replacement", f.loc())

    # -- assembling queries -------------------------------------------------------------------------------------------
    rule = "build-query"
    f = prog.func(QM, "build_query")
    p0 = f.all_params()[0].arg
    el = (p0, "*")
    general = list(clause_params(ctx, sql).values())
    queries = [c for c in ctx.family("SqlQuery") + ctx.family("SetQuery")]
    froms = [prog.cls(n) for n in ("ImplicitFromClause", "ExplicitFromClause", "From")]
    setops = [c for c in classes if not any(c.is_subclass(b) for b in general)]
    for c in classes:
        setop = c in setops
        seen, wrong = False, None
        fams = [{c}] if setop else [{c, prog.cls("Select"), x} for x in froms] + [{c, x} for x in setops]
        for fam in fams:
            it, rets = run_returns(ctx, f, {}, {("T", el): frozenset(x.qual for x in fam), ("t", el): True, ("n", el): False})
            rep.ok(rule, f"build_query({', '.join(sorted(x.name for x in fam))})")
            if rets is None:
                rep.skip(rule, f"build_query({c.name})")
                seen = True
                continue
            for v, s in rets:
                if v.shape is None or v.shape[0] != "ctor":
                    seen = True
                    continue
                args = v.shape[2]
                if setop:
                    l, r = args.get("left_query"), args.get("right_query")
                    if l is not None and r is not None and el in l.src | r.src and (not l.src or not r.src):
                        wrong = "only one operand of the set operation is used"
                    seen = seen or (l is not None and bool(l.src))
                    op = it.mat(args.get("set_operation", const(None)), s)
                    if op.shape is not None and op.shape[0] == "enum" and not c.name.startswith(op.shape[2].replace("All", "")):
                        wrong = f"becomes the set operation {op.shape[2]}"
                    continue
                cps = clause_params(ctx, v.shape[1])
                slots = [p for p, b in cps.items() if c.is_subclass(b) or any(c.is_subclass(x) and b.is_subclass(x) for x in general)]
                for p in slots:
                    a = it.mat(args[p], s) if p in args else const(None)
                    if el in a.src or (not is_const(a, None) and not a.src):
                        seen = True
                    elif is_const(a) or p not in args:
                        wrong = f"does not end up in the {v.shape[1].name}"
                if any(x in setops for x in fam):
                    for p, a in args.items():
                        if p in cps and p not in slots and el in it.mat(a, s).src:
                            wrong = f"is used as '{p}'"
        if not seen:
            rep.fail(rule, f"build_query({c.name})", f"{f.qual} loses the {c.name}", f.loc())
        elif wrong:
            rep.fail(rule, f"build_query({c.name})", f"{f.qual}: the {c.name} {wrong}", f.loc())

    # -- listing the clauses of a query -------------------------------------------------------------------------------
    rule = "all-clauses"
    for c in queries:
        m = c.find("clauses")
        if m is None:
            raise AnalysisError(f"{c.qual} has no clauses()")
        me = m.all_params()[0].arg
        fields = {p: ctx.own_fields(c, p) for p in ctx.content(c)}
        optional = {g for p, gs in fields.items() for g in gs if "None" in (ctx.content(c)[p]["ty"].names or ())}
        ops = [(p, k) for p, d in ctx.content(c).items() for n in d["ty"].names or () for k in [prog.class_of_qual(n)] if k is not None and k.is_enum()]
        kinds = [{("e", (me, g), (k.name, x)): x == y for g in fields[p] for x in k.enum_members()} for p, k in ops for y in k.enum_members()] or [{}]
        for p, gs in fields.items():
            rep.ok(rule, f"{c.name}.{p}")
            if not gs or any(p == q for q, _ in ops):
                continue
            for kind in kinds:
                facts = dict(kind)
                for g in optional:
                    facts[("t", (me, g))] = g in gs
                    facts[("n", (me, g))] = g not in gs
                it = ctx.interp(inline=ctx.self_hook(roots=(me,)))
                try:
                    outs = it.run(m, {me: it.self_value(c, me)}, facts=facts)
                except Budget:
                    rep.skip(rule, c.name)
                    continue
                for k, v, s in outs:
                    if k != "return":
                        continue
                    v = it.mat(v, s)
                    if not any(x[:2] == (me, g) for g in gs for x in v.src) and (me,) not in v.src:
                        rep.fail(rule, f"{c.name}.{p}", f"{m.qual} does not report the '{p}' of the query", m.loc())
                    names = {e.cls.name for e, _, _ in it.log if e.cls is not None}
                    on = next((kk[2][1] for kk, x in kind.items() if x), None)
                    if on is not None and names and not any(n.startswith(on.replace("All", "")) for n in names):
                        rep.fail(rule, f"{c.name}:{on}", f"{m.qual} reports a {'/'.join(sorted(names))} for the set operation {on}", m.loc())
                    for e, _, _ in it.log:
                        if e.cls is not None and e.m is not None and on is not None:
                            for side, other in (("left_query", "right_query"), ("right_query", "left_query")):
                                a = e.m.get(side)
                                if a is not None and a.src and not any(x[:2] == (me, g) for g in fields[side] for x in a.src) and \
                                        any(x[:2] == (me, g) for g in fields[other] for x in a.src):
                                    rep.fail(rule, f"{c.name}:{on}:{side}", f"{m.qual} exchanges the operands of {on}", m.loc())
                            a = e.m.get("union_all", const(False))
                            if e.cls.name == "UnionClause" and is_const(a) and bool(a.shape[1]) != (on == "UnionAll"):
                                rep.fail(rule, f"{c.name}:{on}:all", f"{m.qual} reports {on} with union_all={a.shape[1]}", m.loc())

    # -- copying queries clause by clause -----------------------------------------------------------------------------
    rule = "complete-copies"
    copies(ctx, rule, queries)
    implicit(ctx, rule)
    rep.require("keeps-other-clauses", 40)
    rep.require("build-query", 10)
    rep.require("all-clauses", 20)


def polarity(ctx: Ctx, f: FuncInfo, rule: str):
    """Clauses that are selected by their kind are those which are *not* affected."""
    ps = [a.arg for a in f.all_params()]
    derived = {ps[1]}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(x, ast.Name) and x.id in derived for x in ast.walk(n.value)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name):
                    derived.add(t.id)
    for n in ast.walk(f.node):
        if not isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) or len(n.generators) != 1:
            continue
        g = n.generators[0]
        if not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "clauses"):
            continue
        for cond in g.ifs:
            neg = False
            while isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
                neg, cond = not neg, cond.operand
            if isinstance(cond, ast.Compare) and len(cond.ops) == 1 and isinstance(cond.ops[0], (ast.In, ast.NotIn)):
                if not any(isinstance(x, ast.Name) and x.id in derived for x in ast.walk(cond.comparators[0])):
                    continue
                if isinstance(cond.ops[0], ast.NotIn):
                    neg = not neg
                rep = ctx.rep
                rep.ok(rule, f"{f.name}:selection")
                if not neg:
                    rep.fail(rule, f"{f.name}:selection", f"{f.qual} keeps the clauses of the affected kinds instead of all others", f.loc())


def copies(ctx: Ctx, rule: str, queries):
    """A query that is created from several clauses of one other query gets all of them."""
    rep = ctx.rep
    for f in ctx.prog.functions:
        if f.cls is not None and any(f.cls is q or q.is_subclass(f.cls) for q in queries):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                continue
            c = ctx.prog.lookup(f.module.name, n.func.id)
            if c not in queries or any(k.arg is None for k in n.keywords):
                continue
            cps = ctx.content(c)
            origin: dict[str, int] = {}
            for k in n.keywords:
                for x in ast.walk(k.value):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and c.find(x.attr) is not None:
                        origin[x.value.id] = origin.get(x.value.id, 0) + 1
            pos = [a.arg for a in c.find("__init__").node.args.args[1:]][:len(n.args)]
            given = set(pos) | {k.arg for k in n.keywords}
            top = max(origin.values(), default=0)
            if top < 2:
                continue
            optional = PARTIAL_COPY.get(f.name, set())
            rep.ok(rule, f"{f.qual}:{c.name}")
            for p in cps:
                if p not in given and p not in optional:
                    rep.fail(rule, f"{f.name}:{c.name}.{p}", f"{f.qual} creates a {c.name} from the clauses of another query, but leaves out '{p}'",
                             f"{f.module.rel}:{n.lineno}")


def implicit(ctx: Ctx, rule: str):
    """The implicit variant of a query has the clauses of the explicit one."""
    rep, prog = ctx.rep, ctx.prog
    f = prog.func(TM, "explicit_to_implicit")
    q = f.all_params()[0].arg
    cls = prog.cls("ExplicitSqlQuery")
    it, rets = run_returns(ctx, f, {q: pathv((q,), Ty(frozenset({cls.qual})))}, {})
    for v, s in rets or []:
        if v.shape is None or v.shape[0] != "ctor":
            continue
        for p in ctx.content(cls):
            rep.ok(rule, f"explicit_to_implicit.{p}")
            g = {norm(x) for x in ctx.own_fields(cls, p)} | set(ctx.own_fields(cls, p))
            a = v.shape[2].get(p)
            if a is None:
                continue  # reported by copies()
            a = it.mat(a, s)
            if any(s.nullish((q, x)) for x in g):
                continue
            if not any(len(x) > 1 and x[0] == q and x[1] in g for x in a.src) and not (not a.src and a.calls) and (q,) not in a.src:
                rep.fail(rule, f"explicit_to_implicit.{p}", f"{f.qual} loses the '{p}' of the query", f.loc())
        # all conditions
        if not any(x[0] == q and (x[-1] in ("join_condition", "items") or "predicates()" in x) for x in v.src) and any(
                x[0] == q and "items" in x for x in v.src):
            rep.fail(rule, "explicit_to_implicit:join_condition", f"{f.qual} loses the join conditions of the query", f.loc())
    joins = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr in ("left", "right")]
    if joins and {n.attr for n in joins} != {"left", "right"}:
        rep.fail(rule, "explicit_to_implicit:operands", f"{f.qual} only processes one operand of each join", f.loc())
