"""R01: the translation of a query to relational algebra keeps the parts of the query."""
from __future__ import annotations

from .common import *
from .qal import adapter

RM = "postbound.relalg"
PARTS = ("AbstractPredicate", "SqlExpression", "SqlQuery", "SetQuery", "OrderByExpression", "TableSource")
PHASES = ("BaseTable", "Join", "PostJoin", "PostAggregation")
# public name of the clause -> path of its data (each step lists alternative names)
CLAUSES = {
    "where_clause": ("predicate",), "groupby_clause": ("group_columns", "*"), "having_clause": ("condition",),
    "orderby_clause": ("expressions", "*", "column"),
}


def parser_class(ctx: Ctx) -> tuple[FuncInfo, ClassInfo, FuncInfo]:
    """The class that does the work of the public function, and the method that starts the translation."""
    prog = ctx.prog
    f = prog.func(RM, "parse_relalg")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call):
            c = prog.lookup(f.module.name, ast.unparse(n.func.value.func))
            if isinstance(c, ClassInfo) and c.find(n.func.attr) is not None:
                return f, c, c.find(n.func.attr)
    made = [c for n in ast.walk(f.node) if isinstance(n, ast.Call) for c in [prog.lookup(f.module.name, ast.unparse(n.func))] if isinstance(c, ClassInfo)]
    calls = [n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
    for c in made:
        for a in calls:
            if c.find(a) is not None:
                return f, c, c.find(a)
    raise AnalysisError("parse_relalg: cannot find the class that translates queries")


def bearing_names(ctx: Ctx, g: FuncInfo, a: ast.arg, names) -> bool:
    ty = ctx.prog.ty(g.module, a.annotation) if a.annotation is not None else ANY
    bases = [ctx.prog.cls(n) for n in names]
    return ctx.bearing(ty, lambda c: any(c is b or c.is_subclass(b) for b in bases))


def params(ctx: Ctx, g: FuncInfo, *names) -> list[str]:
    return [a.arg for a in g.all_params() if a.arg != "self" and bearing_names(ctx, g, a, names)]


def returns_node(ctx: Ctx, g: FuncInfo) -> bool:
    ty = ctx.prog.ty(g.module, g.node.returns) if g.node.returns is not None else ANY
    return ctx.bearing(ty, lambda c: c is ctx.prog.cls("RelNode", RM) or c.is_subclass(ctx.prog.cls("RelNode", RM)))


def aliases(ctx: Ctx, cls: ClassInfo, name: str) -> list[str]:
    """A property and the field that it reads."""
    g = cls.find(name)
    out = [name]
    if g is not None and (x := ctx.interp().simple_prop(g)):
        out.append(norm(x))
    return out


def has(v: V, path: tuple) -> bool:
    return any(p[:len(path)] == path or path[:len(p)] == p and len(p) > 3 for p in v.src)


def ctors(v, out=None, d=0) -> list:
    out = [] if out is None else out
    if isinstance(v, V) and v.shape is not None and d < 12:
        if v.shape[0] == "ctor":
            out.append((v.shape[1], v.shape[2]))
            for x in v.shape[2].values():
                ctors(x, out, d + 1)
        elif isinstance(v.shape[1], (list, tuple)):
            for x in v.shape[1]:
                ctors(x, out, d + 1)
    return out


def components(param: str, d: dict) -> list[set]:
    """Alternative names of the parts of a constructor parameter."""
    own = {f: v for f, v in d["fields"].items() if {p[0] for p in v.src} == {param} and "hash" not in v.calls}
    if d["ty"].items and len(d["ty"].items) > 1:
        parts = [{f} for f, v in own.items() if f != param and all(len(p) > 1 for p in v.src)]
        if parts:
            return parts
    return [{param, *own} | ({"iterchildren()"} if param == "children" else set())]


class Run:
    """One run of a method of the parser. Methods that translate a part of the query are recorded instead of being followed."""

    def __init__(self, ctx: Ctx, cls: ClassInfo, m: FuncInfo, args: dict, facts: dict, follow=lambda g: False, visits=None) -> None:
        self.ctx, self.cls, self.calls, self.visits, self.n = ctx, cls, [], visits, 0
        it = self.it = ctx.interp(inline=lambda it, g, recv: self.inline(it, g, recv, cls, follow), cap=80)
        it.results = self.record
        it.made = self.made
        self.outs = [(it.mat(v, s), s) for k, v, s in it.run(m, {"self": it.self_value(cls), **args}, facts) if k == "return"]

    def inline(self, it, g, recv, cls, follow):
        if g.cls is cls and recv is not None and recv.path == ("self",):
            return follow(g) or not params(self.ctx, g, *PARTS)
        return follow(g) or (g.name == "foreach" and g.cls is None) or None

    def record(self, it, name, recv, args, kwargs, st):
        if self.visits is not None and name == "accept_visitor" and recv is not None and self.visits(recv):
            return [(pathv(("nested?",)), st)]
        if recv is None or recv.path != ("self",):
            return None
        vals = [it.mat(x, st) for x in [*args, *kwargs.values()]]
        mark = f"@{name}:{len(self.calls)}"
        self.calls.append((name, vals, mark))
        v = comb([it.mat(recv, st), *vals], calls=frozenset({name}))
        st = st.copy()
        st.facts[("called", (mark,))] = True
        f = next((g for g in self.ctx.prog.functions if g.cls is self.cls and g.name == name), None)
        if f is not None and returns_node(self.ctx, f):
            st.facts[("made", (mark,))] = True
        return [(v.with_(src=v.src | {(mark,)}, must=v.must | {(mark,)}, whole=v.whole | {(mark,)}, path=None, shape=None), st)]

    def made(self, it, c: ClassInfo, st):
        if not c.is_subclass(self.ctx.prog.cls("RelNode", RM)):
            return None
        self.n += 1
        return (f"@{c.name}#{self.n}",)

    def unused(self, v: V, s: St, states=()) -> list[str]:
        """Trees that were built on the path but are not part of the result."""
        return sorted(m[0][1:].split(":")[0].split("#")[0] for m in [k[1] for k, x in s.facts.items() if k[0] == "made" and x is True]
                      if m not in v.must and not any(m in x.src for x in states))


def never_used(ctx: Ctx, r: "Run", keep) -> list[str]:
    """Calls in loops whose result is not part of the result of any path."""
    out = []
    for name, vals, mark in r.calls:
        f = next((g for g in ctx.prog.functions if g.cls is r.cls and g.name == name), None)
        if f is not None and returns_node(ctx, f) and name not in keep and r.outs and not any((mark,) in v.src for v, s in r.outs) and \
                not any((mark,) in r.it.mat(a, s).src for v, s in r.outs for a in s.attrs.values()):
            out.append(name)
    return out


def enum_of(v: V) -> Optional[str]:
    if v.shape is not None and v.shape[0] == "enum":
        return v.shape[2]
    return None


def check_R01(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    entry, cls, gen = parser_class(ctx)
    qparam = next((p for p in ctx.content(cls) if bearing_names(ctx, cls.find("__init__"), next(
        a for a in cls.find("__init__").all_params() if a.arg == p), ("SqlQuery", "SetQuery"))), None)
    if qparam is None or not ctx.own_fields(cls, qparam):
        raise AnalysisError(f"{cls.name}: cannot find the query")
    Q = ("self", ctx.own_fields(cls, qparam)[0])
    star = frozenset({prog.cls("ImplicitSqlQuery").qual})
    setq = prog.cls("SetQuery")

    stage = prog.cls("EvaluationPhase", RM)
    # methods that (also) keep their result in the translator
    stage_calls = {g.name for g in prog.functions if g.cls is cls and any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)
                                                                         and "self." in ast.unparse(n) for n in ast.walk(g.node))}

    # -- the clauses of a plain query ----------------------------------------------------------------------------------
    rule = "clauses"
    query = prog.cls("ImplicitSqlQuery")
    names = {c: aliases(ctx, query, c) for c in (*CLAUSES, "cte_clause", "select_clause", "from_clause")}

    def plain(*present, distinct=False, everything=False):
        out = {("T", Q): star}
        for c in (*CLAUSES, "cte_clause"):
            for n in names[c]:
                out[("t", Q + (n,))] = c in present
                out[("n", Q + (n,))] = c not in present
        for n in names["select_clause"]:
            out[("t", Q + (n, "is_distinct()"))] = distinct
            out[("t", Q + (n, "is_star()"))] = everything
        return out

    for c, d in [(c, d) for i, c in enumerate(CLAUSES) for d in [None, *list(CLAUSES)[i + 1:], "distinct"]]:
        r = Run(ctx, cls, gen, {}, plain(c, d, distinct=d == "distinct"))
        row = c if d is None else f"{c}+{d}"
        rep.ok(rule, row)
        for v, s in r.outs:
            for x in (c, d):
                if x in CLAUSES and not any(has(v, Q + (n,) + CLAUSES[x]) for n in names[x]):
                    rep.fail(rule, f"{row}:{x}", f"{gen.qual} loses the {x}", gen.loc())
            if ("DuplicateElimination" in v.calls) != (d == "distinct"):
                rep.fail(rule, f"{row}:distinct", f"{gen.qual} {'does not remove' if d == 'distinct' else 'removes'} duplicate rows", gen.loc())
            for x in r.unused(v, s, [r.it.mat(a, s) for a in s.attrs.values()]):
                if x not in stage_calls:
                    rep.fail("linear", f"{gen.name}:{x}", f"{gen.qual} does not use the result of {x}", gen.loc())
            if not any(p[0] == "self" and len(p) > 2 and p[1] != Q[1] and p[-1] in ("*", "values()") for p in v.whole):
                rep.fail("tables", gen.name, f"{gen.qual} does not always use the trees of all tables", gen.loc())
            if "having_clause" in (c, d) and "Grouping" in v.calls:
                groups = [e for e in s.events if e.cls is not None and e.cls.name == "Grouping"]
                if groups and not any(any(p[:len(Q) + 1] == Q + (n,) for n in names["having_clause"]) for e in groups for a in e.m.values() for p in a.src):
                    rep.fail("aggregates", gen.name, f"{gen.qual} does not always compute the aggregates of the HAVING clause", gen.loc())
        for x in never_used(ctx, r, stage_calls):
            rep.fail("linear", f"{gen.name}:{x}", f"{gen.qual} does not use the result of {x}", gen.loc())
        if d is not None:
            continue
        data = CLAUSES[c]
        # the stages of predicates
        if c in ("where_clause", "having_clause"):
            stages = {}
            for name, vals, mark in r.calls:
                if any(has(x, Q + (n,) + data) for n in names[c] for x in vals if x.path is not None):
                    for x in vals:
                        if enum_of(x) in PHASES:
                            stages.setdefault(enum_of(x), []).append(mark)
            for ph in (PHASES[:3] if c == "where_clause" else PHASES[3:]):
                rep.ok("stages", f"{c}:{ph}")
                if not stages:
                    rep.skip("stages", f"{c}:{ph}")
                elif ph not in stages:
                    rep.fail("stages", f"{c}:{ph}", f"{gen.qual} never applies the {c} during the stage {ph}", gen.loc())
                elif ph in PHASES[2:] and not all(any((m,) in v.src for m in stages[ph]) for v, _ in r.outs):
                    rep.fail("stages", f"{c}:{ph}", f"{gen.qual} does not use the tree with the {c} of the stage {ph}", gen.loc())
    for distinct in (True, False):
        r = Run(ctx, cls, gen, {}, plain(distinct=distinct))
        rep.ok(rule, f"distinct={distinct}")
        for v, s in r.outs:
            if ("DuplicateElimination" in v.calls) != distinct:
                rep.fail(rule, f"distinct={distinct}", f"{gen.qual} {'does not remove' if distinct else 'removes'} duplicate rows of SELECT"
                         f"{' DISTINCT' if distinct else ''}", gen.loc())
            if not any(has(v, Q + (n, "targets", "*")) for n in names["select_clause"]):
                rep.fail(rule, "select_clause", f"{gen.qual} loses the projection", gen.loc())
    r = Run(ctx, cls, gen, {}, plain("cte_clause"))
    rep.ok(rule, "cte_clause")
    for v, s in r.outs:
        if not any(any(has(x, Q + (n, k, "*", "query")) for n in names["cte_clause"] for k in ("queries", "with_queries"))
                   for x in [v] + [r.it.mat(a, s) for a in s.attrs.values()]):
            rep.fail(rule, "cte_clause", f"{gen.qual} does not translate the common table expressions", gen.loc())
    rep.ok(rule, "from_clause")
    for v, s in r.outs:
        every = [v] + [r.it.mat(a, s) for a in s.attrs.values()] + [x for _, vals, _ in r.calls for x in vals]
        if not any(any(has(x, Q + (n, "items", "*")) for n in names["from_clause"]) for x in every):
            rep.fail(rule, "from_clause", f"{gen.qual} does not translate all tables of the FROM clause", gen.loc())

    # -- ordering ------------------------------------------------------------------------------------------------------
    rule = "sort-direction"
    for val in (True, False, None):
        facts = plain("orderby_clause")
        for n in names["orderby_clause"]:
            p = Q + (n, "expressions", "*", "ascending")
            facts[("t", p)] = bool(val)
            facts[("n", p)] = val is None
            for k in (True, False, None):
                facts[("=", p, k)] = val is k
        r = Run(ctx, cls, gen, {}, facts, follow=lambda g: bool(params(ctx, g, "OrderByExpression")) and g.cls is cls)
        rep.ok(rule, str(val))
        for x in never_used(ctx, r, stage_calls):
            rep.fail("linear", f"sort:{x}", f"{gen.qual} does not use the result of {x}", gen.loc())
        for v, s in r.outs:
            got = v.strs & {"asc", "desc"}
            want = "desc" if val is False else "asc"
            if got and want not in got or got == {"asc", "desc"} and False:
                rep.fail(rule, str(val), f"{gen.qual} sorts {'/'.join(sorted(got))} for ascending={val}", gen.loc())

    # -- set queries ---------------------------------------------------------------------------------------------------
    rule = "set-operations"
    sides = [aliases(ctx, setq, n) for n in ("left_query", "right_query")]
    ops = aliases(ctx, setq, "set_operation")
    for m in prog.cls("SetOperator").enum_members():
        facts = {("T", Q): frozenset({setq.qual})}
        for n in ops:
            for o in prog.cls("SetOperator").enum_members():
                facts[("e", Q + (n,), (prog.cls("SetOperator").name, o))] = o == m
        for c in ("orderby_clause", "cte_clause"):
            for n in aliases(ctx, setq, c):
                facts[("t", Q + (n,))] = False
                facts[("n", Q + (n,))] = True
        r = Run(ctx, cls, gen, {}, facts, follow=lambda g: g.cls is cls and g is not gen and bool(params(ctx, g, "SetQuery")) and not params(ctx, g, "SqlQuery"))
        rep.ok(rule, m)
        want = {"Union": "Union", "UnionAll": "Union", "Intersect": "Intersection", "Except": "Difference"}.get(m)
        for v, s in r.outs:
            nodes = v.calls & {"Union", "Intersection", "Difference"}
            if want is None or not nodes:
                continue
            if want not in nodes or len(nodes) > 1:
                rep.fail(rule, m, f"{gen.qual} translates {m} to {'/'.join(sorted(nodes))}", gen.loc())
            if want == "Union" and ("DuplicateElimination" in v.calls) != (m == "Union"):
                rep.fail(rule, f"{m}:duplicates", f"{gen.qual} {'keeps' if m == 'Union' else 'removes'} the duplicates of {m}", gen.loc())
            for c, args in ctors(v):
                if c.name != want:
                    continue
                ins = [r.it.mat(a, s) for a in list(args.values())[:2]]
                for i, side in enumerate(("left", "right")):
                    own = any(has(ins[i], Q + (n,)) for n in sides[i])
                    other = any(has(ins[i], Q + (n,)) for n in sides[1 - i])
                    if other and not own:
                        rep.fail(rule, f"{m}:{side}", f"{gen.qual} uses the wrong query as {side} input of {m}", gen.loc())
            if not all(any(has(v, Q + (n,)) for n in sides[i]) for i in (0, 1)):
                if not any(e.name == gen.name and e.recv is not None and e.recv.path == ("self",) for e in s.events):
                    rep.fail(rule, f"{m}:inputs", f"{gen.qual} does not translate both inputs of {m}", gen.loc())
            again = [e for e in s.events if e.fi is gen and e.recv is not None and e.recv.path == ("self",)]
            if len(again) > 1:
                rep.fail("independent-inputs", m, f"{gen.qual} translates both inputs of {m} with the same tables", gen.loc())
    rep.ok("independent-inputs", gen.qual)

    # -- nested queries ------------------------------------------------------------------------------------------------
    rule = "nested-queries"
    init = cls.find("__init__")
    dicts = {a.arg for a in init.all_params()[1:] if "dict" in (prog.ty(init.module, a.annotation).names or ())}
    kept = {p: f for p in dicts for f, v in ctx.content(cls)[p]["fields"].items()}
    for g in [g for g in prog.functions if g.cls is cls and g is not init]:
        made = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and prog.lookup(g.module.name, ast.unparse(n.func)) is cls]
        if not made:
            continue
        it = ctx.interp(inline=lambda it, h, recv: None, cap=80)
        seen = False
        for k, v, s in it.run(g, {"self": it.self_value(cls)}, {}):
            for e in s.events:
                if e.cls is not cls or k != "return":
                    continue
                seen = True
                b = e.bound()
                for p in sorted(dicts):
                    x = it.mat(b[p], s) if p in b else None
                    if x is None or not has(x, ("self", kept.get(p, p))):
                        rep.fail(rule, f"{g.name}:{p}", f"{g.qual} does not tell nested queries about the {p} of the outer query", g.loc())
        rep.ok(rule, g.name)
        if not seen:
            rep.skip(rule, g.name)

    # -- stages of a predicate -----------------------------------------------------------------------------------------
    stage = prog.cls("EvaluationPhase", RM)
    for g in [g for g in prog.functions if g.cls is cls]:
        ph = [a.arg for a in g.all_params()[1:] if stage.qual in (prog.ty(g.module, a.annotation).names or ())]
        pred = params(ctx, g, "AbstractPredicate")
        node = params(ctx, g, "RelNode")
        if len(ph) != 1 or not pred or not node:
            continue
        filters = lambda h: h.cls is None and h.module is g.module and bool(params(ctx, h, "AbstractPredicate")) and h.node.returns is not None and \
            "AbstractPredicate" in ast.unparse(h.node.returns)
        for m in PHASES:
            facts = {("e", (ph[0],), (stage.name, o)): o == m for o in stage.enum_members()}
            facts[("t", (pred[0],))] = True
            facts[("n", (pred[0],))] = False
            facts[("n", (node[0],))] = m in PHASES[:2]
            r = Run(ctx, cls, g, {}, facts, follow=filters)
            rep.ok("stages", f"{g.name}:{m}")
            states = [x for v, s in r.outs for x in [r.it.mat(a, s) for a in s.attrs.values()]]
            if m == "PostAggregation":
                bad = [v for v, s in r.outs if not has(v, (pred[0],))]
                if bad:
                    rep.fail("stages", f"{g.name}:{m}:predicate", f"{g.qual} may drop conditions on groups", g.loc())
            elif m == "Join" and any((mk,) in x.src for x in states for n, _, mk in r.calls) and not any(
                    e.name == "tables" and e.recv is not None and any((mk,) in r.it.mat(e.recv, St()).src for n, _, mk in r.calls if returns_node(ctx, cls.find(n))) for e, _, _ in r.it.log):
                rep.fail("stages", f"{g.name}:{m}:tables", f"{g.qual} does not register a join for all tables that it contains", g.loc())
            elif m == "PostJoin":
                if not any(has(v, (pred[0],)) for v, s in r.outs):
                    rep.fail("stages", f"{g.name}:{m}:predicate", f"{g.qual} never applies predicates after the joins", g.loc())
            else:
                if not any(has(x, (pred[0],)) for x in states):
                    rep.fail("stages", f"{g.name}:{m}:predicate", f"{g.qual} does not keep the tables with the predicates of {m}", g.loc())
            if m in PHASES[2:] and any(not has(v, (node[0],)) for v, s in r.outs):
                rep.fail("stages", f"{g.name}:{m}:input", f"{g.qual} loses the tree that the predicate is applied to", g.loc())

    # -- every part of a conjunction belongs to exactly one stage ------------------------------------------------------
    rule = "conjunctions"
    comp, cop = prog.cls("CompoundPredicate"), prog.cls("CompoundOperator")
    for h in [h for h in prog.functions if h.module is entry.module and h.cls is None and h.node.returns is not None]:
        pred = params(ctx, h, "AbstractPredicate")
        ph = [a.arg for a in h.all_params() if stage.qual in (prog.ty(h.module, a.annotation).names or ())]
        if len(pred) != 1 or len(ph) != 1 or "AbstractPredicate" not in ast.unparse(h.node.returns):
            continue
        P = (pred[0],)
        it = ctx.interp(inline=lambda it, g, recv: False)

        def known(it, name, recv, args, kwargs, st):
            f = prog.find_func(h.module.name, name)
            if f is None or f.node.returns is None or ast.unparse(f.node.returns) != stage.name:
                return None
            vals = [it.mat(x, st) for x in [*args, *kwargs.values()]]
            whole = any(x.path == P for x in vals)
            return [(pathv(("whole?" if whole else "part?",), Ty(frozenset({stage.qual}))), st)]
        it.results = known
        facts = {("T", P): frozenset({comp.qual}), ("t", P): True, ("n", P): False}
        for n in aliases(ctx, comp, "operation"):
            for o in cop.enum_members():
                facts[("e", P + (n,), (cop.name, o))] = o == "And"
        rep.ok(rule, h.name)
        for k, v, s in it.run(h, {}, facts):
            if k != "return":
                continue
            v = it.mat(v, s)
            if any(p[:1] == ("whole?",) for p in s.tested) and not any(p[:1] == P and len(p) > 1 and p[1] in
                                                                      ("children", "iterchildren()") for p in s.tested | v.src):
                if is_const(v, None):
                    rep.fail(rule, f"{h.name}:dropped", f"{h.qual} drops all parts of a conjunction because of the stage of the conjunction", h.loc())
            elif not is_const(v, None) and not any(p[:1] == P for p in v.src):
                rep.fail(rule, f"{h.name}:other", f"{h.qual} does not return parts of the conjunction", h.loc())

        for o1 in [o for o in cop.enum_members() if o != "And"]:
            facts = {("T", P): frozenset({comp.qual}), ("t", P): True, ("n", P): False}
            for n in aliases(ctx, comp, "operation"):
                for o in cop.enum_members():
                    facts[("e", P + (n,), (cop.name, o))] = o == o1
            rep.ok(rule, f"{h.name}:{o1}")
            for k, v, s in it.run(h, {}, facts):
                if k == "return" and not is_const(v, None) and P not in it.mat(v, s).src:
                    rep.fail(rule, f"{h.name}:{o1}", f"{h.qual} splits predicates with the operator {o1}", h.loc())
        for a in PHASES:
            for b in PHASES:
                facts = {("T", P): frozenset({comp.qual}), ("t", P): True, ("n", P): False}
                for n in aliases(ctx, comp, "operation"):
                    for o in cop.enum_members():
                        facts[("e", P + (n,), (cop.name, o))] = o == "And"
                for o in stage.enum_members():
                    facts[("e", ("part?",), (stage.name, o))] = o == a
                    facts[("e", (ph[0],), (stage.name, o))] = o == b
                rep.ok(rule, f"{h.name}:{a}:{b}")
                kept = any(any(p[:1] == P for p in v.src) for k, v, s in it.run(h, {}, facts) for v in [it.mat(v, s)] if k == "return")
                if kept != (a == b):
                    rep.fail(rule, f"{h.name}:{a}:{b}", f"{h.qual} {'keeps' if kept else 'drops'} a part that belongs to {a} when asked for {b}", h.loc())

    # -- translation of individual predicates and expressions ----------------------------------------------------------
    rule = "predicates"
    base = prog.cls("AbstractPredicate")
    holders = {c.name for c in ctx.family("RelNode", RM) for a in (c.find("__init__").all_params()[1:] if c.find("__init__") else ())
               if bearing_names(ctx, c.find("__init__"), a, ("AbstractPredicate",))}

    def content_lost(v: V, P: tuple, c: ClassInfo) -> list[str]:
        if any(p == P for p in v.src):
            return []
        out = []
        for x, d in ctx.content(c).items():
            if not ctx.bearing(d["ty"], lambda k: any(k.is_subclass(prog.cls(n)) for n in ("AbstractPredicate", "SqlExpression"))):
                continue
            alts = {x, *d["fields"]} | ({"iterchildren()"} if x == "children" else set())
            if not any(p[:1] == P and len(p) > 1 and p[1] in alts for p in v.src):
                out.append(x)
        return out

    made_by = {g.name: {n.func.attr for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and ast.unparse(n.func.value) == "self"} for g in prog.functions if g.cls is cls}
    nesting = {g.name for g in prog.functions if g.cls is cls and any(isinstance(n, ast.Call) and prog.lookup(g.module.name, ast.unparse(n.func)) is cls
                                                                     for n in ast.walk(g.node))}
    while True:
        more = {n for n, cs in made_by.items() if cs & nesting} - nesting
        if not more:
            break
        nesting |= more

    def operands_lost(r: Run, s: St, P: tuple, c: ClassInfo) -> list[str]:
        args = [x for name, vals, m in r.calls if name in nesting if s.facts.get(("called", (m,))) is True or any("*" in p for x in vals for p in x.src) for x in vals]
        if not any(s.facts.get(("called", (m,))) is True for n, _, m in r.calls if n in nesting) or any(x.path == P for x in args):
            return []
        out = []
        for x, d in ctx.content(c).items():
            if ctx.bearing(d["ty"], lambda k: any(k.is_subclass(prog.cls(n)) for n in ("AbstractPredicate", "SqlExpression"))):
                for comp_ in components(x, d):
                    if not any(p[:1] == P and len(p) > 1 and p[1] in comp_ for a in args for p in a.src):
                        out.append(sorted(comp_)[0])
        return out

    kinds = [c for c in ctx.family("AbstractPredicate") if not adapter(ctx, c)]
    for g in [g for g in prog.functions if g.cls is cls]:
        pred = [a.arg for a in g.all_params()[1:] if base.qual in (prog.ty(g.module, a.annotation).names or ())]
        node = params(ctx, g, "RelNode")
        ph = [a.arg for a in g.all_params()[1:] if stage.qual in (prog.ty(g.module, a.annotation).names or ())]
        if len(pred) != 1 or ph:
            continue
        P = (pred[0],)
        if returns_node(ctx, g):
            if not any(isinstance(n, ast.Call) and ast.unparse(n.func) in holders for n in ast.walk(g.node)):
                continue
        elif g.node.returns is None or "AbstractPredicate" not in ast.unparse(g.node.returns):
            continue
        for c in kinds:
            for nested in ((True, False) if returns_node(ctx, g) else (None,)):
                for op in (cop.enum_members() if c is comp else [None]):
                    facts = {("T", P): frozenset({c.qual}), ("t", P): True, ("n", P): False}
                    if op is not None:
                        for n in aliases(ctx, comp, "operation"):
                            for o in cop.enum_members():
                                facts[("e", P + (n,), (cop.name, o))] = o == op
                    if nested is not None:
                        facts[("t", ("nested?",))] = nested
                        facts[("n", ("nested?",))] = False
                    row = f"{g.name}({c.name}{'' if op is None else '.' + op}{'' if nested is None else ',' + ('' if nested else 'no-') + 'subqueries'})"
                    r = Run(ctx, cls, g, {P[0]: pathv(P, Ty(frozenset({c.qual})))}, facts,
                            visits=lambda recv: recv.path is not None and recv.path[:1] == P)
                    rep.ok(rule, row)
                    for v, s in r.outs:
                        # the children of a compound are visited in a loop, which has no effect for a compound without children
                        for x in content_lost(v, P, c) if c is not comp or op == "Not" or all(content_lost(v, P, c) for v, _ in r.outs) else []:
                            rep.fail(rule, f"{row}:{x}", f"{g.qual} loses the {x} of a {c.name}", g.loc())
                        if returns_node(ctx, g):
                            for x in r.unused(v, s):
                                rep.fail("linear", f"{g.name}:{x}", f"{g.qual} does not use the result of {x}", g.loc())
                            if nested:
                                for x in operands_lost(r, s, P, c):
                                    rep.fail("operands", f"{row}:{x}", f"{g.qual} does not translate the subqueries of the {x} of a {c.name}", g.loc())
                        for n in node:
                            if returns_node(ctx, g) and not has(v, (n,)):
                                rep.fail(rule, f"{row}:{n}", f"{g.qual} loses the {n}", g.loc())
                    if node and returns_node(ctx, g):
                        sets = {x for v, s in r.outs for x in v.calls & {"Union", "Difference", "Intersection"}}
                        want = {"Or": "Union", "Not": "Difference"}.get(op)
                        inner = {x for v, s in r.outs for x in v.calls & {g.name}}
                        if sets - {want} or nested and inner and want and not sets:
                            rep.fail("set-nodes", row, f"{g.qual} combines the branches of {op or c.name} with {'/'.join(sorted(sets)) or 'a conjunction'}", g.loc())
                    if op == "Or" and nested and node:
                        for name, vals, m in r.calls:
                            if name == g.name and any((n,) in x.src and x.calls & {"Selection", "Union", g.name} for x in vals for n in node):
                                rep.fail("set-nodes", f"{row}:branch", f"{g.qual} applies a branch of a disjunction to the result of another one", g.loc())
                        for e, _, _ in r.it.log:
                            if e.cls is not None and e.cls.name == "Union" and any(a.path == (n,) for a in e.all_args() for n in node):
                                rep.fail("set-nodes", f"{row}:unfiltered", f"{g.qual} combines the branches of a disjunction with the unfiltered input", g.loc())
        # existence tests
        if not node or not returns_node(ctx, g):
            continue
        c, lop = prog.cls("UnaryPredicate"), prog.cls("LogicalOperator")
        for op, want in [("Exists", "SemiJoin"), ("Missing", "AntiJoin")]:
            facts = {("T", P): frozenset({c.qual}), ("t", P): True, ("n", P): False, ("t", ("nested?",)): True, ("n", ("nested?",)): False}
            for n in aliases(ctx, c, "operation"):
                for o in lop.enum_members():
                    facts[("e", P + (n,), (lop.name, o))] = o == op
            for n in aliases(ctx, c, "column"):
                facts[("T", P + (n,))] = frozenset({prog.cls("SubqueryExpression").qual})
            r = Run(ctx, cls, g, {P[0]: pathv(P, Ty(frozenset({c.qual})))}, facts, visits=lambda recv: recv.path is not None and recv.path[:1] == P,
                    follow=lambda h: h.cls is cls and h is not g and bool(params(ctx, h, "SqlExpression")) and bool(params(ctx, h, "RelNode"))
                    and not params(ctx, h, "AbstractPredicate"))
            rep.ok("existence", f"{g.name}:{op}")
            got = {x for v, s in r.outs for x in v.calls & {"SemiJoin", "AntiJoin"}}
            if got and got != {want}:
                rep.fail("existence", f"{g.name}:{op}", f"{g.qual} translates {op} to {'/'.join(sorted(got))}", g.loc())
    rep.require(rule, 20)
    rep.require("clauses", 6)
    rep.require("stages", 4)


def check_R02(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    base = prog.cls("RelNode", RM)
    nodes = ctx.family("RelNode", RM)
    is_node = lambda k: k is base or k.is_subclass(base)
    for c in nodes:
        init = c.find("__init__")
        content = ctx.content(c)
        inputs = [p for p, d in content.items() if ctx.bearing(d["ty"], is_node) and p not in ("parent_node", "parent")]

        # -- inputs ----------------------------------------------------------------------------------------------------
        rule = "inputs"
        g = c.find("children")
        it = ctx.interp()
        rep.ok(rule, c.name)
        for k, v, s in it.run(g, {"self": it.self_value(c)}, {("t", ("self", f)): True for p in inputs for f in content[p]["fields"]}):
            if k != "return":
                continue
            v = it.mat(v, s)
            order = []
            for p in inputs:
                names = {p, *content[p]["fields"]}
                if not any(x[:1] == ("self",) and len(x) > 1 and x[1] in names for x in v.src):
                    rep.fail(rule, f"{c.name}:{p}", f"{g.qual} does not report the input {p}", g.loc())
            if v.shape is not None and v.shape[0] == "seq":
                for x in v.shape[1]:
                    order += [p for p in inputs if any(q[:1] == ("self",) and len(q) > 1 and q[1] in {p, *content[p]["fields"]} for q in x.src)]
                if sorted(order) == sorted(inputs) and order != inputs:
                    rep.fail(rule, f"{c.name}:order", f"{g.qual} reports the inputs in a different order than they were given", g.loc())

        # -- tables and expressions ------------------------------------------------------------------------------------
        for m in ("tables", "provided_expressions"):
            g = c.find(m)
            rule = m
            rep.ok(rule, c.name)
            opts = [a.arg for a in g.all_params()[1:]]
            for val in ((False, True) if opts else (None,)):
                it = ctx.interp(inline=ctx.self_hook(), cap=40)
                sup = []
                facts = {("t", (o,)): val for o in opts}
                facts.update({("e", (o,), val): True for o in opts})
                for k, v, s in it.run(g, {"self": it.self_value(c)}, facts):
                    if k != "return":
                        continue
                    v = it.mat(v, s)
                    for p in content:
                        d = content[p]
                        if m == "tables":
                            want = p in inputs or ctx.bearing(d["ty"], lambda k: k.name == "TableReference")
                        else:
                            want = g.cls is c and p not in inputs and ctx.bearing(d["ty"], lambda k: k.name in ("SqlExpression", "ColumnReference", "SqlQuery"))
                        if not want or val and p in inputs and (c.name == "SubqueryScan" or p.startswith("subquery")):
                            continue
                        names = {p, *d["fields"]}
                        if not any(x[:1] == ("self",) and len(x) > 1 and x[1] in names for x in v.src) and not any(
                                x[:2] == ("self", "children()") for x in v.src) and not any(s.nullish(("self", n)) or s.facts.get(("t", ("self", n))) is False for n in names):
                            rep.fail(rule, f"{c.name}:{p}", f"{g.qual} does not report the {m} of {p}", g.loc())
                for e, facts_, _ in it.log:
                    if val and e.name == m and e.recv is not None and not (e.recv.path == ("self",)) and opts and e.fi is not None:
                        b = list(e.m.values())
                        if not b:
                            rep.fail(rule, f"{c.name}:option", f"{g.qual} does not pass on {opts[0]} to the inputs", g.loc())

        # -- exchanging the inputs -------------------------------------------------------------------------------------
        rule = "exchanged-inputs"
        up = next((f for k in c.mro() for f in [k.find("_update_child_nodes")] if f is not None), None)
        if up is not None and up.cls is c and inputs:
            q = up.all_params()[1].arg
            it = ctx.interp()
            rep.ok(rule, c.name)
            facts = {("t", ("self", f)): True for p in inputs for f in content[p]["fields"]}
            for k, v, s in it.run(up, {"self": it.self_value(c)}, facts):
                if k != "return":
                    continue
                for i, p in enumerate(inputs):
                    got = [it.mat(a, s) for (o, n), a in s.attrs.items() if o == ("self",) and n in content[p]["fields"]]
                    src = {x for a in got for x in a.src}
                    if not any(x[:1] == (q,) for x in src):
                        rep.fail(rule, f"{c.name}:{p}", f"{up.qual} does not exchange the input {p}", up.loc())
                    elif any(x[:2] == (q, str(j)) for x in src for j in range(4) if j != i) and (q, str(i)) not in src:
                        rep.fail(rule, f"{c.name}:{p}", f"{up.qual} exchanges the input {p} with the wrong node", up.loc())

        # -- modified copies -------------------------------------------------------------------------------------------
        rule = "modified-copies"
        g = c.find("mutate")
        fields = ctx.final_fields(c)
        for a in g.all_params()[1:]:
            p = a.arg
            if p not in content or p in ("parent_node", "parent"):
                continue
            rep.ok(rule, f"{c.name}:{p}")
            stored = content[p]["fields"]
            same = [f for f in stored if fields[f].path == (p,)]
            node = init.node
            direct = [n for n in ast.walk(node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                      for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute) and norm(t.attr) in stored]
            plain = any(isinstance(n.value, ast.Name) and n.value.id == p and norm(t.attr) == p for n in direct
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))
            if plain or p in inputs:
                continue
            # the constructor converts the parameter: so does the modification
            def converts(h: FuncInfo, name: str, depth=0) -> bool:
                for n in ast.walk(h.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and not isinstance(n.value, ast.DictComp) and any(
                            isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)) and any(isinstance(x, ast.Call) for x in ast.walk(n.value)):
                        return True
                    if isinstance(n, ast.Call) and any(isinstance(x, ast.Name) and x.id == name for y in [*n.args, *[k.value for k in n.keywords]]
                                                       for z in [y] if isinstance(z, ast.Call) for x in ast.walk(z)):
                        return True
                return False
            if not converts(g, p):
                rep.fail(rule, f"{c.name}:{p}", f"{g.qual} stores {p} as it is or ignores it, the constructor converts it", g.loc())
        for p in content:
            if p not in ("parent_node", "parent") and p not in [a.arg for a in g.all_params()] and g.node.args.kwarg is None:
                rep.fail(rule, f"{c.name}:{p}:missing", f"{g.qual} cannot change {p}", g.loc())
    rep.require("inputs", 12)
    rep.require("modified-copies", 20)

    # -- hash values are recomputed bottom-up --------------------------------------------------------------------------
    rule = "hash-order"
    methods = [f for f in prog.functions if f.cls is not None and is_node(f.cls) and f.name != "__init__"]

    def steps(f: FuncInfo, name: str, seen=()) -> list[tuple[int, str]]:
        """Writes of hash values and recursive calls of *name* in *f*, including those in its own helpers (at the position of their call)."""
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and "hash" in t.attr for t in n.targets):
                out.append((n.lineno, "write"))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) != "super()":
                own = isinstance(n.func.value, ast.Name) and n.func.value.id == "self"
                if n.func.attr == name and not own:
                    out.append((n.lineno, "recursion"))
                elif own and n.func.attr not in seen:
                    for h in [h for h in methods if h.name == n.func.attr]:
                        out += [(n.lineno, k) for _, k in steps(h, name, (*seen, n.func.attr))]
        return out

    for f in methods:
        st = steps(f, f.name, (f.name,))
        writes, rec = [l for l, k in st if k == "write"], [l for l, k in st if k == "recursion"]
        if not writes or not rec:
            continue
        rep.ok(rule, f.qual)
        if min(writes) < max(rec):
            rep.fail(rule, f.name, f"{f.qual} computes the hash value of a node before those of its inputs", f.loc())

    # -- the copy of the tree ------------------------------------------------------------------------------------------
    rule = "copied-trees"
    named = {f.name: f for f in methods}

    def own_calls(f: FuncInfo) -> set[str]:
        return {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}

    def links(f: FuncInfo, seen=()) -> bool:
        """Whether *f* registers the node at its inputs."""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append") and any(
                    isinstance(a, ast.Name) and a.id == "self" for a in n.args):
                return True
        return any(a not in seen and a != f.name and a in named and a.startswith("_") and not a.startswith("__") and links(named[a], (*seen, f.name)) for a in own_calls(f))

    hashing = {f.name for f in methods if any(k == "write" for _, k in steps(f, f.name, (f.name,))) and any(k == "recursion" for _, k in steps(f, f.name, (f.name,)))}
    linking = {f.name for f in methods if f.name.startswith("_") and not f.name.startswith("__") and links(f)}
    copied = lambda v: v is not None and (any(x in ("clone()", "copy()", "deepcopy()") for q in v.src for x in q) or bool(v.calls & {"clone", "copy", "deepcopy"}))
    inner = {n.id for f in methods for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    for c in [c for c in prog.classes if c.module.name == RM and not is_node(c) and c.name in inner]:
        own = [f for f in c.methods.values() if f.name != "__init__"]
        if not any(isinstance(n, ast.Name) and n.id == "setattr" for f in own for n in ast.walk(f.node)):
            continue
        for g in [f for f in own if not f.name.startswith("_")]:
            kw = g.node.args.kwarg.arg if g.node.args.kwarg is not None else None
            it = ctx.interp(cap=40)
            ends = [(v, s) for k, v, s in it.run(g, {"self": it.self_value(c)}, {}) if k == "return"]
            rep.ok(rule, g.qual)
            stores = [(e, facts) for e, facts, _ in it.log if e.name == "@setattr"]
            if kw is None or not ends or not stores:
                continue
            # options are applied to the copy of the node that is modified, whatever their value is (except for None)
            good = [(e, f) for e, f in stores if not any(k[:1] == ("t",) and k[1] == (kw, "*") and x is True for k, x in f.items())]
            if not good:
                rep.fail(rule, "options:value", f"{g.qual} applies options of modified copies only if they are truthy", g.loc())
            for e, f in stores:
                v = e.m.get(1)
                if not copied(e.recv):
                    rep.fail(rule, "options:target", f"{e.func.qual} modifies a node of the original tree", e.func.loc())
                ids = [k for k, x in f.items() if k[0] == "cmp" and k[1] in ("==", "is") and x is True
                       and any(q[:2] == ("self", "initiator") and len(q) == 2 for side in k[2:4] for q in side) and "type" not in k[4]]
                if "initiator" in [a.arg for a in c.find("__init__").all_params()] and not ids:
                    rep.fail(rule, "options:initiator", f"{e.func.qual} is not restricted to the node that is modified", e.func.loc())
                ts = f.get(("T", (kw, "*")))
                if ts and all(t.startswith(RM) for t in ts) and not copied(v) and all(q[:2] == (kw, "*") for q in v.src):
                    rep.fail(rule, "options:input", f"{e.func.qual} moves an input to the copy without copying it", e.func.loc())
            # all inputs are exchanged on copies
            for e, _, _ in it.log:
                if e.name == "_update_child_nodes" and not copied(e.recv):
                    rep.fail(rule, "exchange:target", f"{e.func.qual} exchanges the inputs of a node of the original tree", e.func.loc())
                if e.name == "_update_child_nodes" and any(
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("reversed", "sorted", "set", "frozenset") for n in ast.walk(e.node)):
                    rep.fail(rule, "exchange:order", f"{e.func.qual} exchanges the inputs in a different order", e.func.loc())
            # hash values are computed again before the nodes are registered
            for v, s in ends:
                h = [i for i, e in enumerate(s.events) if e.name in hashing and copied(e.recv)]
                l = [i for i, e in enumerate(s.events) if e.name in linking and copied(e.recv)]
                if hashing and not h:
                    rep.fail(rule, "hash", f"{g.qual} does not compute the hash values of the copy again", g.loc())
                elif linking and not l:
                    rep.fail(rule, "links", f"{g.qual} does not register the nodes of the copy with each other", g.loc())
                elif h and l and min(h) > min(i for i in l):
                    rep.fail(rule, "hash-before-links", f"{g.qual} registers the nodes of the copy before their hash values are computed", g.loc())

    # -- clones do not share their state -------------------------------------------------------------------------------
    rule = "clones"
    for f in [f for f in methods if f.name == "clone"]:
        rep.ok(rule, f.qual)
        init = base.find("__init__")
        state = {norm(t.attr) for n in ast.walk(init.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                 and (isinstance(n.value, (ast.List, ast.Dict, ast.Set)) or isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("set", "list", "dict"))
                 for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute)}
        deep = any(isinstance(n, ast.Attribute) and n.attr == "deepcopy" for n in ast.walk(f.node))
        it = ctx.interp()
        for k, v, s in it.run(f, {"self": it.self_value(f.cls)}, {}):
            if k == "return" and not deep and any(e.name.split(".")[-1] == "copy" for e in s.events):
                for a in sorted(state):
                    new = [x for (o, n), x in s.attrs.items() if n == a and o != ("self",)]
                    if not new or any(x.path is not None and x.path[:1] == ("self",) and len(x.path) == 2 for x in new):
                        rep.fail(rule, a, f"{f.qual} shares {a} with the original node", f.loc())
