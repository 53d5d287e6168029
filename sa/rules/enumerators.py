"""O01: candidates of plan enumerators."""
from __future__ import annotations

from .flow import *
from .optim import Reach, calls_in

SCANS = ("SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan")
JOINS = ("NestedLoopJoin", "HashJoin", "SortMergeJoin")
WRAPPERS = ("Memoize", "Materialize", "Sort")
# Postgres setting -> operator, see the documentation of the planner configuration
SETTINGS = {"enable_seqscan": "SequentialScan", "enable_indexscan": "IndexScan", "enable_indexonlyscan": "IndexOnlyScan", "enable_bitmapscan": "BitmapScan",
            "enable_nestloop": "NestedLoopJoin", "enable_hashjoin": "HashJoin", "enable_mergejoin": "SortMergeJoin",
            "enable_material": "materialize", "enable_memoize": "memoize", "enable_sort": "sort"}
ALL_OPS = set(SCANS) | set(JOINS)


def check_O01(ctx: Ctx):
    prog = ctx.prog
    n = 0
    for cls in prog.concrete_subclasses(prog.cls("PlanEnumerator")):
        f = cls.find("generate_execution_plan")
        if f is None or f.abstract or f.cls is None:
            continue
        if operators(ctx, cls, f):
            n += 1
            candidates(ctx, cls)
            configured(ctx, cls)
    if n < 2:
        raise AnalysisError("no plan enumerators found that decide on operators")
    for name in ("ExhaustiveOperatorEnumerator", "RandomOperatorGenerator"):
        cls = next((c for c in prog.classes if c.name == name), None)
        if cls is not None:
            generator(ctx, cls)
    for f in prog.functions:
        settings(ctx, f)
        cheapest(ctx, f)
    ctx.rep.require("enabled", 15)
    ctx.rep.require("considered", 10)
    ctx.rep.require("own estimate", 12)
    ctx.rep.require("settings", 8)
    ctx.rep.require("allowed", 4)


# -- enabled operators ---------------------------------------------------------------------------------------------------------
def operators(ctx: Ctx, cls: ClassInfo, f: FuncInfo) -> bool:
    """Run the enumeration with each operator switched off."""
    rep, decided = ctx.rep, False
    # questions about the same things have the same answers
    tests = {m.name for c in cls.mro() for m in c.methods.values() if isinstance(m.node.returns, ast.Name) and m.node.returns.id == "bool"}
    hits: dict[str, set] = {}

    def run(off):
        def member(it, el, cont, st):
            if el.shape is None or el.shape[0] != "enum" or el.shape[2] not in ALL_OPS:
                return None
            own = {norm(p[1]) for p in cont.src if len(p) >= 2 and p[0] == "self"}
            if not own:
                return None
            hits.setdefault(el.shape[2], set()).update(own)
            return el.shape[2] != off
        facts = {}
        for a in attributes(cls):
            low = a.lower()
            for w in WRAPPERS:
                if w.lower() in low or w.lower().removesuffix("ize") == low.split("_")[-1]:
                    facts[("t", ("self", a))] = w != off
                    facts[("t", ("self", norm(a)))] = w != off
                    hits.setdefault(w, set()).add(norm(a))
        keep: list[V] = []

        def asked(it, name, recv, args, kwargs, st):
            if name not in tests or recv is None or recv.path != ("self",) or kwargs:
                return None
            keep.extend(args)
            t = (f"?{name}",) + tuple(".".join(x.path) if x.path is not None else str(id(x)) for x in args)
            return [(pathv(("self", "|".join(t)), Ty(frozenset({"bool"}))), st)]

        def inline(it, g, recv):
            return recv is not None and recv.path == ("self",) and g.name not in tests
        r = Run(ctx, f, cls, inline=inline, results=asked, member=member, facts=facts, cap=2, arg_cap=2, call_cap=2, max_steps=400000)
        got: dict[str, str] = {}
        for e, _, _ in r.it.log:
            if e.cls is not None and e.cls.name == "QueryPlan":
                for p in ("operator", "node_type"):
                    v = arg(e, p)
                    if v is not None and v.shape is not None and v.shape[0] == "enum":
                        got.setdefault(v.shape[2], f"{e.func.qual}|{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}")
        return r, got
    base, every = run(None)
    if not base.ok:
        ctx.rep.skip("enabled", cls.name)
        return False
    if not hits or not set(every) & ALL_OPS:
        return False
    for op in sorted(ALL_OPS):
        rep.ok("considered", f"{cls.name}:{op}")
        if op not in every:
            rep.fail("considered", f"{cls.name}:{op}", f"{f.qual} never generates candidates for {op}, even if it is enabled", f.loc())
    for op in sorted(ALL_OPS | (set(WRAPPERS) & set(every))):
        if op not in every or (op in WRAPPERS and op not in hits):
            continue
        r, got = run(op)
        if not r.ok:
            ctx.rep.skip("enabled", f"{cls.name}:{op}")
            continue
        decided = True
        rep.ok("enabled", f"{cls.name}:{op}")
        if op in got:
            where, loc = got[op].split("|")
            rep.fail("enabled", f"{cls.name}:{op}", f"{where} generates candidates for {op}, even though it is not enabled", loc)
        for other in sorted((set(every) & (ALL_OPS | set(WRAPPERS))) - set(got) - {op}):
            if other == "Sort" and op == "SortMergeJoin" or op == "Sort":
                continue
            if other in ("Memoize", "Materialize") and op == "NestedLoopJoin":
                continue
            rep.fail("enabled", f"{cls.name}:{op}->{other}", f"{f.qual} generates no candidates for {other} if {op} is not enabled", f.loc())
    return decided


def attributes(cls: ClassInfo) -> set[str]:
    out: set[str] = set()
    for c in cls.mro():
        init = c.methods.get("__init__")
        if init is None:
            continue
        for n in ast.walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


def configured(ctx: Ctx, cls: ClassInfo):
    """The operator sets come from the arguments of the constructor, restricted to the operators that the database supports."""
    init = cls.find("__init__")
    if init is None:
        return
    names = {a.arg for a in init.all_params()}
    run = Run(ctx, init, cls)
    for p, other in (("supported_scan_ops", "supported_join_ops"), ("supported_join_ops", "supported_scan_ops")):
        if p not in names:
            continue
        key = f"{cls.name}.__init__:{p}"
        ctx.rep.ok("allowed", key)
        found = False
        for o in run.returns:
            if o.s.facts.get(("n", (p,))) is True:
                continue
            for (root, a), v in o.s.attrs.items():
                roots = {q[0] for q in o.it.mat(v, o.s).src}
                if root == ("self",) and p in roots:
                    found = True
                    if other in roots:
                        ctx.rep.fail("allowed", f"{key}:mixed", f"{init.qual} mixes up scan and join operators", init.loc())
        if not found:
            ctx.rep.fail("allowed", key, f"{init.qual} does not use the operators given as {p}", init.loc())


# -- estimates -------------------------------------------------------------------------------------------------------------------
class Probe:
    """Remember for which plan and which tables an estimate was requested."""

    def __init__(self, ctx: Ctx, f: FuncInfo):
        self.ctx, self.f = ctx, f
        self.made: dict[tuple, dict] = {}

    def hook(self, it, name, recv, args, kwargs, st):
        if name in ("estimate_cost", "calculate_estimate"):
            q = args[0] if args else kwargs.get("query")
            x = args[1] if len(args) > 1 else kwargs.get("plan") or kwargs.get("intermediate") or kwargs.get("tables")
            p = (f"#{name}{len(self.made)}",)
            self.made[p] = dict(kind=name, query=q, of=x, recv=recv, frame=it.stack[-1])
            return [(V(src=frozenset({p}), must=frozenset({p}), whole=frozenset({p}), path=p), st)]
        if name == "with_estimates" and recv is not None:
            self.stored(it, recv, kwargs, st)
        return None

    def requests(self, v: Optional[V]):
        return [self.made[p[:1]] for p in (v.src if v is not None else ()) if p[:1] in self.made]

    def stored(self, it, recv, kwargs, st):
        fn = it.stack[-1]
        where = f"{fn.module.rel}:{fn.node.lineno}"
        for param, kind, what in (("cost", "estimate_cost", "cost"), ("cardinality", "calculate_estimate", "cardinality")):
            v = kwargs.get(param)
            if v is None:
                continue
            rq = self.requests(v)
            if v.path is None or v.path[:1] not in self.made:
                continue
            r = self.made[v.path[:1]]
            key = f"{fn.qual}:{what}"
            self.ctx.rep.ok("own estimate", key)
            if r["kind"] != kind:
                self.ctx.rep.fail("own estimate", f"{key}:kind", f"{fn.qual} stores the result of {r['kind']}() as {what}", where)
                continue
            x = r["of"]
            if x is None:
                continue
            if kind == "estimate_cost" and not same(it, x, recv, st):
                self.ctx.rep.fail("own estimate", f"{key}:plan", f"{fn.qual} stores the cost of a different plan", where)
            if kind == "calculate_estimate" and not (tables_of(x, recv) or heads(it, x, st) & heads(it, recv, st)):
                self.ctx.rep.fail("own estimate", f"{key}:tables", f"{fn.qual} stores the cardinality of a different intermediate", where)


def same(it, a: V, b: V, st) -> bool:
    if a is b or (a.path is not None and a.path == b.path):
        return True
    if a.path is not None and b.path is not None and a.path[0][:1] == "@" and b.path[0][:1] == "@":
        return False
    return False


def tables_of(x: V, plan: V) -> bool:
    return x.path is not None and plan.path is not None and x.path[: len(plan.path)] == plan.path


def heads(it, v: V, st) -> set[tuple]:
    return {p[:2] for p in it.mat(v, st).src}


def candidates(ctx: Ctx, cls: ClassInfo):
    """Every candidate is priced by its own estimates."""
    rep, prog = ctx.rep, ctx.prog
    entry = cls.find("generate_execution_plan")
    mod = entry.module
    fns = [m for m in cls.methods.values() if m.module is mod] + [f for f in prog.functions if f.module is mod and f.cls is None and f.outer is None]
    reach = Reach(prog)
    estimated = set()
    for f in fns:
        for n in calls_in(f):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "with_estimates" and any(k.arg == "cardinality" for k in n.keywords):
                estimated.add(f.qual)
    later = bool(estimated) and any("with_estimates" in reach(f, cls) for f in fns if f.name == "generate_execution_plan")
    for f in fns:
        own = reach(f, cls) if f.cls is not None else reach(f, None)
        if not own & {"estimate_cost", "calculate_estimate"} or f.kind == "property":
            continue
        if f is entry or len(f.all_params()) == 1 and f.cls is not None and "estimate_cost" not in {n.func.attr for n in calls_in(f) if isinstance(n.func, ast.Attribute)}:
            continue
        probe = Probe(ctx, f)

        def hook(it, g, recv, mod=mod):
            if g.name in ("standard_add_path", "generate_execution_plan") or not g.name.startswith("_") and g.cls is not None:
                return False
            if g.module is mod and (g.cls is None or (recv is not None and recv.path == ("self",))):
                return True
            return None
        run = Run(ctx, f, cls if f.cls is not None else None, inline=hook, results=probe.hook, cap=4, arg_cap=3, call_cap=3, max_steps=200000)
        if not run.ok:
            rep.skip("own estimate", f.qual)
            continue
        judged(ctx, cls, f, run, probe, later)


def judged(ctx: Ctx, cls: ClassInfo, f: FuncInfo, run: Run, probe: Probe, later: bool):
    rep = ctx.rep
    for r in probe.made.values():
        fn = r["frame"]
        key = f"{fn.qual}:{r['kind']}"
        where = f"{fn.module.rel}:{fn.node.lineno}"
        rep.ok("request", key)
        role = "cost_model" if r["kind"] == "estimate_cost" else "cardinality_estimator"
        other = "cardinality_estimator" if role == "cost_model" else "cost_model"
        if r["recv"] is not None and any(norm(x) == other for p in r["recv"].src for x in p):
            rep.fail("request", f"{key}:model", f"{fn.qual} asks the {other} for a {r['kind']}", where)
        q, x = r["query"], r["of"]
        if q is not None and x is not None:
            if not any("query" in s or "fragment" in s for s in steps_of(q) | q.calls) and any("query" in s for s in steps_of(x)):
                rep.fail("request", f"{key}:arguments", f"{fn.qual} mixes up the arguments of {r['kind']}()", where)
    for e, facts, _ in run.it.log:
        where = f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}"
        if e.cls is not None and e.cls.name == "QueryPlan":
            card, cost = arg(e, "estimated_cardinality"), arg(e, "estimated_cost")
            op = arg(e, "operator") or arg(e, "node_type")
            kind = op.shape[2] if op is not None and op.shape is not None and op.shape[0] == "enum" else None
            if kind is None:
                continue
            key = f"{e.func.qual}:{kind}"
            rep.ok("own estimate", f"{key}:cardinality")
            if card is None and not later and not is_const(arg(e, "node_type") or const(0), "Gather"):
                rep.fail("own estimate", f"{key}:no cardinality", f"{e.func.qual} generates {kind} candidates without a cardinality", where)
            for v, bad, what in ((card, "estimate_cost", "cardinality"), (cost, "calculate_estimate", "cost")):
                rq = probe.requests(v) if v is not None and v.path is not None else []
                if rq and all(r["kind"] == bad for r in rq):
                    rep.fail("own estimate", f"{key}:{what} kind", f"{e.func.qual} uses the result of {bad}() as the {what} of a {kind} candidate", where)
            if card is not None and kind in SCANS:
                base = arg(e, "base_table")
                if base is not None and not probe.requests(card) and base.src and card.src and not {p[:1] for p in base.src if p[0] != "self"} & {p[:1] for p in card.src}:
                    if {p[:1] for p in base.src if p[0] != "self"}:
                        rep.fail("own estimate", f"{key}:table", f"{e.func.qual} uses the cardinality of another relation for its {kind} candidates", where)
            ch = arg(e, "children")
            cs = ch.shape[1] if ch is not None and ch.shape is not None and ch.shape[0] == "seq" else []
            if kind in JOINS and len(cs) == 2:
                for c in cs:
                    if card is not None and card.path is not None and c.path is not None and card.path[: len(c.path)] == c.path:
                        rep.fail("own estimate", f"{key}:child cardinality", f"{e.func.qual} uses the cardinality of an input for its {kind} candidates", where)
                if cs[0].path is not None and cs[0].path == cs[1].path:
                    rep.fail("own estimate", f"{key}:same input", f"{e.func.qual} joins a plan with itself", where)
                outer = cs[0].shape
                if outer is not None and outer[0] == "ctor":
                    o = outer[2].get("operator") or outer[2].get("node_type")
                    if o is not None and o.shape is not None and o.shape[0] == "enum" and o.shape[2] in ("Memoize", "Materialize"):
                        rep.fail("own estimate", f"{key}:outer {o.shape[2]}", f"{e.func.qual} uses a {o.shape[2]} node as the outer input of a join", where)
            if kind in WRAPPERS and card is not None and ch is not None and ch.src and card.src:
                if not {p[:1] for p in card.src} & {p[:1] for p in ch.src}:
                    rep.fail("own estimate", f"{key}:input", f"{e.func.qual} uses the cardinality of another plan for its {kind} candidates", where)
        if e.cls is not None and e.cls.name == "RelOptInfo":
            inter, card = arg(e, "intermediate"), arg(e, "cardinality")
            rq = [r for r in probe.requests(card) if r["kind"] == "calculate_estimate"]
            if inter is None or card is None:
                continue
            key = f"{e.func.qual}:relation"
            rep.ok("own estimate", key)
            if not rq:
                if probe.requests(card):
                    rep.fail("own estimate", f"{key}:kind", f"{e.func.qual} uses a cost as the cardinality of a relation", where)
                continue
            for r in rq:
                if r["of"] is not None and r["of"].src and inter.src and not (r["of"].path == inter.path and inter.path is not None) and not inter.src & r["of"].src:
                    rep.fail("own estimate", f"{key}:tables", f"{e.func.qual} uses the cardinality of a different intermediate", where)
        if e.name == "standard_add_path":
            rel, path = arg(e, "rel"), arg(e, "path")
            if path is None or path.path is not None and path.path[0][:1] != "@" or not path.src:
                continue
            made = "QueryPlan" in path.calls
            partial = arg(e, "is_partial")
            if partial is not None and is_const(partial, True) and {"outer_rel", "inner_rel"} <= {p.arg for p in f.all_params()}:
                rep.ok("partial", f.qual)
                if not any("partial" in x for x in steps_of(path)):
                    rep.fail("partial", f.qual, f"{f.qual} treats a plan as a partial path, although its outer input is not", where)
            if not made:
                continue
            rep.ok("priced", f"{f.qual}")
            if not any(r["kind"] == "estimate_cost" for r in probe.requests(path)) and "estimated_cost" not in steps_of(path):
                rep.fail("priced", f"{f.qual}", f"{f.qual} adds a candidate that has not been priced by the cost model", f.loc())


# -- settings ------------------------------------------------------------------------------------------------------------------
def settings(ctx: Ctx, f: FuncInfo):
    """Translation of the configuration of a Postgres server."""
    if f.module.rel.split("/")[-1] not in ("dynprog.py",) and not (f.cls is not None and f.name == "infer_settings"):
        return
    for n in ast.walk(f.node):
        units: list[tuple[ast.AST, list]] = []
        if isinstance(n, ast.If):
            units.append((n.test, n.body))
        elif isinstance(n, ast.IfExp):
            units.append((n.test, [n.body]))
        elif isinstance(n, ast.Assign):
            units.append((n.value, n.targets))
        elif isinstance(n, ast.Tuple) and len(n.elts) >= 2:
            units += [(n.elts[0], n.elts[1:]), (n.elts[-1], n.elts[:-1])]
        elif isinstance(n, ast.Dict):
            units += [(k, [v]) for k, v in zip(n.keys, n.values) if k is not None] + [(v, [k]) for k, v in zip(n.keys, n.values) if k is not None]
        for cond, body in units:
            keys = [c.value for c in ast.walk(cond) if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value in SETTINGS]
            if len(keys) != 1:
                continue
            want = SETTINGS[keys[0]]
            ops = {x.attr for b in body for x in ast.walk(b) if isinstance(x, ast.Attribute) and x.attr in ALL_OPS}
            flags = {w for b in body for x in ast.walk(b) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for w in ("materialize", "memoize", "sort") if w in x.attr.lower()}
            if not ops and not flags:
                continue
            key = f"{f.qual}:{keys[0]}"
            ctx.rep.ok("settings", key)
            if (ops or flags) != {want}:
                ctx.rep.fail("settings", key, f"{f.qual} applies the setting {keys[0]} to {', '.join(sorted(ops | flags))}", f"{f.module.rel}:{n.lineno}")
            for c in ast.walk(cond):
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value in ("on", "off"):
                    on = isinstance(c.ops[0], ast.Eq) == (c.comparators[0].value == "on")
                    neg = any(isinstance(u, ast.UnaryOp) and isinstance(u.op, ast.Not) and c in list(ast.walk(u)) for u in ast.walk(cond))
                    if isinstance(c.ops[0], (ast.Eq, ast.NotEq)) and on == neg:
                        ctx.rep.fail("settings", f"{key}:inverted", f"{f.qual} inverts the setting {keys[0]}", f"{f.module.rel}:{n.lineno}")


# -- selection -------------------------------------------------------------------------------------------------------------------
def cheapest(ctx: Ctx, f: FuncInfo):
    """Enumerators keep the plan with the smallest cost."""
    if f.cls is None or not any(c.name == "PlanEnumerator" for c in f.cls.mro()):
        return
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        if name not in ("min", "max", "sorted", "sort"):
            continue
        keys = [k.value for k in n.keywords if k.arg == "key"]
        attrs = {x.attr for k in keys for x in ast.walk(k) if isinstance(x, ast.Attribute) and x.attr.startswith("estimated_")}
        if not attrs:
            continue
        key = f"{f.qual}:{name}"
        ctx.rep.ok("cheapest", key)
        flipped = any(k.arg == "reverse" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords)
        if "estimated_cost" not in attrs:
            ctx.rep.fail("cheapest", key, f"{f.qual} compares candidates by {', '.join(sorted(attrs))} instead of their cost", f"{f.module.rel}:{n.lineno}")
        elif name == "max" or flipped:
            ctx.rep.fail("cheapest", key, f"{f.qual} prefers expensive candidates", f"{f.module.rel}:{n.lineno}")


# -- assignments of operators ----------------------------------------------------------------------------------------------------
def generator(ctx: Ctx, cls: ClassInfo):
    rep = ctx.rep
    families = {"ScanOperatorAssignment": ("scan", "allowed_scan_ops", "allowed_join_ops"), "JoinOperatorAssignment": ("join", "allowed_join_ops", "allowed_scan_ops")}
    flags = {"scan": "_include_scans", "join": "_include_joins"}
    init = cls.find("__init__")
    run = Run(ctx, init, cls)
    for p, own, other in (("scan_operators", "allowed_scan_ops", "allowed_join_ops"), ("join_operators", "allowed_join_ops", "allowed_scan_ops")):
        key = f"{cls.name}.__init__:{p}"
        rep.ok("allowed", key)
        for o in run.returns:
            if o.truth(p) is not True:
                continue
            v = o.attr(("self",), own)
            if v is None or p not in {q[0] for q in v.src}:
                rep.fail("allowed", key, f"{init.qual} does not restrict the operators to the given {p}", init.loc())
            elif "supports_hint" not in source(ctx, init, own):
                rep.fail("allowed", f"{key}:support", f"{init.qual} does not restrict the {p} to those that the database supports", init.loc())
    inc = {}
    for o in run.returns:
        for (root, a), v in o.s.attrs.items():
            if root == ("self",) and v.path in (("include_scans",), ("include_joins",)):
                inc[v.path[0]] = a
    for f in cls.methods.values():
        if f.name.startswith("_") or f.kind != "method":
            continue
        base = Run(ctx, f, cls)
        made = {n for n in families if base.constructed(n)}
        if not made or not base.ok:
            continue
        for n in families:
            key = f"{f.qual}:{n}"
            own, other = families[n][1:]
            for e, _ in base.constructed(n):
                rep.ok("allowed", key)
                v = arg(e, "operator")
                st = steps_of(v)
                if other in st and own not in st:
                    rep.fail("allowed", key, f"{f.qual} assigns operators from {other} in a {n}", f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}")
                elif v is not None and own not in st:
                    rep.fail("allowed", f"{key}:source", f"{f.qual} assigns operators that are not part of {own}", f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}")
            flag = inc.get("include_scans" if families[n][0] == "scan" else "include_joins")
            if flag is None:
                continue
            other_flag = inc.get("include_joins" if families[n][0] == "scan" else "include_scans")
            off = Run(ctx, f, cls, facts={("t", ("self", flag)): False, ("t", ("self", other_flag)): True})
            rep.ok("enabled", f"{key}:excluded")
            if off.ok and off.constructed(n):
                rep.fail("enabled", f"{key}:excluded", f"{f.qual} assigns operators in a {n} although this kind is excluded", f.loc())
            on = Run(ctx, f, cls, facts={("t", ("self", flag)): True, ("t", ("self", other_flag)): False})
            rep.ok("considered", f"{key}:included")
            if on.ok and not on.constructed(n):
                rep.fail("considered", f"{key}:included", f"{f.qual} does not create any {n} although this kind is included", f.loc())
            both = Run(ctx, f, cls, facts={("t", ("self", flag)): True, ("t", ("self", other_flag)): True})
            if both.ok and not both.constructed(n):
                rep.fail("considered", f"{key}:both", f"{f.qual} does not create any {n} although both kinds are included", f.loc())


def source(ctx: Ctx, f: FuncInfo, attr: str) -> set[str]:
    """Operations mentioned by a function and the helpers of its class."""
    out = {n.func.attr for n in calls_in(f) if isinstance(n.func, ast.Attribute)}
    if f.cls is not None:
        out |= Reach(ctx.prog)(f, f.cls)
    return out
