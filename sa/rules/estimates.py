"""O03: estimates are stored for the intermediates that they have been computed for."""
from __future__ import annotations

from .flow import *
from .optim import calls_in

INVALID = {"isnan": False, "is_valid": True, "isinf": False}


class Asked:
    """Every request for an estimate gets a result of its own; estimates are valid numbers unless stated otherwise."""

    def __init__(self, valid: Optional[bool] = True, extra=None):
        self.made: dict[str, dict] = {}
        self.valid, self.extra = valid, extra or {}

    def hook(self, it, name, recv, args, kwargs, st):
        last = name.split(".")[-1]
        if last in self.extra:
            return [(const(self.extra[last]), st)]
        if last == "calculate_estimate":
            p = (f"#estimate{len(self.made)}",)
            vals = list(args) + [kwargs[k] for k in ("query", "intermediate", "tables") if k in kwargs]
            self.made[p[0]] = dict(query=vals[0] if vals else None, of=vals[1] if len(vals) > 1 else None, recv=recv, frame=it.stack[-1])
            return [(V(src=frozenset({p}), must=frozenset({p}), whole=frozenset({p}), path=p), st)]
        if last in INVALID and self.valid is not None:
            return [(const(INVALID[last] if self.valid else not INVALID[last]), st)]
        return None

    def of(self, v: Optional[V]) -> list[dict]:
        return [self.made[p[0]] for p in (v.src if v is not None else ()) if p[0] in self.made]


def unwrapped(v: Optional[V]) -> frozenset:
    return v.src if v is not None else frozenset()


def check_O03(ctx: Ctx):
    prog = ctx.prog
    est = prog.cls("CardinalityEstimator")
    done = set()
    for c in [est] + prog.concrete_subclasses(est):
        for f in c.methods.values():
            if f.qual in done:
                continue
            done.add(f.qual)
            names = {n.func.attr for n in calls_in(f) if isinstance(n.func, ast.Attribute)}
            if f.name in ("estimate_cardinalities", "generate_plan_parameters"):
                collected(ctx, c, f)
            if f.name == "generate_intermediates":
                intermediates(ctx, c, f)
            if f.name == "calculate_estimate" and not f.abstract:
                computed(ctx, c, f)
    for c in prog.classes:
        native(ctx, c)
        base_tables(ctx, c)
    ctx.rep.require("pairs", 4)
    ctx.rep.require("covered", 3)
    ctx.rep.require("fragment", 4)
    ctx.rep.require("native", 4)


# -- collecting estimates ---------------------------------------------------------------------------------------------------------
def collected(ctx: Ctx, c: ClassInfo, f: FuncInfo):
    rep = ctx.rep
    query = [a.arg for a in f.all_params()][1]
    params = {a.arg for a in f.all_params()}
    variants = [("", {})]
    if "join_order" in params:
        variants = [("join order", {("n", ("join_order",)): False, ("t", ("join_order",)): True}), ("no join order", {("n", ("join_order",)): True, ("t", ("join_order",)): False})]

    def inline(it, g, recv):
        if g.name in ("calculate_estimate", "generate_intermediates", "iternodes", "add_cardinality"):
            return False
        return recv is not None and recv.path == ("self",)
    for label, facts in variants:
        asked = Asked()
        run = Run(ctx, f, c, facts=facts, inline=inline, results=asked.hook, iterations=True)
        key = f"{f.qual}:{label}" if label else f.qual
        if not run.ok:
            rep.skip("pairs", key)
            continue
        added = 0
        for e, _, _ in run.it.log:
            if e.name == "add_cardinality":
                t, v = (e.args + [None, None])[:2]
                t, v = e.kwargs.get("tables", t), e.kwargs.get("cardinality", v)
            elif e.name == "@setitem" and e.recv is not None and any("cardinalities" in p for p in e.recv.src):
                t, v = (e.args + [None, None])[:2]
            else:
                continue
            rq = asked.of(v)
            if not rq:
                continue
            added += 1
            rep.ok("pairs", key)
            for r in rq:
                if r["query"] is None or not {p[:1] for p in unwrapped(r["query"])} & {(query,)}:
                    rep.fail("pairs", f"{key}:query", f"{f.qual} estimates the cardinalities of a different query", f.loc())
                a, b = {plainpath(p) for p in unwrapped(r["of"])}, {plainpath(p) for p in unwrapped(t)}
                if a and b and a != b:
                    rep.fail("pairs", f"{key}:tables", f"{f.qual} stores an estimate for a different intermediate", f.loc())
        rep.ok("covered", key)
        if not added:
            rep.fail("covered", key, f"{f.qual} does not store any estimates", f.loc())
            continue
        for n, it, elem, before, ends, g in run.it.iterations:
            src = {p for p in elem.src if len(p) > 1 and ("generate_intermediates()" in p or any(x.startswith("iternodes") for x in p))} or \
                ({"x"} if elem.calls & {"generate_intermediates", "iternodes"} else set())
            if not src:
                continue
            old = {id(x) for x in before.events}
            for k, v, s2 in ends:
                if k == "raise":
                    continue
                new = [x for x in s2.events if id(x) not in old]
                if k in ("break", "return"):
                    rep.fail("covered", f"{key}:all", f"{f.qual} stops before all intermediates have been estimated", f"{f.module.rel}:{n.lineno}")
                elif not any(x.name in ("add_cardinality", "@setitem") for x in new):
                    rep.fail("covered", f"{key}:each", f"{f.qual} does not store the estimates of all intermediates", f"{f.module.rel}:{n.lineno}")
        sources = {x.rstrip("()") for _, it, *_ in run.it.iterations for p in it.src for x in p} | {x for _, it, *_ in run.it.iterations for x in it.calls}
        want = "iternodes" if label == "join order" else "generate_intermediates"
        other = "generate_intermediates" if label == "join order" else "iternodes"
        if want not in sources and other in sources:
            rep.fail("covered", f"{key}:source", f"{f.qual} uses {other}() to determine the relevant intermediates", f.loc())
        elif want not in sources and sources & {"iterjoins", "iterscans", "tables", "itertables"}:
            rep.fail("covered", f"{key}:source", f"{f.qual} does not use {want}() to determine the relevant intermediates", f.loc())
        # unknown estimates may be left out
        never = Asked(valid=False)
        run = Run(ctx, f, c, facts=facts, inline=inline, results=never.hook, iterations=True)
        rep.ok("covered", f"{key}:unknown")
        if any(k in ("break", "return") for *_, ends, _ in run.it.iterations for k, *_ in ends):
            rep.fail("covered", f"{key}:unknown", f"{f.qual} stops at the first unknown estimate", f.loc())
        if run.ok and any(e.name == "add_cardinality" and never.of((e.args + [None, None])[1]) for e, _, _ in run.it.log) and \
                not any(e.name == "add_cardinality" for e, _, _ in Run(ctx, f, c, facts=facts, inline=inline, results=Asked().hook).it.log):
            rep.fail("covered", f"{key}:inverted", f"{f.qual} only stores unknown estimates", f.loc())


def plainpath(p: tuple) -> tuple:
    return tuple(x.rstrip("'") for x in p)


def intermediates(ctx: Ctx, c: ClassInfo, f: FuncInfo):
    rep = ctx.rep
    query = [a.arg for a in f.all_params()][1]
    cross = "allow_cross_products"
    cases = [(f"{k} of {n}", n, *rest) for n in (1, 2, 3) for k, *rest in (("joined", True, False, True), ("cross product", False, True, True), ("excluded cross product", False, False, False))
             if not (n == 1 and k == "excluded cross product")]
    for label, size, joined, allowed, want in cases:
        asked = Asked(extra={"joins_tables": joined, "len": size})
        run = Run(ctx, f, c, facts={("t", ("self", cross)): allowed}, results=asked.hook, iterations=True)
        key = f"{f.qual}:{label}"
        if not run.ok:
            rep.skip("intermediates", key)
            continue
        rep.ok("intermediates", key)
        seen = got = False
        for n, it, elem, before, ends, g in run.it.iterations:
            if not any(p[0] == query for p in elem.src):
                continue
            seen = True
            for k, v, s2 in ends:
                if k in ("break", "return"):
                    rep.fail("intermediates", f"{f.qual}:all", f"{f.qual} stops before all intermediates have been generated", f"{f.module.rel}:{n.lineno}")
                    continue
                y = s2.env.get("@yield")
                content = run.it.mat(y, s2) if y is not None else None
                got = got or (k != "raise" and content is not None and bool(content.src & elem.src))
        if not seen:
            got = any(o.v is not None and any(p[0] == query for p in o.v.src) for o in run.returns)
        if want and not got:
            rep.fail("intermediates", key, f"{f.qual} does not generate some intermediates ({label})", f.loc())
        if not want and got and seen:
            rep.fail("intermediates", key, f"{f.qual} generates cross products, even though they are not allowed", f.loc())
        if not any("powerset" in e.name or "combinations" in e.name for e, _, _ in run.it.log):
            rep.skip("intermediates", f"{key}:subsets")
        for e, _, _ in run.it.log:
            if e.name.split(".")[-1] == "powerset" and e.args and not any(p[0] == query and "tables()" in p for p in e.args[0].src):
                rep.fail("intermediates", f"{f.qual}:powerset", f"{f.qual} does not combine all tables of the query", f.loc())


# -- computing estimates -----------------------------------------------------------------------------------------------------------
def computed(ctx: Ctx, c: ClassInfo, f: FuncInfo):
    rep = ctx.rep
    ps = [a.arg for a in f.all_params()]
    if len(ps) < 3:
        return
    query, tables = ps[1], ps[2]
    asked = Asked(valid=True)
    run = Run(ctx, f, c, inline=lambda it, g, recv: recv is not None and recv.path == ("self",) and g.name != "calculate_estimate", results=asked.hook)
    if not run.ok:
        rep.skip("fragment", f.qual)
        return
    for r in asked.made.values():
        key = f"{f.qual}:delegate"
        rep.ok("fragment", key)
        if {p[0] for p in unwrapped(r["query"])} & {query, tables} != {query}:
            rep.fail("fragment", f"{key}:query", f"{f.qual} does not pass its query on to the actual estimator", f.loc())
        if {p[0] for p in unwrapped(r["of"])} & {query, tables} != {tables}:
            rep.fail("fragment", f"{key}:tables", f"{f.qual} does not pass its intermediate on to the actual estimator", f.loc())
        if r["recv"] is not None and r["recv"].path == ("self",):
            rep.fail("fragment", f"{key}:self", f"{f.qual} calls itself", f.loc())
    if asked.made:
        for o in run.returns:
            if o.v is not None and not asked.of(o.v):
                rep.fail("fragment", f"{f.qual}:result", f"{f.qual} does not use the result of the actual estimator", f.loc())
    stored = []
    for e, facts, _ in run.it.log:
        last = e.name.split(".")[-1]
        where = f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}"
        if last == "extract_query_fragment" and len(e.args) >= 2:
            key = f"{f.qual}:fragment"
            rep.ok("fragment", key)
            a, b = e.m.get(0, e.args[0]), e.m.get(1, e.args[1])
            if query not in {p[0] for p in a.src} or tables not in {p[0] for p in b.src}:
                rep.fail("fragment", key, f"{f.qual} does not extract the fragment of the requested query for the requested intermediate", where)
        if last in ("execute_query", "cardinality_estimate") and e.args:
            key = f"{f.qual}:{last}"
            rep.ok("fragment", key)
            q = e.args[0]
            if "extract_query_fragment" not in {x.split(".")[-1] for x in q.calls}:
                rep.fail("fragment", key, f"{f.qual} calls {last}() for a query that is not the fragment of the requested intermediate", where)
            if last == "execute_query" and not any("count" in x for x in q.calls):
                rep.fail("fragment", f"{key}:count", f"{f.qual} does not count the rows of the intermediate", where)
            if last == "cardinality_estimate" and any("count" in x for x in q.calls):
                rep.fail("fragment", f"{key}:count", f"{f.qual} estimates the size of a counting query, which is always 1", where)
        if e.name in ("@setitem", "@getitem") and e.args and e.recv is not None and any(p[0] == "self" and len(p) > 1 and "cache" in p[1] for p in e.recv.src):
            stored.append((e, where))
    for e, where in stored:
        k = e.args[0]
        rep.ok("cache", f.qual)
        if not {query, tables} <= {p[0] for p in k.src}:
            rep.fail("cache", f.qual, f"{f.qual} does not distinguish the cached estimates of different intermediates", where)
    lookups(ctx, c, f, query, tables)


def lookups(ctx: Ctx, c: ClassInfo, f: FuncInfo, query: str, tables: str):
    """Estimates that are looked up in a table are selected for the label of the query and for the intermediate."""
    cmps = [n for n in ast.walk(f.node) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Subscript)]
    if not cmps or not any(isinstance(n, ast.Attribute) and n.attr == "label_of" for n in ast.walk(f.node)):
        return
    cols = {}
    for n in cmps:
        for x in ast.walk(n.left.slice):
            if isinstance(x, ast.Attribute):
                cols[norm(x.attr)] = n
    for want in ("label_col", "tables_col"):
        key = f"{f.qual}:{want}"
        ctx.rep.ok("fragment", key)
        if want not in cols:
            ctx.rep.fail("fragment", key, f"{f.qual} does not select the estimates by {want}", f.loc())
        elif not isinstance(cols[want].ops[0], ast.Eq):
            ctx.rep.fail("fragment", key, f"{f.qual} selects the estimates of other queries or intermediates", f"{f.module.rel}:{cols[want].lineno}")


    filtered = [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and any(x in ast.walk(n.slice) for x in cmps)]
    frames = {ast.unparse(n.value) for n in filtered if sum(x in ast.walk(n.slice) for x in cmps) == 1}
    ctx.rep.ok("fragment", f"{f.qual}:both")
    if len(filtered) > 1 and len(frames) == 1 and all(sum(x in ast.walk(n.slice) for x in cmps) == 1 for n in filtered):
        ctx.rep.fail("fragment", f"{f.qual}:both", f"{f.qual} does not select the estimates by query and intermediate at the same time", f.loc())


# -- estimates of the native optimizer ----------------------------------------------------------------------------------------------
READERS = {"optimize_join_order": "jointree_from_plan", "select_physical_operators": "operators_from_plan", "generate_plan_parameters": "parameters_from_plan"}


def native(ctx: Ctx, c: ClassInfo):
    """Decisions taken from native plans belong to the plan of the same query, subject to the previous decisions."""
    rep = ctx.rep
    for name, reader in READERS.items():
        f = c.methods.get(name)
        if f is None or f.abstract or not {"query_plan", reader} <= all_calls(f) | _helper_calls(c, f):
            continue
        ps = [a.arg for a in f.all_params()][1:]
        query, prior = ps[0], [p for p in ps[1:] if p in ("join_order", "operator_assignment", "physical_operators")]
        for given in [None] + prior:
            facts = {}
            for p in prior:
                facts[("t", (p,))] = p == given
                facts[("n", (p,))] = p != given
            run = Run(ctx, f, c, facts=facts, inline=lambda it, g, recv: recv is not None and recv.path == ("self",))
            key = f"{c.name}.{name}:{given or 'free'}"
            if not run.ok:
                rep.skip("native", key)
                continue
            rep.ok("native", key)
            for e, _, _ in run.it.log:
                where = f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}"
                if e.name == "query_plan" and e.args:
                    if query not in {p[0] for p in e.args[0].src}:
                        rep.fail("native", f"{key}:query", f"{f.qual} obtains the plan of a different query", where)
                    if given is not None and given not in {p[0] for p in e.args[0].src}:
                        rep.fail("native", f"{key}:hints", f"{f.qual} ignores the given {given}", where)
                if e.name == "generate_hints":
                    for k, v in e.kwargs.items():
                        roots = {p[0] for p in v.src} & set(prior)
                        if roots and not (roots & {k} or (k, next(iter(roots))) in (("physical_operators", "operator_assignment"), ("operators", "operator_assignment"))):
                            rep.fail("native", f"{key}:{k}", f"{f.qual} uses {next(iter(roots))} as {k}", where)
            for o in run.returns:
                if o.v is None or is_const(o.v, None) or reader not in o.v.calls:
                    rep.fail("native", f"{key}:result", f"{f.qual} does not return the result of {reader}()", f.loc())
            if not run.returns:
                rep.fail("native", f"{key}:result", f"{f.qual} does not return a result", f.loc())


def all_calls(f: FuncInfo) -> set[str]:
    return {x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id for x in calls_in(f) if isinstance(x.func, (ast.Attribute, ast.Name))}


def _helper_calls(c: ClassInfo, f: FuncInfo) -> set[str]:
    out: set[str] = set()
    for n in calls_in(f):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
            g = c.find(n.func.attr)
            if g is not None and g is not f:
                out |= all_calls(g)
    return out


# -- base tables ---------------------------------------------------------------------------------------------------------------------
def base_tables(ctx: Ctx, c: ClassInfo):
    """Estimates for filtered base tables refer to the requested table and its filters in the current query."""
    rep = ctx.rep
    f = c.methods.get("estimate_for")
    if f is None or f.abstract or not any(k.name == "BaseTableEstimator" for k in c.mro()):
        return
    table = [a.arg for a in f.all_params()][1]
    asked = Asked()
    run = Run(ctx, f, c, inline=lambda it, g, recv: recv is not None and recv.path == ("self",) and g.name != "estimate_total_rows", results=asked.hook)
    key = f"{c.name}.estimate_for"
    if not run.ok:
        rep.skip("base table", key)
        return
    for r in asked.made.values():
        rep.ok("base table", f"{key}:delegate")
        if ("self", "query") not in {p[:2] for p in unwrapped(r["query"])} or table not in {p[0] for p in unwrapped(r["of"])}:
            rep.fail("base table", f"{key}:delegate", f"{f.qual} estimates something else than the requested table", f.loc())
    filtered = asked_db = False
    for o in run.returns:
        if o.v is None:
            continue
        ev = [e for e in o.events if e.name in ("execute_query", "cardinality_estimate")]
        if any(e.name == "estimate_total_rows" for e in o.events):
            rep.ok("base table", f"{key}:unfiltered")
            if any("filters_for" in x for (k, p, *_), v in o.s.facts.items() if v is True and k == "t" for x in p):
                rep.fail("base table", f"{key}:unfiltered", f"{f.qual} ignores the filters of the table", f.loc())
            continue
        for e in ev:
            rep.ok("base table", f"{key}:{e.name}")
            where = f"{e.func.module.rel}:{getattr(e.node, 'lineno', 0)}"
            if not e.args:
                continue
            q, asked_db = e.args[0], True
            if table not in {p[0] for p in q.src}:
                rep.fail("base table", f"{key}:{e.name}", f"{f.qual} estimates a different table", where)
            filtered = filtered or any("filters_for" in x for p in q.src for x in p) or "filters_for" in q.calls
    if asked_db and not filtered:
        rep.fail("base table", f"{key}:filters", f"{f.qual} ignores the filters of the table", f.loc())
