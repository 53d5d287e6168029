"""O01-O03: enumeration of plans, estimators and cost models."""
from __future__ import annotations

from .flow import *

ROLE_OPS = {"cardinality_estimator": {"calculate_estimate"}, "cost_model": {"estimate_cost"}}
ESTIMATES = {"calculate_estimate", "estimate_cost", "generate_plan_parameters", "estimate_cardinalities"}
LIFECYCLE = {"initialize", "cleanup"}


def calls_in(f: FuncInfo):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            yield n


def attr_calls(f: FuncInfo) -> set[str]:
    return {n.func.attr for n in calls_in(f) if isinstance(n.func, ast.Attribute)}


class Reach:
    """Which attribute calls can be reached from a function via methods of the same class and functions of the same module?"""

    def __init__(self, prog: Program):
        self.prog = prog
        self.memo: dict = {}

    def __call__(self, f: FuncInfo, cls: Optional[ClassInfo], stack=()) -> set[str]:
        key = (f.qual, cls.qual if cls else None)
        if key in self.memo:
            return self.memo[key]
        if f in stack:
            return set()
        out = set(attr_calls(f))
        for n in calls_in(f):
            g = None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and cls is not None:
                g = cls.find(n.func.attr)
            elif isinstance(n.func, ast.Name):
                r = self.prog.resolve_dotted(f.module.name, n.func)
                g = r if isinstance(r, FuncInfo) else None
            if isinstance(g, FuncInfo):
                out |= self(g, cls, stack + (f,))
        if not stack:
            self.memo[key] = out
        return out


# ------------------------------------------------------------------------------------------------ O02
def check_O02(ctx: Ctx):
    prog = ctx.prog
    reach = Reach(prog)
    for cls in prog.concrete_subclasses(prog.cls("PlanEnumerator")):
        enumerator(ctx, cls, reach)
    est, cost = prog.cls("CardinalityEstimator"), prog.cls("CostModel")
    for cls in prog.concrete_subclasses(est) + prog.concrete_subclasses(cost):
        prepared(ctx, cls, "calculate_estimate" if est in cls.mro() else "estimate_cost")
        wrapper(ctx, cls, [est, cost])
    for k in prog.classes:
        adapter(ctx, k, [est, cost])
    pipeline(ctx)
    ctx.rep.require("lifecycle", 8)
    ctx.rep.require("prepared", 4)
    ctx.rep.require("forwarded", 2)


def enumerator(ctx: Ctx, cls: ClassInfo, reach: Reach):
    rep = ctx.rep
    f = cls.find("generate_execution_plan")
    if f is None or f.abstract:
        return
    names = [a.arg for a in f.all_params()]

    def hook(it, g, recv):
        if LIFECYCLE & reach(g, cls) and g.cls is not None and recv is not None and recv.path == ("self",):
            return True
        return False
    run = Run(ctx, f, cls, inline=hook)
    key = f"{cls.name}.{f.name}"
    if not run.ok:
        rep.skip("lifecycle", key)
        return
    for role, ops in ROLE_OPS.items():
        if role not in names:
            raise AnalysisError(f"{f.qual} has no parameter {role}")
        k = f"{key}:{role}"
        for o in run.returns:
            rep.ok("lifecycle", k)
            ev = list(o.events)

            def idx(name):
                return [i for i, e in enumerate(ev) if e.name == name and e.recv is not None and (role,) in e.recv.src]
            used = [i for i, e in enumerate(ev) if (e.name in ops and e.recv is not None and (role,) in e.recv.src)
                    or (e.fi is not None and e.name not in LIFECYCLE and ops & reach(e.fi, cls)
                        and (e.recv is not None and e.recv.path == ("self",) or any((role,) in v.src for v in e.all_args())))]
            start, end = idx("initialize"), idx("cleanup")
            if not start:
                rep.fail("lifecycle", f"{k}:initialize", f"{f.qual} does not initialize the {role}", f.loc())
                continue
            if not end:
                rep.fail("lifecycle", f"{k}:cleanup", f"{f.qual} does not clean up the {role}", f.loc())
                continue
            if len(start) != 1 or len(end) != 1:
                rep.fail("lifecycle", f"{k}:once", f"{f.qual} does not set up and clean up the {role} exactly once", f.loc())
                continue
            if not used:
                rep.skip("lifecycle", f"{k}:use")
                continue
            if min(used) < start[0]:
                e = ev[min(used)]
                rep.fail("lifecycle", f"{k}:initialize first", f"{f.qual} uses the {role} in {e.name}() before it is initialized", f"{f.module.rel}:{e.node.lineno}")
            if max(used) > end[0] or start[0] > end[0]:
                e = ev[max(used)]
                rep.fail("lifecycle", f"{k}:cleanup last", f"{f.qual} uses the {role} in {e.name}() after it has been cleaned up", f"{f.module.rel}:{e.node.lineno}")
            e = ev[start[0]]
            db, q = arg(e, "target_db") or (e.args[0] if e.args else None), arg(e, "query") or (e.args[1] if len(e.args) > 1 else None)
            rep.ok("lifecycle", f"{k}:arguments")
            if db is None or not any(any("target_db" in norm(x) for x in p[1:]) for p in db.src) or any(p[0] == "query" for p in db.src):
                rep.fail("lifecycle", f"{k}:database", f"{f.qual} does not initialize the {role} for its target database", f"{f.module.rel}:{e.node.lineno}")
            if q is None or ("query",) not in q.src:
                rep.fail("lifecycle", f"{k}:query", f"{f.qual} does not initialize the {role} for the query", f"{f.module.rel}:{e.node.lineno}")


def prepared(ctx: Ctx, cls: ClassInfo, op: str):
    """Attributes that only exist after initialize() are really set there."""
    rep = ctx.rep
    f, init, setup = cls.find(op), cls.find("__init__"), cls.find("initialize")
    if f is None or setup is None:
        return
    run = Run(ctx, setup, cls)
    names = [a.arg for a in setup.all_params()[1:3]]
    done = None
    for o in run.returns:
        now = {n for (root, n), v in o.s.attrs.items() if root == ("self",)}
        done = now if done is None else done & now
    done = done or set()
    unset: set[str] = set()
    known: set[str] = set()
    later: set[str] = set()
    if init is not None:
        for o in Run(ctx, init, cls).returns:
            for (root, n), v in o.s.attrs.items():
                if root == ("self",):
                    known.add(n)
                    (unset if is_const(v, None) else later).add(n)
    unset -= later
    use = Run(ctx, f, cls)
    read: set[str] = set()
    for o in use.returns:
        read |= {p[1] for p in (o.v.src if o.v is not None else ()) if p[0] == "self" and len(p) > 1}
        read |= {p[1] for p in o.s.tested if p[0] == "self" and len(p) > 1}
    for e, _, _ in use.it.log:
        for v in e.all_args() + ([e.recv] if e.recv is not None else []):
            read |= {p[1] for p in v.src if p[0] == "self" and len(p) > 1}
    for n in sorted(read):
        if n in unset or n in ("target_db", "query") and n not in known:
            rep.ok("prepared", f"{cls.name}:{n}")
            if n not in done:
                rep.fail("prepared", f"{cls.name}:{n}", f"{cls.name}.{op}() uses '{n}', but {cls.name}.initialize() does not set it", setup.loc())
                continue
            for o in run.returns:
                v = o.attr(("self",), n)
                want = "query" if "query" in n else "target_db"
                if want in names and (n == want) and v is not None and v.path != (want,):
                    rep.fail("prepared", f"{cls.name}:{n} is given", f"{cls.name}.initialize() does not set '{n}' to the given value", setup.loc())
    # the state belongs to the given database and query
    for o in run.returns:
        for (root, n), v in o.s.attrs.items():
            if root == ("self",) and n in ("target_db", "query"):
                rep.ok("prepared", f"{cls.name}:{n} stored")
                v = o.it.mat(v, o.s)
                if (n,) not in v.src:
                    rep.fail("prepared", f"{cls.name}:{n} stored", f"{cls.name}.initialize() does not store the given {n}", setup.loc())


def inner_of(ctx: Ctx, cls: ClassInfo, families) -> list[str]:
    """Attributes that hold another estimator or cost model given by the user."""
    init = cls.methods.get("__init__")
    if init is None:
        return []
    out = []
    names = {k.name for fam in families for k in ctx.prog.subclasses(fam)} | {fam.name for fam in families}
    params = {a.arg for a in init.all_params()[1:] if a.annotation is not None and {x.id for x in ast.walk(a.annotation) if isinstance(x, ast.Name)} & names
              or a.annotation is not None and isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str) and set(a.annotation.value.replace("|", " ").split()) & names}
    if not params:
        return []
    for o in Run(ctx, init, cls).returns:
        for (root, n), v in o.s.attrs.items():
            if root == ("self",) and v.path is not None and len(v.path) == 1 and v.path[0] in params and n not in out:
                out.append(n)
    return out


def wrapper(ctx: Ctx, cls: ClassInfo, families):
    rep = ctx.rep
    for inner in inner_of(ctx, cls, families):
        for op in ("initialize", "cleanup", "pre_check"):
            f = cls.find(op)
            key = f"{cls.name}.{op}:{inner}"
            rep.ok("forwarded", key)
            run = Run(ctx, f, cls) if f is not None else None
            hits = [e for o in (run.returns if run else []) for e in o.events if e.name == op and e.recv is not None and e.recv.path == ("self", inner)]
            if run is None or not run.returns or not all(any(e.name == op and e.recv is not None and e.recv.path == ("self", inner) for e in o.events) for o in run.returns):
                rep.fail("forwarded", key, f"{cls.name}.{op}() does not {op.replace('_', ' ')} the '{inner}' it is based on", (f or cls.methods["__init__"]).loc())
                continue
            if op == "initialize":
                for e in hits:
                    for p in ("target_db", "query"):
                        v = arg(e, p) or (e.args[0 if p == "target_db" else 1] if len(e.args) > 1 else None)
                        if v is None or (p,) not in v.src:
                            rep.fail("forwarded", f"{key}:{p}", f"{cls.name}.initialize() does not pass {p} on to '{inner}'", f"{f.module.rel}:{e.node.lineno}")


def adapter(ctx: Ctx, cls: ClassInfo, families):
    """Classes that manage the life cycle of an estimator on their own: each estimate is made for the query that the estimator is set up for."""
    rep = ctx.rep
    inners = inner_of(ctx, cls, families)
    if not inners or any(fam in cls.mro() for fam in families):
        return
    for name, f in sorted(cls.methods.items()):
        if not isinstance(f, FuncInfo) or not ({"initialize", "cleanup", "calculate_estimate", "estimate_cost"} & attr_calls(f)):
            continue
        run = Run(ctx, f, cls)
        for inner in inners:
            for o in run.returns:
                state, used = ("self", "query"), False
                for e in o.events:
                    if e.recv is None or e.recv.path != ("self", inner):
                        continue
                    key = f"{cls.name}.{name}:{inner}"
                    if e.name == "initialize":
                        q = arg(e, "query") or (e.args[1] if len(e.args) > 1 else None)
                        if state is not None and name != "setup_for_query":
                            rep.fail("lifecycle", f"{key}:cleanup", f"{f.qual} initializes the estimator again without a cleanup", f"{f.module.rel}:{e.node.lineno}")
                        state = tuple(q.path) if q is not None and q.path is not None else q
                        used = True
                    elif e.name == "cleanup":
                        state, used = None, True
                    elif e.name in ("calculate_estimate", "estimate_cost"):
                        rep.ok("lifecycle", key)
                        q = arg(e, "query") or (e.args[0] if e.args else None)
                        now = tuple(q.path) if q is not None and q.path is not None else q
                        if state is None:
                            rep.fail("lifecycle", key, f"{f.qual} uses the estimator without initializing it", f"{f.module.rel}:{e.node.lineno}")
                        elif isinstance(state, tuple) and isinstance(now, tuple) and state != now and (q.src or ()) and state[0] != now[0]:
                            rep.fail("lifecycle", f"{key}:query", f"{f.qual} uses the estimator for another query than it is initialized for", f"{f.module.rel}:{e.node.lineno}")
                if used:
                    key = f"{cls.name}.{name}:{inner}:afterwards"
                    rep.ok("lifecycle", key)
                    own = o.attr(("self",), "query")
                    fine = {("self", "query")} | ({own.path} if own is not None and own.path is not None else set())
                    if state is None or isinstance(state, tuple) and state not in fine:
                        rep.fail("lifecycle", key, f"{f.qual} does not leave an estimator that is initialized for the current query", f.loc())


def pipeline(ctx: Ctx):
    """Multi-stage pipelines also set up estimators that are used as parameterization."""
    from .pipelines import element, flag_of, stage_heads
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("MultiStageOptimizationPipeline")
    heads, flag = stage_heads(ctx, cls), flag_of(ctx, cls)
    at = element(cls, "parameters", heads["parameters"])
    f = cls.find("optimize_query")
    facts = {("n", at): False, ("t", at): True, ("T", at): frozenset({prog.cls("CardinalityEstimator").qual})}
    if flag is not None:
        facts[("t", ("self", flag))] = True
    run = Run(ctx, f, cls, facts=facts)
    for o in run.returns:
        key = f"{cls.name}.{f.name}"
        rep.ok("lifecycle", key)
        mine = [e for e in o.events if e.recv is not None and e.recv.path == at and e.name in LIFECYCLE | {"generate_plan_parameters"}]
        if [e.name for e in mine] != ["initialize", "generate_plan_parameters", "cleanup"]:
            rep.fail("lifecycle", key, f"{f.qual} does not initialize, use and clean up its cardinality estimator in this order ({[e.name for e in mine]})", f.loc())
            continue
        e = mine[0]
        rep.ok("lifecycle", f"{key}:arguments")
        for p, want in (("target_db", {q for o2 in Run(ctx, cls.find("target_database"), cls).returns for q in o2.v.src}), ("query", {("query",)})):
            v = arg(e, p) or (e.args[0 if p == "target_db" else 1] if len(e.args) > 1 else None)
            if v is None or not (v.src & want):
                rep.fail("lifecycle", f"{key}:{p}", f"{f.qual} does not initialize its cardinality estimator with the {p}", f"{f.module.rel}:{e.node.lineno}")
