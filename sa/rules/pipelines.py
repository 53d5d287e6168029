"""L01-L04: optimization pipelines."""
from __future__ import annotations

import itertools

from .flow import *

# role -> (method that configures the stage, stage operation, arguments: parameter -> role whose result it has to be)
PIPELINES = {
    "IntegratedOptimizationPipeline": {
        "algorithm": ("setup_optimization_algorithm", "optimize_query", {}),
    },
    "TextBookOptimizationPipeline": {
        "plan enumerator": ("setup_plan_enumerator", "generate_execution_plan", {}),
        "cost model": ("setup_cost_model", None, {}),
        "cardinality estimator": ("setup_cardinality_estimator", None, {}),
    },
    "MultiStageOptimizationPipeline": {
        "join order": ("setup_join_order_optimization", "optimize_join_order", {}),
        "operators": ("setup_physical_operator_selection", "select_physical_operators", {"join_order": "join order"}),
        "parameters": ("setup_plan_parameterization", "generate_plan_parameters", {"join_order": "join order", "operator_assignment": "operators"}),
    },
    "IncrementalOptimizationPipeline": {
        "initial plan": ("initial_plan_generator", "optimize_query", {}),
        "steps": ("add_optimization_step", "optimize_query", {}),
    },
}
STAGE_TYPE = {
    "algorithm": "CompleteOptimizationAlgorithm", "plan enumerator": "PlanEnumerator", "cost model": "CostModel",
    "cardinality estimator": "CardinalityEstimator", "join order": "JoinOrderOptimization", "operators": "PhysicalOperatorSelection",
    "parameters": "ParameterGeneration", "initial plan": "CompleteOptimizationAlgorithm", "steps": "IncrementalOptimizationStep",
}
OPTIONAL = {"join order", "operators", "parameters", "initial plan"}
SETTINGS = {"query_pre_check": "setup_query_support_check", "build_join_order_optimizer": "setup_join_order_optimization",
            "build_physical_operator_selection": "setup_physical_operator_selection", "build_plan_parameterization": "setup_plan_parameterization"}
DESCRIBED = {"optimization_algorithm": "algorithm", "plan_enumerator": "plan enumerator", "cost_model": "cost model",
             "cardinality_estimator": "cardinality estimator", "join_ordering": "join order", "operator_selection": "operators",
             "plan_parameterization": "parameters", "initial_plan": "initial plan", "steps": "steps"}
ENTRY = ("query_execution_plan", "optimize_query")
CHECK_DB, CHECK_QUERY = "check_supported_database_system", "check_supported_query"


def setter_of(cls: ClassInfo, name: str) -> FuncInfo:
    f = cls.find_setter(name) or cls.find(name)
    if f is None:
        raise AnalysisError(f"cannot find {cls.name}.{name}")
    return f


def stored(o: Outcome) -> dict[str, V]:
    return {name: o.it.mat(v, o.s) for (root, name), v in o.s.attrs.items() if root == ("self",)}


def places(ctx: Ctx, cls: ClassInfo, f: FuncInfo) -> dict[str, V]:
    """The attributes of the pipeline that receive the argument of a setup method."""
    p = f.all_params()[1].arg
    out: dict[str, V] = {}
    run = Run(ctx, f, cls)
    for o in run.returns:
        for name, v in stored(o).items():
            if (p,) in v.src:
                out[name] = v
    for e, _ in run.log("append", "add", "insert"):
        if e.recv is not None and e.recv.path is not None and len(e.recv.path) == 2 and e.recv.path[0] == "self" and any((p,) in v.src for v in e.args):
            out[e.recv.path[1]] = e.args[-1]
    return out


def stage_heads(ctx: Ctx, cls: ClassInfo) -> dict[str, str]:
    """Role of a stage -> attribute that holds it. The stage is identified by the method that configures it."""
    heads = {}
    for role, (setup, _, _) in PIPELINES[cls.name].items():
        f = setter_of(cls, setup)
        at = places(ctx, cls, f)
        if len(at) > 1:
            # a public property and its backing field are the same place
            pub = prop_head(ctx, cls, setup)
            at = {k: v for k, v in at.items() if k == pub} or at
        heads[role] = min(at) if at else None
    return heads


def flag_of(ctx: Ctx, cls: ClassInfo) -> Optional[str]:
    """The attribute that remembers that the pipeline has been built."""
    b = cls.find("build")
    if b is None:
        return None
    names = None
    for o in Run(ctx, b, cls).returns:
        now = {n for n, v in stored(o).items() if is_const(v, True)}
        names = now if names is None else names & now
    if not names:
        if not any(stored(o) for o in Run(ctx, b, cls).returns):
            return None
        raise AnalysisError(f"cannot find out how {cls.name} remembers that it has been built")
    return min(names)


def element(cls: ClassInfo, role: str, head: str) -> tuple:
    return ("self", head, "*") if role == "steps" else ("self", head)


def pipelines(ctx: Ctx):
    for name in PIPELINES:
        cls = ctx.prog.cls(name)
        yield cls, stage_heads(ctx, cls), flag_of(ctx, cls)


def stage_results(cls: ClassInfo, heads: dict[str, str]):
    """Give the results of each stage its own access path."""
    def hook(it, name, recv, args, kwargs, st):
        if recv is None or recv.path is None:
            return None
        for role, (_, op, _) in PIPELINES[cls.name].items():
            if op == name and recv.path == element(cls, role, heads[role]):
                return [(pathv((f"<{role}>",)), st)]
        if name == "query_plan" and "optimizer()" in recv.path:
            return [(pathv(("<native>",)), st)]
        return None
    return hook


# ------------------------------------------------------------------------------------------------ L01
def check_L01(ctx: Ctx):
    for cls, heads, flag in pipelines(ctx):
        roles = PIPELINES[cls.name]
        if None in heads.values():
            ctx.rep.fail("stage", cls.name, f"{cls.name} does not store its stages {[r for r, h in heads.items() if h is None]}", f"{cls.module.rel}:{cls.node.lineno}")
            continue
        opt = sorted(r for r in roles if r in OPTIONAL)
        for n in range(len(opt) + 1):
            for missing in itertools.combinations(opt, n):
                invoked(ctx, cls, heads, flag, set(missing))
        hinted(ctx, cls)
    ctx.rep.require("stage", 14)
    ctx.rep.require("input", 14)
    ctx.rep.require("result", 8)


def entry(cls: ClassInfo) -> FuncInfo:
    own = [cls.methods[n] for n in ("optimize_query", "query_execution_plan") if n in cls.methods]
    return own[0]


def invoked(ctx: Ctx, cls: ClassInfo, heads, flag, missing: set):
    rep, roles = ctx.rep, PIPELINES[cls.name]
    f = entry(cls)
    q = f.all_params()[1].arg
    facts = {}
    if flag is not None:
        facts[("t", ("self", flag))] = True
    for r, h in heads.items():
        if r != "steps":
            facts[("n", ("self", h))] = r in missing
            facts[("t", ("self", h))] = r not in missing
    run = Run(ctx, f, cls, facts=facts, results=stage_results(cls, heads), second_pass=True)
    what = f"{cls.name}.{f.name}" + (f" without {', '.join(sorted(missing))}" if missing else "")
    if not run.ok:
        rep.skip("stage", what)
        return
    if not run.returns:
        rep.fail("result", what, f"{what} never returns a result", f.loc())
        return

    def at(role):
        return element(cls, role, heads[role])

    calls = {r: [(e, fa) for e, fa in run.log(op) if e.recv is not None and e.recv.path == at(r)] for r, (_, op, _) in roles.items() if op}
    for role, (_, op, inputs) in roles.items():
        if op is None or role in missing:
            continue
        key = f"{cls.name}:{role}" + (f" without {', '.join(sorted(missing))}" if missing else "")
        rep.ok("stage", key)
        if not calls[role]:
            rep.fail("stage", key, f"{what} never uses the configured {role} stage", f.loc())
            continue
        if role != "steps":
            for o in run.returns:
                if not any(e.name == op and e.recv is not None and e.recv.path == at(role) for e in o.events):
                    rep.fail("stage", key, f"{what} returns a result without using the configured {role} stage", f.loc())
        loop_threads = False
        for e, fa in calls[role]:
            args = [run.it.mat(x, St()) for x in e.all_args()]
            bound = e.bound() if e.fi is not None else {str(i): x for i, x in enumerate(e.args)} | dict(e.kwargs)
            first = e.args[0] if e.args else bound.get("query")
            rep.ok("input", f"{key}:query")
            if first is None or (q,) not in first.src:
                rep.fail("input", f"{key}:query", f"{what} does not invoke the {role} stage with the query", f"{f.module.rel}:{e.node.lineno}")
            for p, other in inputs.items():
                rep.ok("input", f"{key}:{p}")
                v = arg(e, p)
                want = (f"<{other}>",)
                if other in missing:
                    if v is not None and any(x[0].startswith("<") for x in v.src):
                        rep.fail("input", f"{key}:{p}", f"{what} passes a result of the wrong stage as {p} to the {role} stage", f"{f.module.rel}:{e.node.lineno}")
                    continue
                others = {(f"<{r}>",) for r in roles} - {want}
                if v is None or want not in v.src or v.src & others:
                    rep.fail("input", f"{key}:{p}", f"{what} does not pass the result of the {other} stage as {p} to the {role} stage", f"{f.module.rel}:{e.node.lineno}")
            if role == "steps":
                v = arg(e, "current_plan")
                rep.ok("input", f"{key}:current_plan")
                start = ("<native>",) if "initial plan" in missing else ("<initial plan>",)
                src = v.src if v is not None else frozenset()
                if start not in src and ("<steps>",) not in src:
                    rep.fail("input", f"{key}:current_plan", f"{what} does not pass the current plan to the optimization steps", f"{f.module.rel}:{e.node.lineno}")
                loop_threads = loop_threads or ("<steps>",) in src
            if role == "plan enumerator":
                for p, r in (("cardinality_estimator", "cardinality estimator"), ("cost_model", "cost model")):
                    rep.ok("input", f"{key}:{p}")
                    v = arg(e, p)
                    if v is None or v.path != at(r):
                        rep.fail("input", f"{key}:{p}", f"{what} does not pass the configured {r} to the plan enumerator", f"{f.module.rel}:{e.node.lineno}")
        if role == "steps" and not loop_threads:
            rep.fail("input", f"{key}:threaded", f"{what} does not pass the result of an optimization step to the next step", f.loc())
    for role in missing:
        rep.ok("stage", f"{cls.name}:not {role}")
        if calls.get(role):
            rep.fail("stage", f"{cls.name}:not {role}", f"{what} uses the {role} stage which has not been configured", f.loc())
    # the results end up in the output
    if cls.find("optimize_query") is f:
        hints = [(e, fa) for e, fa in run.log("generate_hints")]
        rep.ok("result", what)
        if not hints:
            rep.fail("result", what, f"{what} does not generate hints for the decisions of its stages", f.loc())
        for e, fa in hints:
            first = e.args[0] if e.args else e.kwargs.get("query")
            if first is None or (q,) not in first.src:
                rep.fail("result", f"{what}:query", f"{what} does not generate the hints for the query", f"{f.module.rel}:{e.node.lineno}")
            for p, role in (("join_order", "join order"), ("physical_operators", "operators"), ("plan_parameters", "parameters")):
                rep.ok("result", f"{what}:{p}")
                v = e.kwargs.get(p) or arg(e, p)
                want, others = (f"<{role}>",), {(f"<{r}>",) for r in roles if r != role}
                if role in missing:
                    bad = v is not None and any(x[0].startswith("<") for x in v.src)
                else:
                    bad = v is None or want not in v.src or bool(v.src & others)
                if bad:
                    rep.fail("result", f"{what}:{p}", f"{what} does not hint the result of the {role} stage as {p}", f"{f.module.rel}:{e.node.lineno}")
        for o in run.returns:
            if o.v is None or "generate_hints" not in o.v.calls:
                rep.fail("result", f"{what}:hinted", f"{what} does not return the hinted query", f.loc())
    else:
        last = {"IntegratedOptimizationPipeline": "algorithm", "TextBookOptimizationPipeline": "plan enumerator"}.get(cls.name)
        for o in run.returns:
            rep.ok("result", what)
            src = o.v.src if o.v is not None else frozenset()
            if last is not None:
                bad = (f"<{last}>",) not in src
            else:
                start = ("<native>",) if "initial plan" in missing else ("<initial plan>",)
                # the loop over the steps may be empty
                bad = not (start in src or ("<steps>",) in src)
            if bad:
                rep.fail("result", what, f"{what} does not return the plan of its stages", f.loc())
        if last is None and not any(o.v is not None and ("<steps>",) in o.v.src for o in run.returns):
            rep.fail("result", f"{what}:steps", f"{what} does not return the plan of the last optimization step", f.loc())


def hinted(ctx: Ctx, cls: ClassInfo):
    """Both public entry points provide the decisions of the stages."""
    rep = ctx.rep
    for name, inner, outer in (("optimize_query", "query_execution_plan", "generate_hints"), ("query_execution_plan", "optimize_query", "query_plan")):
        f = cls.find(name)
        if f is None or f is entry(cls):
            continue

        def hook(it, n, recv, args, kwargs, st, inner=inner):
            if n == inner and recv is not None and recv.path == ("self",):
                return [(pathv(("<inner>",)), st)]
            return None
        run = Run(ctx, f, cls, results=hook, opaque=(inner,))
        q = f.all_params()[1].arg
        key = f"{cls.name}.{name}"
        rep.ok("result", key)
        ins = [e for e, _ in run.log(inner) if e.recv is not None and e.recv.path == ("self",)]
        outs = [e for e, _ in run.log(outer)]
        if not ins or not all(any((q,) in v.src for v in e.all_args()) for e in ins):
            rep.fail("result", key, f"{key} does not optimize the query with its stages", f.loc())
        if not outs or not all(any(("<inner>",) in v.src for v in e.all_args()) for e in outs) or not all(o.v is not None and ("<inner>",) in o.v.src for o in run.returns):
            rep.fail("result", f"{key}:{outer}", f"{key} does not return the decisions of its stages", f.loc())
        if outer == "generate_hints" and not all(e.args and (q,) in e.args[0].src or "query" in e.kwargs and (q,) in e.kwargs["query"].src for e in outs):
            rep.fail("result", f"{key}:query", f"{key} does not hint the query that has been optimized", f.loc())


# ------------------------------------------------------------------------------------------------ L02
def failing(*names):
    """Results of support checks: they do not pass. Enforcing them raises an error."""
    def hook(it, name, recv, args, kwargs, st):
        if name in names:
            v = pathv((f"<{name}>",), Ty(frozenset({it.prog.cls("PreCheckResult").qual})))
            st.facts[("t", v.path + ("passed",))] = False
            st.facts[("n", v.path)] = False
            st.facts[("t", v.path)] = True
            return [(v, st)]
        if name == "ensure_all_passed" and recv is not None and any(p[0] in {f"<{n}>" for n in names} for p in recv.src):
            return []
        return None
    return hook


def check_L02(ctx: Ctx):
    rep = ctx.rep
    for cls, heads, flag in pipelines(ctx):
        roles = PIPELINES[cls.name]
        if None in heads.values():
            rep.fail("typestate", cls.name, f"{cls.name} does not store its stages {[r for r, h in heads.items() if h is None]}", f"{cls.module.rel}:{cls.node.lineno}")
            continue
        present = {("n", element(cls, r, h)): False for r, h in heads.items()} | {("t", element(cls, r, h)): True for r, h in heads.items()}
        checks = {("n", element(cls, r, h) + ("pre_check()",)): False for r, h in heads.items()}
        merged = set()
        if flag is None and cls.find("build") is not None:
            rep.fail("typestate", f"{cls.name}.build", f"{cls.name}.build() does not mark the pipeline as built", cls.find("build").loc())
            continue
        if flag is not None:
            merged = built(ctx, cls, heads, flag, {**present, **checks})
            typestate(ctx, cls, heads, flag)
        else:
            integrity(ctx, cls, heads, {**present, **checks})
        enforced(ctx, cls, heads, flag, {**present, **checks}, merged)
    rep.require("typestate", 12)
    rep.require("build", 6)
    rep.require("query-check", 8)


def receivers(e: Event) -> set:
    return set(e.recv.src) if e.recv is not None else set()


def checked(ctx: Ctx, cls: ClassInfo, run: Run, check: str, paths: dict[str, tuple], rule: str, merged=None, subject=None):
    """The support check of each stage is performed with the right subject."""
    f = run.f
    events = [e for e, _ in run.log(check)]
    for role, p in paths.items():
        key = f"{cls.name}.{f.name}:{role}"
        ctx.rep.ok(rule, key)
        want = p + ("pre_check()",)
        hit = [e for e in events if want in receivers(e) or (merged and role in merged[1] and ("self", merged[0]) in receivers(e))]
        if not hit:
            ctx.rep.fail(rule, key, f"{f.qual} does not check whether the {role} stage is supported", f.loc())
        elif subject is not None and not any(any(subject & v.src for v in e.all_args()) for e in hit):
            ctx.rep.fail(rule, f"{key}:subject", f"{f.qual} does not check the {role} stage against the right subject", f.loc())
    subjects = {x for e in events for v in e.all_args() for x in v.src}
    for e, _ in run.log("ensure_all_passed"):
        if e.recv is None or not ({check} & e.recv.calls or (f"<{check}>",) in e.recv.src):
            continue
        v = arg(e, "context") or (e.args[0] if e.args else None)
        ctx.rep.ok("context", f"{cls.name}.{f.name}")
        if v is None or not (v.src & subjects):
            ctx.rep.fail("context", f"{cls.name}.{f.name}:{check}", f"{f.qual} does not report the documented error for a failed check (no context is given)", f"{f.module.rel}:{e.node.lineno}")


def db_paths(ctx: Ctx, cls: ClassInfo) -> set:
    f = cls.find("target_database")
    return {p for o in Run(ctx, f, cls).returns for p in o.v.src}


def built(ctx: Ctx, cls: ClassInfo, heads, flag, facts) -> tuple:
    """build() checks all stages and fails for each unsupported one. Returns the attribute that holds all checks."""
    rep = ctx.rep
    f = cls.find("build")
    run = Run(ctx, f, cls, facts=facts)
    checked(ctx, cls, run, CHECK_DB, {r: element(cls, r, h) for r, h in heads.items()}, "build", subject=db_paths(ctx, cls))
    chk = cls.find("setup_query_support_check")
    if chk is not None:
        own = min(places(ctx, cls, chk), default=None)
        rep.ok("build", f"{cls.name}.build:query support check")
        r3 = Run(ctx, f, cls, facts={**facts, ("n", ("self", own)): False, ("t", ("self", own)): True})
        if own is None or not all(any(e.name == CHECK_DB and ("self", own) in receivers(e) for e in o.events) for o in r3.returns):
            rep.fail("build", f"{cls.name}.build:query support check", f"{f.qual} ignores the support check of the user", f.loc())
    # each stage is checked on every successful path
    for o in run.returns:
        for r, h in heads.items():
            want = element(cls, r, h) + ("pre_check()",)
            if not any(e.name == CHECK_DB and want in receivers(e) for e in o.events):
                rep.fail("build", f"{cls.name}.build:{r}", f"{f.qual} succeeds without checking whether the {r} stage is supported", f.loc())
    bad = Run(ctx, f, cls, facts=facts, results=failing(CHECK_DB))
    rep.ok("build", f"{cls.name}.build:enforced")
    if bad.ok and bad.returns:
        rep.fail("build", f"{cls.name}.build:enforced", f"{f.qual} succeeds although the target database does not support a stage", f.loc())
    # optional stages do not switch the checks of other stages off
    for r, h in heads.items():
        if r not in OPTIONAL:
            continue
        part = dict(facts)
        part[("n", ("self", h))], part[("t", ("self", h))] = True, False
        for o in Run(ctx, f, cls, facts=part).returns:
            for r2, h2 in heads.items():
                if r2 == r:
                    continue
                rep.ok("build", f"{cls.name}.build:{r2} without {r}")
                if not any(e.name == CHECK_DB and element(cls, r2, h2) + ("pre_check()",) in receivers(e) for e in o.events):
                    rep.fail("build", f"{cls.name}.build:{r2} without {r}", f"{f.qual} does not check whether the {r2} stage is supported if there is no {r} stage", f.loc())
    # the attribute with the combined checks
    own = cls.find("pre_check")
    for o in run.returns:
        for n, v in stored(o).items():
            if n != flag and "merge_checks" in v.calls or any(p[-1] == "pre_check()" for p in v.src):
                have = {r for r, h in heads.items() if element(cls, r, h) + ("pre_check()",) in v.src}
                rep.ok("build", f"{cls.name}.build:{n} is fresh")
                if any(p[:2] == ("self", n) for p in v.src):
                    rep.fail("build", f"{cls.name}.build:{n} is fresh", f"{f.qual} accumulates the checks of stages that are not configured any more in '{n}'", f.loc())
                return n, have
    return ()


def typestate(ctx: Ctx, cls: ClassInfo, heads, flag):
    """Only built pipelines can be used, and each change of the configuration requires a new build."""
    rep = ctx.rep
    for name in ENTRY:
        f = cls.find(name)
        rep.ok("typestate", f"{cls.name}.{name}:not built")
        run = Run(ctx, f, cls, facts={("t", ("self", flag)): False}, inline=inline_entries(ctx))
        used = [e.name for e, _, _ in run.it.log if e.name in {op for _, op, _ in PIPELINES[cls.name].values() if op} and e.recv is not None and e.recv.path is not None and len(e.recv.path) == 2]
        if run.ok and (run.returns or used):
            rep.fail("typestate", f"{cls.name}.{name}:not built", f"{f.qual} can be used without a build of the current configuration", f.loc())
    init = Run(ctx, cls.find("__init__"), cls)
    rep.ok("typestate", f"{cls.name}.__init__")
    for o in init.returns:
        v = stored(o).get(flag)
        if v is None or not is_const(v, False):
            rep.fail("typestate", f"{cls.name}.__init__", f"{cls.name}.__init__() does not create an unbuilt pipeline", cls.find("__init__").loc())
    fs = {n: f for k in reversed(cls.mro()) for n, f in list(k.methods.items()) if isinstance(f, FuncInfo)}
    fs |= {f"{n} (setter)": f for n, f in cls.setters.items()}
    config = set(heads.values()) | {p[1] for p in db_paths(ctx, cls) if len(p) > 1}
    chk = cls.find("setup_query_support_check")
    if chk is not None:
        config |= set(places(ctx, cls, chk))
    for name, f in sorted(fs.items()):
        if f.abstract or f.kind in ("static", "classmethod", "property", "cached_property") or name in ("__init__", "build") or not f.all_params():
            continue
        run = Run(ctx, f, cls)
        if not run.ok:
            continue
        for o in run.returns:
            st = stored(o)
            changed = sorted(set(st) & config)
            if not changed:
                continue
            rep.ok("typestate", f"{cls.name}.{name}")
            if flag not in st or not is_const(st[flag], False):
                rep.fail("typestate", f"{cls.name}.{name}", f"{f.qual} changes '{changed[0]}' without requiring a new build", f.loc())


def inline_entries(ctx: Ctx):
    return ctx.self_hook(roots=("self",))


def integrity(ctx: Ctx, cls: ClassInfo, heads, facts):
    """Pipelines without a build check each new stage as soon as it is configured."""
    rep = ctx.rep
    for role, (setup, _, _) in PIPELINES[cls.name].items():
        f = setter_of(cls, setup)
        p = f.all_params()[1].arg
        fa = {**facts, ("n", (p,)): False, ("t", (p,)): True, ("n", (p, "pre_check()")): False}
        run = Run(ctx, f, cls, facts=fa)
        checked(ctx, cls, run, CHECK_DB, {f"new {role}": (p,)}, "build", subject=db_paths(ctx, cls))
        bad = Run(ctx, f, cls, facts=fa, results=failing(CHECK_DB))
        rep.ok("build", f"{cls.name}.{f.name}:enforced")
        if bad.ok and bad.returns:
            rep.fail("build", f"{cls.name}.{f.name}:enforced", f"{f.qual} accepts stages that the target database does not support", f.loc())
    for name, f in sorted(cls.setters.items()):
        if name in {s for s, _, _ in PIPELINES[cls.name].values()}:
            continue
        p = f.all_params()[1].arg
        fa = {**facts, ("n", (p,)): False, ("t", (p,)): True}
        run = Run(ctx, f, cls, facts=fa)
        checked(ctx, cls, run, CHECK_DB, {r: element(cls, r, h) for r, h in heads.items()}, "build", subject={(p,)})
        bad = Run(ctx, f, cls, facts=fa, results=failing(CHECK_DB))
        rep.ok("build", f"{cls.name}.{name}:enforced")
        if bad.ok and bad.returns:
            rep.fail("build", f"{cls.name}.{name}:enforced", f"{f.qual} accepts database systems that do not support the configured stages", f.loc())


def enforced(ctx: Ctx, cls: ClassInfo, heads, flag, facts, merged):
    """Unsupported queries are rejected before any stage is used."""
    rep = ctx.rep
    f = entry(cls)
    q = f.all_params()[1].arg
    fa = dict(facts)
    if flag is not None:
        fa[("t", ("self", flag))] = True
    run = Run(ctx, f, cls, facts=fa)
    checked(ctx, cls, run, CHECK_QUERY, {r: element(cls, r, h) for r, h in heads.items()}, "query-check", merged=merged, subject={(q,)})
    bad = Run(ctx, f, cls, facts=fa, results=failing(CHECK_QUERY))
    key = f"{cls.name}.{f.name}"
    rep.ok("query-check", f"{key}:enforced")
    if bad.ok and bad.returns:
        rep.fail("query-check", f"{key}:enforced", f"{f.qual} optimizes queries that its stages do not support", f.loc())
    rep.ok("query-check", f"{key}:first")
    ops = {op for _, op, _ in PIPELINES[cls.name].values() if op} | {"generate_hints"}
    for e, _, _ in bad.it.log:
        if e.name in ops and e.recv is not None and e.recv.path is not None and len(e.recv.path) <= 3 and e.recv.path[0] == "self":
            rep.fail("query-check", f"{key}:first", f"{f.qual} calls {e.name}() before it knows that the query is supported", f"{f.module.rel}:{e.node.lineno}")
    # optional stages are not accessed if they are missing
    for r, h in heads.items():
        if r not in OPTIONAL:
            continue
        part = {**fa, ("n", ("self", h)): True, ("t", ("self", h)): False}
        part.pop(("n", ("self", h, "pre_check()")), None)
        for g in {f, *(cls.methods.get(x) for x in ("build",)), *([setter_of(cls, s) for s, _, _ in PIPELINES[cls.name].values()] if flag is None else ())} - {None}:
            rep.ok("query-check", f"{cls.name}.{g.name}:without {r}")
            for e, fx, _ in Run(ctx, g, cls, facts=part).it.log:
                if e.recv is not None and e.recv.path == ("self", h) and e.name not in ("@store", h) and fx.get(("n", ("self", h))) is True:
                    rep.fail("query-check", f"{cls.name}.{g.name}:without {r}", f"{g.qual} calls {e.name}() of the {r} stage although there is none", f"{f.module.rel}:{getattr(e.node, 'lineno', 0)}")
    # the other entry point is based on this one
    for name in ENTRY:
        g = cls.find(name)
        if g is f:
            continue
        rep.ok("query-check", f"{cls.name}.{name}")
        r2 = Run(ctx, g, cls, facts=fa, results=failing(CHECK_QUERY))
        if r2.ok and r2.returns:
            rep.fail("query-check", f"{cls.name}.{name}", f"{g.qual} optimizes queries that the stages do not support", g.loc())


# ------------------------------------------------------------------------------------------------ L03
def check_L03(ctx: Ctx):
    rep = ctx.rep
    for cls, heads, flag in pipelines(ctx):
        roles = PIPELINES[cls.name]
        ignore = {flag} if flag else set()
        for role, (setup, _, _) in roles.items():
            f = setter_of(cls, setup)
            key = f"{cls.name}.{setup}"
            rep.ok("setup", key)
            if heads[role] is None:
                rep.fail("setup", key, f"{f.qual} does not store the {role} stage", f.loc())
                continue
            others = {h for r, h in heads.items() if r != role}
            if heads[role] in others:
                rep.fail("setup", key, f"{f.qual} replaces a stage other than the {role}", f.loc())
            run = Run(ctx, f, cls)
            for o in run.returns:
                st = stored(o)
                for n in sorted(set(st) & (others - {heads[role]})):
                    rep.fail("setup", f"{key}:{n}", f"{f.qual} changes the stage '{n}' as well", f.loc())
                p = f.all_params()[1].arg
                if role != "steps" and heads[role] in st and st[heads[role]].path != (p,):
                    rep.fail("setup", f"{key}:value", f"{f.qual} does not store the given stage itself", f.loc())
                if role != "steps" and heads[role] not in st:
                    rep.fail("setup", f"{key}:stored", f"{f.qual} does not always store the given stage", f.loc())
                if f.kind != "setter":
                    rep.ok("setup", f"{key}:returns")
                    if o.v is None or o.v.path != ("self",):
                        rep.fail("setup", f"{key}:returns", f"{f.qual} does not return the pipeline", f.loc())
        chk = cls.find("setup_query_support_check")
        if chk is not None:
            at = places(ctx, cls, chk)
            rep.ok("setup", f"{cls.name}.setup_query_support_check")
            if not at or set(at) & set(heads.values()):
                rep.fail("setup", f"{cls.name}.setup_query_support_check", f"{chk.qual} does not store the support check (or replaces a stage)", chk.loc())
        target(ctx, cls)
        dispatch(ctx, cls, heads)
        settings(ctx, cls, heads)
        reported(ctx, cls, heads)
        accessors(ctx, cls, heads)
    rep.require("setup", 16)
    rep.require("use", 9)
    rep.require("reported", 14)
    rep.require("settings", 4)


def target(ctx: Ctx, cls: ClassInfo):
    """The target database is the one given by the user."""
    at = {p[1] for p in db_paths(ctx, cls) if len(p) == 2}
    for f in [cls.find("__init__")] + [g for n, g in cls.setters.items() if n == "target_db"]:
        p = f.all_params()[1].arg
        facts = {("n", (p,)): False, ("t", (p,)): True}
        key = f"{cls.name}.{'target_db' if f.kind == 'setter' else f.name}"
        ctx.rep.ok("setup", f"{key}:target")
        for o in Run(ctx, f, cls, facts=facts).returns:
            st = stored(o)
            if not any(n in st and st[n].path == (p,) for n in at):
                ctx.rep.fail("setup", f"{key}:target", f"{f.qual} does not use the given target database", f.loc())


def dispatch(ctx: Ctx, cls: ClassInfo, heads):
    f = cls.find("use")
    if f is None:
        return
    p = f.all_params()[1].arg
    for role in PIPELINES[cls.name]:
        if heads[role] is None:
            continue
        t = ctx.prog.cls(STAGE_TYPE[role])
        key = f"{cls.name}.use:{role}"
        ctx.rep.ok("use", key)
        run = Run(ctx, f, cls, args={p: t})
        if not run.ok:
            ctx.rep.skip("use", key)
            continue
        ok = False
        for o in run.returns:
            got = {n for n, v in stored(o).items() if (p,) in v.src}
            for e in o.events:
                if e.name in ("append", "@store") and e.recv is not None and any((p,) in v.src for v in e.args):
                    if e.name == "append" and e.recv.path is not None and len(e.recv.path) == 2:
                        got.add(e.recv.path[1])
                    elif e.name == "@store" and e.recv.path == ("self",):
                        got.add(norm(e.kwargs["attr"].shape[1]))
            wrong = {n for n in got if n in heads.values() and n != heads[role]}
            if heads[role] in got and not wrong:
                ok = True
            elif wrong:
                # classes of several families are used as the first one
                if role != "parameters":
                    ctx.rep.fail("use", key, f"{f.qual} uses a {t.name} as the stage '{min(wrong)}'", f.loc())
            if o.v is None or o.v.path != ("self",):
                ctx.rep.fail("use", f"{key}:returns", f"{f.qual} does not return the pipeline", f.loc())
        if not ok:
            ctx.rep.fail("use", key, f"{f.qual} does not use a {t.name} as the {role} stage", f.loc())


def settings(ctx: Ctx, cls: ClassInfo, heads):
    f = cls.find("load_settings")
    if f is None:
        return
    p = f.all_params()[1].arg
    facts = {}
    for s in SETTINGS:
        facts[("t", (p, f"{s}()"))] = True
        facts[("n", (p, f"{s}()"))] = False
    run = Run(ctx, f, cls, facts=facts)
    for s, setup in SETTINGS.items():
        at = places(ctx, cls, setter_of(cls, setup))
        key = f"{cls.name}.load_settings:{s}"
        ctx.rep.ok("settings", key)
        for o in run.returns:
            st = stored(o)
            if not any(n in st and (p, f"{s}()") in st[n].src for n in at):
                ctx.rep.fail("settings", key, f"{f.qual} does not use the result of {s}()", f.loc())
    # settings that are not available keep the current stage
    for s, setup in SETTINGS.items():
        fa = {**facts, ("t", (p, f"{s}()")): False, ("n", (p, f"{s}()")): True}
        at = places(ctx, cls, setter_of(cls, setup))
        key = f"{cls.name}.load_settings:no {s}"
        ctx.rep.ok("settings", key)
        r2 = Run(ctx, f, cls, facts=fa)
        for o in r2.returns:
            if set(stored(o)) & set(at):
                ctx.rep.fail("settings", key, f"{f.qual} replaces the current stage although {s}() does not provide one", f.loc())
            for s2, setup2 in SETTINGS.items():
                if s2 != s and not any(n in stored(o) and (p, f"{s2}()") in stored(o)[n].src for n in places(ctx, cls, setter_of(cls, setup2))):
                    ctx.rep.fail("settings", f"{cls.name}.load_settings:{s2} without {s}", f"{f.qual} ignores the result of {s2}() if {s}() does not provide a stage", f.loc())


def reported(ctx: Ctx, cls: ClassInfo, heads):
    rep = ctx.rep
    facts = {}
    for r, h in heads.items():
        if r != "steps":
            facts[("n", ("self", h))] = False
            facts[("t", ("self", h))] = True
    f = cls.find("stages")
    run = Run(ctx, f, cls, facts=facts)
    for o in run.returns:
        for r, h in heads.items():
            rep.ok("reported", f"{cls.name}.stages:{r}")
            if not covered(o.v, element(cls, r, h)):
                rep.fail("reported", f"{cls.name}.stages:{r}", f"{f.qual} does not contain the {r} stage", f.loc())
    for r, h in heads.items():
        if r == "steps":
            continue
        part = {k: v for k, v in facts.items() if k[1] == ("self", h)}
        part |= {(k, ("self", h2)): v for r2, h2 in heads.items() if r2 != r and r2 != "steps" for k, v in (("n", True), ("t", False))}
        for o in Run(ctx, f, cls, facts=part).returns:
            rep.ok("reported", f"{cls.name}.stages:only {r}")
            if not covered(o.v, element(cls, r, h)):
                rep.fail("reported", f"{cls.name}.stages:only {r}", f"{f.qual} does not contain the {r} stage if it is the only one", f.loc())
    f = cls.find("describe")
    run = Run(ctx, f, cls, facts=facts)
    for o in run.returns:
        v = o.v
        items = v.shape[1] if v is not None and v.shape is not None and v.shape[0] == "dict" else None
        for r, h in heads.items():
            key = f"{cls.name}.describe:{r}"
            rep.ok("reported", key)
            want = element(cls, r, h)
            if v is None or not any(x[: len(want) + 1] == want + ("describe()",) for x in v.src):
                rep.fail("reported", key, f"{f.qual} does not describe the {r} stage", f.loc())
        db = db_paths(ctx, cls)
        rep.ok("reported", f"{cls.name}.describe:database")
        if v is None or not any(d + ("describe()",) == x[: len(d) + 1] for d in db for x in v.src):
            rep.fail("reported", f"{cls.name}.describe:database", f"{f.qual} does not describe the target database", f.loc())
        for k, x in (items or {}).items():
            role = DESCRIBED.get(k if isinstance(k, str) else str(k))
            if role in heads and role is not None:
                rep.ok("reported", f"{cls.name}.describe:{k}")
                x = o.it.mat(x, o.s)
                want = element(cls, role, heads[role])
                if not any(q[: len(want)] == want for q in x.src):
                    rep.fail("reported", f"{cls.name}.describe:{k}", f"{f.qual} describes something else than the {role} stage as '{k}'", f.loc())


def accessors(ctx: Ctx, cls: ClassInfo, heads):
    """Public properties of stages provide this very stage."""
    names = {"optimization_algorithm": "algorithm", "join_order_enumerator": "join order", "physical_operator_selection": "operators",
             "plan_parameterization": "parameters", "initial_plan_generator": "initial plan"}
    for n, role in names.items():
        f = cls.find(n)
        if f is None or role not in heads or heads[role] is None:
            continue
        ctx.rep.ok("reported", f"{cls.name}.{n}")
        for o in Run(ctx, f, cls).returns:
            if o.v is None or o.v.path != ("self", heads[role]):
                ctx.rep.fail("reported", f"{cls.name}.{n}", f"{f.qual} does not provide the {role} stage", f.loc())


# ------------------------------------------------------------------------------------------------ L04
# pipeline operation -> (stage needs it, stage is already done, operation of the stage)
TRAINING = {
    "train_on_database": ("requires_data_training", "database_fit_completed", "fit_database"),
    "train_on_workload": ("requires_workload_training", "workload_fit_completed", "fit_workload"),
    "train_on_samples": ("requires_sample_training", "sample_fit_completed", "fit_samples"),
    "learn_from_feedback": ("uses_online_feedback", None, "learn_from_feedback"),
}
NEEDS = {"requires_data_training": "requires_data_training", "requires_workload_training": "requires_workload_training",
         "requires_sample_training": "requires_sample_training", "requires_online_training": "uses_online_feedback"}


def check_L04(ctx: Ctx):
    rep = ctx.rep
    cls = ctx.prog.cls("OptimizationPipeline")
    for k in [cls] + [ctx.prog.cls(n) for n in PIPELINES]:
        for name, (need, done, fit) in TRAINING.items():
            f = k.methods.get(name)
            if f is not None:
                trained(ctx, k, f, need, done, fit)
        for name, op in NEEDS.items():
            f = k.methods.get(name)
            if f is None:
                continue
            quantified(ctx, k, f, "needs", {op: True}, True)
            quantified(ctx, k, f, "needs", {op: False}, False)
            mixed(ctx, k, f, ({op: True}, {op: False}), True)
        f = k.methods.get("sample_fit_completed")
        if f is not None:
            need, done, _ = TRAINING["train_on_samples"]
            quantified(ctx, k, f, "needs", {need: True, done: False}, False)
            quantified(ctx, k, f, "needs", {need: True, done: True}, True)
            quantified(ctx, k, f, "needs", {need: False, done: False}, True)
            mixed(ctx, k, f, ({need: True, done: True}, {need: True, done: False}), False)
            mixed(ctx, k, f, ({need: False, done: False}, {need: True, done: True}), True)
            mixed(ctx, k, f, ({need: False, done: False}, {need: True, done: False}), False)
    for k, heads, flag in pipelines(ctx):
        configured(ctx, k, heads)
    reflection(ctx)
    rep.require("training", 12)
    rep.require("needs", 4)


def quantified(ctx: Ctx, cls: ClassInfo, f: FuncInfo, rule: str, stage_facts: dict[str, bool], want: bool):
    """The answer of the pipeline if all stages give the same answers."""
    stage = ("self", "stages()", "*")
    run = Run(ctx, f, cls, facts={("t", stage + (f"{op}()",)): t for op, t in stage_facts.items()}, quantify=True)
    key = f"{cls.name}.{f.name}:" + ",".join(f"{op}={t}" for op, t in stage_facts.items())
    ctx.rep.ok(rule, key)
    said = [o.decided for o in run.returns]
    # a loop may also have no iterations at all
    loops = any(isinstance(n, ast.For) for n in ast.walk(f.node))
    if not said or None in said:
        ctx.rep.fail(rule, key, f"{f.qual} does not decide by {' and '.join(stage_facts)} of its stages", f.loc())
    elif (want not in said) or (not loops and (not want) in said):
        ctx.rep.fail(rule, key, f"{f.qual} returns {not want} if {', '.join(f'{op}() is {t}' for op, t in stage_facts.items())} for all stages", f.loc())


def _foreign(path: tuple, stage: tuple, need: str, done: Optional[str]) -> bool:
    """A condition that concerns neither the requirements of the stage nor the data."""
    if path[: len(stage)] == stage:
        return len(path) > len(stage) and path[len(stage)] not in (f"{need}()", f"{done}()")
    return path[:1] == ("self",) and path != stage[:-1]


def mixed(ctx: Ctx, cls: ClassInfo, f: FuncInfo, answers: tuple[dict[str, bool], ...], want: bool):
    """The answer of the pipeline if its stages give different answers (in any order)."""
    stage = Ty(frozenset({ctx.prog.cls("OptimizationStage").qual}))
    key = f"{cls.name}.{f.name}:mixed:" + "|".join(",".join(f"{o}={t}" for o, t in a.items()) for a in answers)
    for order in (answers, answers[::-1]):
        names = [f"<stage{i}>" for i in range(len(order))]

        def results(it, name, recv, args, kwargs, st):
            if name == "stages" and recv is not None and recv.path == ("self",):
                return [(V(shape=("seq", [pathv((n,), stage) for n in names])), st)]
            return None
        facts = {("t", (n, f"{op}()")): t for n, a in zip(names, order) for op, t in a.items()}
        run = Run(ctx, f, cls, facts=facts, quantify=True, results=results)
        said = {o.decided for o in run.returns}
        if len(said) == 1 and None not in said:
            ctx.rep.ok("needs", key)
            if said != {want}:
                ctx.rep.fail("needs", key, f"{f.qual} returns {not want} although " + ("one" if want != (len(order) == 0) else "one") + " of the stages decides otherwise", f.loc())
        else:
            ctx.rep.skip("needs", key)


def configured(ctx: Ctx, cls: ClassInfo, heads: dict[str, str]):
    """The stages of a pipeline are exactly those that have been configured, each on its own and together."""
    f = cls.find("stages")
    if f is None or f.cls is not cls:
        return
    known = {role: h for role, h in heads.items() if h is not None}
    for present in [tuple(known), *[(r,) for r in known], *itertools.combinations(known, 2)]:
        facts = {}
        for role, h in known.items():
            facts[("n", ("self", h))] = role not in present and role != "steps"
            facts[("t", ("self", h))] = role in present
        run = Run(ctx, f, cls, facts=facts, inline=lambda it, g, r: True if g.kind == "property" else None)
        for role in present:
            key = f"{cls.name}.stages:{role}"
            ctx.rep.ok("stages", key)
            if run.returns and any(not any(q[:2] == ("self", known[role]) for q in o.v.src) for o in run.returns if o.v is not None):
                ctx.rep.fail("stages", key, f"{f.qual} does not contain the {role} stage", f.loc())


def reflection(ctx: Ctx):
    """A stage requires a kind of training exactly if it implements the method for this kind of training."""
    cls = ctx.prog.cls("OptimizationStage")
    for need, _, fit in TRAINING.values():
        f = cls.methods.get(need)
        if f is None:
            continue
        key = f"{cls.name}.{need}"
        names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                                                                                      and n.value.isidentifier()}
        others = {t[2] for t in TRAINING.values()} | {t[1] for t in TRAINING.values() if t[1]}
        if not names & others:
            ctx.rep.skip("reflection", key)
            continue
        ctx.rep.ok("reflection", key)
        if names & others != {fit}:
            ctx.rep.fail("reflection", key, f"{f.qual} does not depend on whether the stage implements {fit}", f.loc())
        rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
        if len(rets) == 1 and isinstance(rets[0], ast.Compare) and isinstance(rets[0].ops[0], (ast.Eq, ast.Is)):
            ctx.rep.fail("reflection", f"{key}:polarity", f"{f.qual} holds for stages that do not implement {fit}", f.loc())


def trained(ctx: Ctx, cls: ClassInfo, f: FuncInfo, need: str, done: Optional[str], fit: str):
    rep = ctx.rep
    stage = ("self", "stages()", "*")
    key = f"{cls.name}.{f.name}"

    def run(n, d):
        facts = {("t", stage + (f"{need}()",)): n}
        if done is not None:
            facts[("t", stage + (f"{done}()",))] = d
        return Run(ctx, f, cls, facts=facts)

    def fits(r):
        return [e for e, _ in r.log(fit) if e.recv is not None and e.recv.path == stage]
    pos = run(True, False)
    rep.ok("training", f"{key}:needed")
    if not fits(pos):
        rep.fail("training", f"{key}:needed", f"{f.qual} does not train stages that require it", f.loc())
    for n, d, txt in ((False, False, "stages that do not require it"), (True, True, "stages that are already trained"), (False, True, "stages that do not require it")):
        if d and done is None:
            continue
        rep.ok("training", f"{key}:{txt}")
        if fits(run(n, d)):
            rep.fail("training", f"{key}:{txt}", f"{f.qual} trains {txt}", f.loc())
    params = [a.arg for a in f.all_params()[1:]]
    # nothing else decides whether a stage is trained
    free = [facts for e, facts in pos.log(fit) if e.recv is not None and e.recv.path == stage and not any(
        q[0] in ("t", "cmp") and any(_foreign(x, stage, need, done) for x in ([q[1]] if q[0] == "t" else [y for z in q[2:4] for y in z])) for q in facts)]
    rep.ok("training", f"{key}:unconditional")
    if fits(pos) and not free:
        rep.fail("training", f"{key}:unconditional", f"{f.qual} trains stages that require it only if other conditions hold, too", f.loc())
    own = {m for m, op in NEEDS.items() if op == need}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in (NEEDS.keys() | TRAINING.keys()) - own - {f.name}:
            rep.fail("training", f"{key}:unconditional", f"{f.qual} depends on {n.attr}, i.e. on a different kind of training", f"{f.module.rel}:{n.lineno}")
    loopvars = {x.id for n in ast.walk(f.node) if isinstance(n, ast.For) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    for n in [m for l in ast.walk(f.node) if isinstance(l, ast.For) for m in ast.walk(l)]:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in params for t in n.targets) and any(
                isinstance(x, ast.Name) and x.id in loopvars for x in ast.walk(n.value)):
            rep.fail("training", f"{key}:reuse", f"{f.qual} passes the data for one stage on to the following ones", f"{f.module.rel}:{n.lineno}")
    for p in params:
        if ctx.prog.cls("TrainingDataRepository").qual in (ty_classes := {c.qual for c in ctx.prog.classes if ctx.bearing(
                ctx.prog.ty(f.module, next(a.annotation for a in f.all_params() if a.arg == p)), lambda k, c=c: k is c)}) and ty_classes:
            stored_data = Run(ctx, f, cls, facts={("t", stage + (f"{need}()",)): True, **({("t", stage + (f"{done}()",)): False} if done else {})},
                              args={p: ctx.prog.cls("TrainingDataRepository")}, inline=lambda it, g, r: False if g.name.startswith("retrieve") else None)
            rep.ok("training", f"{key}:repository")
            for e in fits(stored_data):
                vs = [v for v in [*e.args, *e.kwargs.values()]]
                names = {x for v in vs for x in v.calls} | {x.removesuffix("()") for v in vs for q in v.src for x in q}
                if not names & {"retrieve_merged", "retrieve_all"}:
                    rep.fail("training", f"{key}:repository", f"{f.qual} does not pass all suitable data of a repository to the stage", f.loc())
            if fits(stored_data) and not any(o.kind == "raise" for o in stored_data.outs):
                rep.fail("training", f"{key}:missing", f"{f.qual} silently skips stages for which there is no training data", f.loc())
    for e in fits(pos):
        for x in [*e.node.args, *[k.value for k in e.node.keywords]]:
            if isinstance(x, (ast.BinOp, ast.Subscript)):
                rep.fail("training", f"{key}:modified", f"{f.qual} passes modified data to the stage", f"{f.module.rel}:{e.node.lineno}")
        bound = e.bound() if e.fi is not None else {str(i): v for i, v in enumerate(e.args)} | dict(e.kwargs)
        for i, p in enumerate(params):
            rep.ok("training", f"{key}:argument {p}")
            vs = list(bound.values())
            if not any(any(q[0] == p for q in v.src) for v in vs):
                rep.fail("training", f"{key}:argument {p}", f"{f.qual} does not pass '{p}' to the stage", f"{f.module.rel}:{e.node.lineno}")
            if p in bound and not any(q[0] == p for q in bound[p].src):
                rep.fail("training", f"{key}:argument {p}", f"{f.qual} does not pass '{p}' to the stage as '{p}'", f"{f.module.rel}:{e.node.lineno}")
    # the metrics of each stage are reported under its name
    rep.ok("training", f"{key}:metrics")
    if not any(o.v is not None and fit in o.v.calls and any(q[: len(stage) + 1] == stage + ("name",) for q in o.v.src) for o in pos.returns):
        rep.fail("training", f"{key}:metrics", f"{f.qual} does not report the training metrics of each stage", f.loc())
    # every stage is considered
    rep.ok("training", f"{key}:all")
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For,)) and never_repeats(n):
            rep.fail("training", f"{key}:all", f"{f.qual} trains the first stage only", f"{f.module.rel}:{n.lineno}")
        if isinstance(n, ast.Break):
            rep.fail("training", f"{key}:all", f"{f.qual} does not train the remaining stages", f"{f.module.rel}:{n.lineno}")
