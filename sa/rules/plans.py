"""H01-H05: hint containers, query plans and join trees."""
from __future__ import annotations

from .flow import *
from .qal import rule_eq, rule_eq_type, rule_hash, value_classes

HM = "postbound._hints"

# ------------------------------------------------------------------------------------------------ H03 derived plans
ROLES = ["node_type", "operator", "children", "plan_params", "estimates", "measures", "subplan"]
ACCESSOR = {"plan_params": "params"}
# (method, component) -> condition under which the component may be dropped
MAY_DROP = {
    ("with_estimates", "measures"): ("keep_measures", False),
    ("with_actual_card", "measures"): None,
    ("canonical", "children"): None,  # scans lose the inputs that only exist for technical reasons
}
# the estimates that a method computes anew: (method, entry)
RECOMPUTED = {("with_actual_card", "cost"), ("with_actual_card", "cardinality"), ("with_estimates", "cardinality"), ("with_estimates", "cost")}
ENTRIES = {"PlanEstimates": ["cardinality", "cost"], "PlanMeasures": ["cardinality", "execution_time", "cache_hits", "cache_misses"]}


def heads(ctx: Ctx, plan: ClassInfo) -> dict[str, str]:
    out = {}
    for r in ROLES:
        h = prop_head(ctx, plan, ACCESSOR.get(r, r))
        if h is None:
            raise AnalysisError(f"cannot find the stored attribute of {plan.name}.{ACCESSOR.get(r, r)}")
        out[r] = h
    return out


def carried(o: Outcome, v: V, head: str, root="self") -> bool:
    s = o.s
    if s.nullish((root, head)):
        return True
    if head == "children":
        return covered(v, (root, head, "*"))
    return covered(v, (root, head)) or any(p[:2] == (root, head) for p in v.must)


def check_H03(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    plan = prog.cls("QueryPlan")
    hd = heads(ctx, plan)
    for name, f in sorted(methods_of(plan).items()):
        if f.kind != "method" or name == "__init__" or not returns_class(ctx, f, plan, constructed=True):
            continue
        run = Run(ctx, f, plan)
        derived(ctx, "derived-plan", run, name, "self", hd)
        forwards(ctx, "forwards", run, lambda e, f=f: e.fi is f, f.name, ignore={"memo"})
    # helpers outside of the class that rebuild a given plan
    f = prog.func("postbound.opt._helpers", "update_plan")
    p0 = f.all_params()[0].arg
    run = Run(ctx, f, args={p0: plan}, roots=(p0,), opaque=("canonical",))
    derived(ctx, "derived-plan", run, f.name, p0, hd)
    forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
    uses_all_params(ctx, "options", run, f.name)
    scaled(ctx, plan, hd)
    copies(ctx)
    ctx.rep.require("derived-plan", 40)
    ctx.rep.require("copies", 6)
    ctx.rep.require("entries", 8)


def methods_of(c: ClassInfo) -> dict[str, FuncInfo]:
    return {n: f for k in reversed(c.mro()) for n, f in k.methods.items() if isinstance(f, FuncInfo)}


def returns_class(ctx: Ctx, f: FuncInfo, c: ClassInfo, constructed=False) -> bool:
    import ast
    r = f.node.returns
    txt = ast.unparse(r) if r is not None else ""
    if not constructed:
        return c.name in txt
    return txt.strip("'\"") in (c.name, "Self") and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and ctx.prog.resolve_dotted(f.module.name, n.func) is c
                                                        or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) for n in ast.walk(f.node))


def derived(ctx: Ctx, rule: str, run: Run, name: str, root: str, hd: dict[str, str]):
    rep, f = ctx.rep, run.f
    plan = ctx.prog.cls("QueryPlan")
    if not run.ok:
        rep.skip(rule, name)
        return
    n = 0
    for o in run.returns:
        v = o.v
        if v is None or v.shape is None or v.shape[0] != "ctor" or v.shape[1] is not plan:
            continue
        n += 1
        args = v.shape[2]
        fwd = {h: r for r, h in hd.items()}
        for r, h in hd.items():
            rep.ok(rule, f"{name}.{r}")
            key = f"{name}.{r}"
            a = args.get(r)
            am = o.it.mat(a, o.s) if a is not None else None
            cond = MAY_DROP.get((name, r), 0)
            empty = am is not None and am.shape is not None and am.shape[0] == "seq" and not am.shape[1] and not am.src
            if (cond is None and (r != "children" or empty)) or (cond and o.s.facts.get(("t", (cond[0],))) is cond[1]):
                continue
            if a is None and r == "plan_params" and any(carried(o, o.it.mat(x, o.s), h, root) for x in args.values()):
                continue
            if am is None or is_const(am, None) or (am.shape is not None and am.shape[0] == "seq" and not am.shape[1] and not am.src):
                if not o.s.nullish((root, h)):
                    rep.fail(rule, key, f"{f.qual}() loses the {r} of the plan", f.loc())
                continue
            if not carried(o, am, h, root):
                others = {fwd[p[1]] for p in am.src if len(p) > 1 and p[0] == root and p[1] in fwd and fwd[p[1]] != r}
                if any(p[0] != root and not p[0].startswith("@") and p[0] in {x.arg for x in f.all_params()} for p in am.src):
                    continue  # given by the caller
                if am.shape is not None and am.shape[0] == "ctor" and am.shape[1].name in ENTRIES and any(p[:2] == (root, h) for p in am.src):
                    entries(ctx, o, am, name, root, h, f)
                    continue
                if not am.src and not is_const(am):
                    continue
                rep.fail(rule, key, f"{f.qual}() does not carry the {r} of the plan over on every path"
                         + (f" (it uses the {'/'.join(sorted(others))})" if others else ""), f.loc())
            if am.shape is not None and am.shape[0] == "ctor" and am.shape[1].name in ENTRIES:
                entries(ctx, o, am, name, root, h, f)
            elif am.shape is not None and am.shape[0] == "ctor" and am.shape[1].name == "Subplan":
                rep.ok("entries", f"{name}.subplan")
                if "target_name" not in am.shape[2] and len(am.shape[2]) < 2:
                    rep.fail("entries", f"{name}.subplan", f"{f.qual}() loses the name of the subplan", f.loc())
    if not n:
        rep.skip(rule, name)


def entries(ctx: Ctx, o: Outcome, am: V, name: str, root: str, h: str, f: FuncInfo):
    k = am.shape[1]
    for x in ENTRIES[k.name] + ["**"]:
        ctx.rep.ok("entries", f"{name}.{k.name}.{x}")
        a = am.shape[2].get(x)
        a = o.it.mat(a, o.s) if a is not None else None
        whole = am.shape[2].get("**")
        if a is None and whole is not None:
            a = o.it.mat(whole, o.s)
            if x != "**":
                continue
        if x == "**":
            if a is None or not any(p[:2] == (root, h) for p in a.src):
                ctx.rep.fail("entries", f"{name}.{k.name}.additional", f"{f.qual}() loses the additional entries of the {h}", f.loc())
            continue
        if a is None or is_const(a):
            if (name, x) not in RECOMPUTED:
                ctx.rep.fail("entries", f"{name}.{k.name}.{x}", f"{f.qual}() loses the {x} of the {h}", f.loc())
            continue
        own = {p for p in a.src if p[:2] == (root, h)}
        named = {p[-1].strip("[]'\"") for p in own if p[-1].startswith("[")}
        if named and x not in named and not a.calls & {"@callback"}:
            ctx.rep.fail("entries", f"{name}.{k.name}.{x}", f"{f.qual}() stores {'/'.join(sorted(named))} as the {x} of the {h}", f.loc())
        foreign = {p for p in a.src if p[0] == root and len(p) > 1 and p[1] != h}
        if foreign and not own and (name, x) not in RECOMPUTED:
            ctx.rep.fail("entries", f"{name}.{k.name}.{x}", f"{f.qual}() stores {'.'.join(sorted(foreign)[0][1:])} as the {x} of the {h}", f.loc())


def scaled(ctx: Ctx, plan: ClassInfo, hd):
    """Only the requested kind of cardinalities is scaled."""
    f = plan.find("scale_cardinality")
    if f is None:
        raise AnalysisError("QueryPlan.scale_cardinality not found")
    ps = [a.arg for a in f.all_params()]
    factor, kind = ps[1], ps[2]
    for k in ("estimated", "actual", "both"):
        run = Run(ctx, f, plan, facts={("e", (kind,), x): x == k for x in ("estimated", "actual", "both")})
        for o in run.returns:
            if o.v is None or o.v.shape is None or o.v.shape[0] != "ctor":
                continue
            for r, on in (("estimates", k != "actual"), ("measures", k != "estimated")):
                a = o.v.shape[2].get(r)
                am = o.it.mat(a, o.s) if a is not None else V()
                ctx.rep.ok("scaled", f"{k}:{r}")
                if ((factor,) in am.src) is not on:
                    ctx.rep.fail("scaled", f"{k}:{r}", f"{f.qual}(kind={k!r}) {'does not scale' if on else 'scales'} the cardinality of the {r}", f.loc())


def copies(ctx: Ctx):
    """clone/__copy__/__deepcopy__ of the parts of a plan keep all stored attributes."""
    rep, prog = ctx.rep, ctx.prog
    plan = prog.cls("QueryPlan")
    for name in ("__copy__", "__deepcopy__"):
        run = Run(ctx, plan.find(name), plan)
        for e, facts in run.log("clone"):
            d = arg(e, "deep")
            rep.ok("copies", f"QueryPlan.{name}.clone")
            if (d is None and name == "__deepcopy__") or (d is not None and is_const(d) and bool(d.shape[1]) is not (name == "__deepcopy__")):
                rep.fail("copies", f"QueryPlan.{name}.clone", f"{run.f.qual}() creates a {'shallow' if name == '__deepcopy__' else 'deep'} copy of a part of the plan",
                         f"{run.f.module.rel}:{e.node.lineno}")
    for cn in ("PlanParams", "PlanEstimates", "PlanMeasures", "Subplan"):
        c = prog.cls(cn)
        for name in ("__copy__", "__deepcopy__"):
            f = c.find(name)
            if f is None:
                continue
            run = Run(ctx, f, c)
            fields = set(ctx.final_fields(c)) if not c.is_dataclass() else {n for n, _ in c.record_fields()}
            for o in run.returns:
                if o.v is None or not (o.v.shape is not None and o.v.shape[0] == "ctor"):
                    continue
                for fld in sorted(fields):
                    rep.ok("copies", f"{cn}.{name}.{fld}")
                    if not any(p[:2] == ("self", fld.lstrip("_")) for p in o.v.src):
                        rep.fail("copies", f"{cn}.{name}.{fld}", f"{f.qual}() loses '{fld}'", f.loc())
                args = o.v.shape[2]
                for p, a in args.items():
                    own = ctx.own_fields(c, p) if p in ctx.content(c) else []
                    am = o.it.mat(a, o.s)
                    hs = {q[1] for q in am.src if len(q) > 1 and q[0] == "self"}
                    if own and hs and not hs & {g.lstrip("_") for g in own}:
                        rep.fail("copies", f"{cn}.{name}.{p}", f"{f.qual}() passes {'/'.join(sorted(hs))} as '{p}'", f.loc())
        f = c.find("clone")
        if f is not None:
            run = Run(ctx, f, c, inline=lambda it, g, r: False)
            for o in run.returns:
                deep = o.s.facts.get(("t", (f.all_params()[-1].arg,)))
                called = {e.name for e in o.events if e.name in ("__copy__", "__deepcopy__", "copy", "deepcopy")}
                if deep is None or not called:
                    continue
                rep.ok("copies", f"{cn}.clone:{deep}")
                if any("deep" in x for x in called) is not deep:
                    rep.fail("copies", f"{cn}.clone", f"{f.qual}(deep={deep}) creates a {'shallow' if deep else 'deep'} copy", f.loc())


# ------------------------------------------------------------------------------------------------ H01 containers
KINDS = {"ScanOperator": "scan_operators", "JoinOperator": "join_operators", "IntermediateOperator": "intermediate_operators",
         "ScanOperatorAssignment": "scan_operators", "JoinOperatorAssignment": "join_operators"}
SETTERS = {  # method -> (field, parameters that have to be stored)
    "set_scan_operator": ("scan_operators", None), "set_join_operator": ("join_operators", None),
    "set_intermediate_operator": ("intermediate_operators", None), "add_cardinality": ("cardinalities", None), "set_workers": ("parallel_workers", None),
}
KEEPS = {"merge_with": None, "clone": None, "global_settings_only": {"global_settings"}, "drop_workers": {"cardinalities", "system_settings", "execution_mode"},
         "integrate_workers_from": None}


def containers(ctx: Ctx) -> list[ClassInfo]:
    return [ctx.prog.cls("PhysicalOperatorAssignment"), ctx.prog.cls("PlanParameterization")]


def fields_of(ctx: Ctx, c: ClassInfo) -> list[str]:
    return sorted(ctx.final_fields(c))


def result_attr(o: Outcome, name: str) -> Optional[V]:
    v = o.v
    if v is None or v.shape is None or v.shape[0] != "ctor":
        return None
    a = v.shape[2].get("." + name)
    return o.it.mat(a, o.s) if a is not None else V()


def check_H01(ctx: Ctx):
    rep = ctx.rep
    for c in containers(ctx):
        flds = fields_of(ctx, c)
        ms = methods_of(c)
        for name, kept in KEEPS.items():
            f = ms.get(name)
            if f is None:
                continue
            others = [a.arg for a in f.all_params()[1:2]] if name == "merge_with" else []
            run = Run(ctx, f, c, force=("clone",))
            if not run.ok:
                rep.skip("keeps", f"{c.name}.{name}")
            for o in run.returns:
                for fld in flds:
                    a = result_attr(o, fld)
                    if a is None:
                        continue
                    for root in ["self"] + others:
                        key = f"{c.name}.{name}:{root}.{fld}"
                        rep.ok("keeps", key)
                        want = kept is None or fld in kept
                        has = any(p[:2] == (root, fld) for p in (a.must | a.whole))
                        if fld == "execution_mode" and others and not has:
                            # a single value: the other one has to be set if it replaces the own one
                            rival = (others[0] if root == "self" else "self", fld)
                            has = root == "self" and any(p == rival for p in a.src) and (
                                o.s.facts.get(("n", rival)) is False or o.s.facts.get(("t", rival)) is True)
                        if want and not has and not o.s.nullish((root, fld)):
                            rep.fail("keeps", key, f"{f.qual}() loses the {fld} of {root}", f.loc())
                        if not want and any(p[:2] == (root, fld) for p in a.src):
                            rep.fail("keeps", key, f"{f.qual}() keeps the {fld} although they should be dropped", f.loc())
                        mixed = {p[1] for p in a.src if p[0] == root and len(p) > 1 and p[1] in flds} - {fld}
                        if mixed and name != "integrate_workers_from":
                            rep.fail("keeps", key + ":mixed", f"{f.qual}() stores the {'/'.join(sorted(mixed))} of {root} as {fld}", f.loc())
            if others:
                precedence(ctx, run, f"{c.name}.{name}", "self", others[0])
        for name, (fld, _) in SETTERS.items():
            f = ms.get(name)
            if f is not None:
                setter(ctx, c, f, fld, flds)
        f = ms.get("__bool__")
        if f is not None:
            run = Run(ctx, f, c)
            for o in run.returns:
                if o.v is not None and is_const(o.v, True):
                    continue
                for fld in flds:
                    rep.ok("truth", f"{c.name}:{fld}")
                    if not (any(p[:2] == ("self", fld) for p in o.v.src) or any(p[:2] == ("self", fld) for p in o.s.tested)) and o.truth("self", fld) is None:
                        # short-circuits
                        if not any(k[0] == "t" and v is True for k, v in o.s.facts.items()):
                            rep.fail("truth", f"{c.name}:{fld}", f"{f.qual}() does not consider the {fld}", f.loc())
    ops = ctx.prog.cls("PhysicalOperatorAssignment")
    flds = fields_of(ctx, ops)
    f = ops.find("add")
    ps = [a.arg for a in f.all_params()]
    for k, fld in KINDS.items():
        run = Run(ctx, f, ops, facts={("T", (ps[1],)): frozenset({ctx.prog.cls(k).qual})})
        for o in run.returns:
            a = o.attr(("self",), fld)
            rep.ok("add", f"{k}->{fld}")
            if a is None or not any(p[0] == ps[1] for p in a.src):
                rep.fail("add", f"{k}->{fld}", f"{f.qual}() does not store a {k} in {fld}", f.loc())
            elif not k.endswith("Assignment") and len(ps) > 2 and not any(p[0] == ps[2] for p in a.src):
                rep.fail("add", f"{k}->{fld}", f"{f.qual}() stores a {k} without its tables", f.loc())
            for g in flds:
                b = o.attr(("self",), g)
                if g != fld and b is not None and any(p[0] == ps[1] for p in b.src):
                    rep.fail("add", f"{k}->{g}", f"{f.qual}() stores a {k} in {g}", f.loc())
    f = ops.find("set_operator_enabled_globally")
    ps = [a.arg for a in f.all_params()]
    for k, fld in KINDS.items():
        if k.endswith("Assignment"):
            continue
        run = Run(ctx, f, ops, facts={("T", (ps[1],)): frozenset({ctx.prog.cls(k).qual})})
        for o in run.returns:
            a = o.attr(("self",), "global_settings")
            rep.ok("enable", k)
            if a is None or (ps[1],) not in a.src or (ps[2],) not in a.src:
                rep.fail("enable", k, f"{f.qual}() does not store the setting for a {k}", f.loc())
            on, overwrite = o.truth(ps[2]), o.truth(ps[3]) if len(ps) > 3 else None
            changed = o.attr(("self",), fld) is not None or any(e.name in ("pop", "@delitem") for e in o.events)
            if on is True and changed:
                rep.fail("enable", f"{k}:enabled", f"{f.qual}() removes individual {fld} although the operator is enabled", f.loc())
            if on is False and overwrite is True and not changed:
                rep.fail("enable", f"{k}:disabled", f"{f.qual}() keeps individual {fld} although the operator is disabled", f.loc())
            if overwrite is False and changed:
                rep.fail("enable", f"{k}:overwrite", f"{f.qual}() removes individual {fld} although they should be kept", f.loc())
            for g in flds:
                b = o.attr(("self",), g)
                if b is None or g == "global_settings":
                    continue
                if not any(p[:2] == ("self", g) for p in b.src):
                    rep.fail("enable", f"{k}:{g}", f"{f.qual}() drops all {g}", f.loc())
                if g != fld:
                    rep.fail("enable", f"{k}:{g}", f"{f.qual}() changes the {g} for a {k}", f.loc())
    f = ops.find("get")
    ps = [a.arg for a in f.all_params()]
    run = Run(ctx, f, ops, facts={("T", (ps[1],)): frozenset({ctx.prog.cls("TableReference").qual})})
    for o in run.returns:
        rep.ok("get", "table")
        if not any(p[:2] == ("self", "scan_operators") for p in o.v.src):
            rep.fail("get", "table", f"{f.qual}() does not look up the scan operator of a table", f.loc())
    system_settings(ctx)
    integrate(ctx, ops)
    assignments(ctx)
    rep.require("keeps", 20)
    rep.require("add", 5)
    rep.require("setters", 5)
    rep.require("accessors", 8)


def precedence(ctx: Ctx, run: Run, label: str, first: str, second: str):
    """In combined mappings, the entries of the second argument win."""
    for e, facts, _ in run.it.log:
        if e.name != "@union" or len(e.args) < 2:
            continue
        roots = [{p[0] for p in v.src if p[0] in (first, second)} for v in e.args]
        ctx.rep.ok("precedence", label)
        for i, a in enumerate(roots):
            for b in roots[i + 1:]:
                if a == {second} and b == {first}:
                    ctx.rep.fail("precedence", label, f"{run.f.qual}() prefers the entries of the object itself over those of '{second}'",
                                 f"{run.f.module.rel}:{getattr(e.node, 'lineno', 0)}")


def setter(ctx: Ctx, c: ClassInfo, f: FuncInfo, fld: str, flds):
    ps = [a.arg for a in f.all_params()][1:]
    run = Run(ctx, f, c)
    for o in run.returns:
        a = o.attr(("self",), fld)
        for i, p in enumerate(ps):
            optional = p in defaulted(f) and not (o.s.facts.get(("T", (ps[0],))) or frozenset()) & {ctx.prog.cls("ScanOperator").qual, ctx.prog.cls("JoinOperator").qual}
            if optional:
                continue
            ctx.rep.ok("setters", f"{c.name}.{f.name}:{p}")
            if a is None or not any(q[0] == p for q in a.src):
                ctx.rep.fail("setters", f"{c.name}.{f.name}:{p}", f"{f.qual}() does not store its argument '{p}' in {fld}", f.loc())
        if a is not None and not any(q[:2] == ("self", fld) for q in a.src):
            ctx.rep.fail("setters", f"{c.name}.{f.name}:others", f"{f.qual}() drops the other {fld}", f.loc())
        for g in flds:
            if g != fld and o.attr(("self",), g) is not None:
                ctx.rep.fail("setters", f"{c.name}.{f.name}:{g}", f"{f.qual}() also changes the {g}", f.loc())
        if o.v is None or o.v.path != ("self",):
            ctx.rep.fail("setters", f"{c.name}.{f.name}:return", f"{f.qual}() does not return the object", f.loc())


def system_settings(ctx: Ctx):
    c = ctx.prog.cls("PlanParameterization")
    f = c.find("set_system_settings")
    ps = [a.arg for a in f.all_params()][1:]
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
    run = Run(ctx, f, c)
    for o in run.returns:
        a = o.attr(("self",), "system_settings")
        ctx.rep.ok("setters", "set_system_settings")
        single = o.truth(ps[0]) is True
        want = ps[:2] if single else [kw]
        for w in want:
            if a is None or not any(q[0] == w for q in a.src):
                ctx.rep.fail("setters", f"set_system_settings:{w}", f"{f.qual}() does not store '{w}'", f.loc())
        if a is not None and not any(q[:2] == ("self", "system_settings") for q in a.src):
            ctx.rep.fail("setters", "set_system_settings:others", f"{f.qual}() drops the other settings", f.loc())


ASSIGN_ROLES = {"operator": {"operator"}, "table": {"table"}, "join": {"join"}, "inner": {"inner"}, "outer": {"outer"},
                "parallel_workers": {"parallel_workers"}}


def integrate(ctx: Ctx, ops: ClassInfo):
    f = ops.find("integrate_workers_from")
    ps = [a.arg for a in f.all_params()][1:]
    run = Run(ctx, f, ops, iterations=True)
    n = 0
    for loop, it, elem, before, ends, g in run.it.iterations:
        if any("parallel_workers" in p for p in elem.src):
            ctx.rep.ok("integrate", "all")
            if any(k in ("break", "return") for k, *_ in ends):
                ctx.rep.fail("integrate", "all", f"{f.qual}() stops before all workers are integrated", f.loc())
    for e, facts in run.constructed("ScanOperatorAssignment", "JoinOperatorAssignment", "DirectionalJoinOperatorAssignment"):
        n += 1
        for p in ctx.content(e.cls):
            v = arg(e, p)
            ctx.rep.ok("integrate", f"{e.cls.name}.{p}")
            if v is None:
                ctx.rep.fail("integrate", f"{e.cls.name}.{p}", f"{f.qual}() loses the '{p}' of a {e.cls.name}", f.loc())
                continue
            other = swapped(v, p, ASSIGN_ROLES) if p in ASSIGN_ROLES else None
            if other is not None:
                ctx.rep.fail("integrate", f"{e.cls.name}.{p}", f"{f.qual}() uses '{other}' as the '{p}' of a {e.cls.name}", f.loc())
    added = [e for e, _ in run.log("add", "set_scan_operator", "set_join_operator")]
    ctx.rep.ok("integrate", "stored")
    if n and not added and not any(e.name == "@setitem" for e, _, _ in run.it.log):
        ctx.rep.fail("integrate", "stored", f"{f.qual}() does not store the updated operators", f.loc())
    uses_all_params(ctx, "integrate", run, f.name)


def assignments(ctx: Ctx):
    """The accessors of operator assignments, sort keys and join trees return what the constructor was given under this name."""
    for cn in ("ScanOperatorAssignment", "JoinOperatorAssignment", "DirectionalJoinOperatorAssignment", "SortKey", "JoinTree", "LogicalJoinTree"):
        c = ctx.prog.cls(cn)
        ff = ctx.final_fields(c)
        for p, d in ctx.content(c).items():
            f = c.find(p)
            if f is None or f.kind not in ("property", "cached_property"):
                continue
            run = Run(ctx, f, c)
            for o in run.returns:
                if o.v is None or not o.v.src:
                    continue
                ctx.rep.ok("accessors", f"{cn}.{p}")
                hs = {q[1] for q in o.v.src if len(q) > 1 and q[0] == "self"}
                if hs and not any((p,) in {x[:1] for x in ff[h].src} for h in hs if h in ff) and all(h in ff for h in hs):
                    ctx.rep.fail("accessors", f"{cn}.{p}", f"{f.qual} does not return the '{p}' that the object was created with", f.loc())
    c = ctx.prog.cls("DirectionalJoinOperatorAssignment")
    v = ctx.final_fields(c).get("join")
    for p in ("inner", "outer"):
        ctx.rep.ok("accessors", f"{c.name}.join:{p}")
        if v is not None and not any(q[0] == p for q in v.src):
            ctx.rep.fail("accessors", f"{c.name}.join:{p}", f"the tables of a {c.name} do not contain its '{p}' tables", c.loc())


# ------------------------------------------------------------------------------------------------ H02 extraction of hints
PLAN_OPAQUE = ("outer_child", "inner_child", "is_scan", "is_join", "is_auxiliary", "estimated_cardinality", "actual_cardinality", "tables", "base_table",
               "parallel_workers", "operator", "children", "input_node", "estimated_cost")
CARD = {"estimated": {"estimated_cardinality", "estimates"}, "actual": {"actual_cardinality", "measures"}}
SOURCE_NAMES = {"estimates": "estimated", "estimated": "estimated", "actual": "actual"}


def check_H02(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    plan, tree = prog.cls("QueryPlan"), prog.cls("LogicalJoinTree")
    # -- join orders
    f = prog.func(HM, "jointree_from_plan")
    ps = [a.arg for a in f.all_params()]
    for src in ("estimates", "actual"):
        facts = {("e", (ps[1],), "estimates"): src == "estimates", ("e", (ps[1],), "actual"): src == "actual"}
        run = Run(ctx, f, args={ps[0]: plan}, facts=facts, opaque=PLAN_OPAQUE, roots=())
        roles = {"outer": {"outer_child"}, "inner": {"inner_child"}, "annotation": CARD["estimated"] | CARD["actual"], "table": {"base_table"}}
        n = 0
        for e, _ in run.log("join", "scan", "LogicalJoinTree"):
            for p in ("outer", "inner", "annotation", "table"):
                if (e.name == "scan" and p in ("outer", "inner")) or (e.name == "join" and p == "table"):
                    continue
                v = arg(e, p)
                if e.cls is not None and v is None:
                    continue
                n += 1
                rep.ok("join-order", f"{e.name}.{p}:{src}")
                key = f"{f.name}:{e.name}.{p}"
                if v is None:
                    rep.fail("join-order", key, f"{f.qual}() does not provide the {p} of a {e.name}", f.loc())
                    continue
                bad = swapped(v, p, roles)
                if bad:
                    rep.fail("join-order", key, f"{f.qual}() uses the {bad} as the {p} of a {e.name}", f.loc())
                if p == "annotation":
                    cards(ctx, "join-order", key, f, v, SOURCE_NAMES[src])
        forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
        if n < 4:
            rep.skip("join-order", f"{f.name}:{src}")
    # -- operators
    f = prog.func(HM, "operators_from_plan")
    ps = [a.arg for a in f.all_params()]
    for k in ("ScanOperator", "JoinOperator", "IntermediateOperator"):
        for w in (True, False):
            run = Run(ctx, f, args={ps[0]: plan}, facts={("T", (ps[0], "operator")): frozenset({prog.cls(k).qual}), ("t", (ps[0], "operator")): True,
                                                         ("t", (ps[1],)): w}, opaque=PLAN_OPAQUE, roots=())
            forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
            for o in run.returns:
                key = f"{f.name}:{k}"
                rep.ok("operators", f"{key}:{w}")
                stored = [e for e in o.events if e.name in ("add", "set_scan_operator", "set_join_operator", "set_intermediate_operator")]
                if not stored:
                    rep.fail("operators", key, f"{f.qual}() does not store the operator of a {k} node", f.loc())
                for e in o.events:
                    if e.cls is not None and e.cls.name.endswith("OperatorAssignment") and e.cls.name != "PhysicalOperatorAssignment":
                        v = arg(e, "parallel_workers")
                        has = v is not None and "parallel_workers" in steps_of(v)
                        if has is not w:
                            rep.fail("operators", key + ":workers", f"{f.qual}(include_workers={w}) {'omits' if w else 'adds'} the workers of a {k} node", f.loc())
                        for p, want in (("operator", {"operator"}), ("table", {"base_table", "tables"}), ("join", {"tables"})):
                            v = arg(e, p)
                            if v is not None and v.src and not steps_of(v) & want:
                                rep.fail("operators", f"{key}:{p}", f"{f.qual}() stores a wrong {p}", f.loc())
                if o.v is not None and not own(o, "PhysicalOperatorAssignment"):
                    rep.fail("operators", key + ":result", f"{f.qual}() does not return the assignment with the operator of a {k} node", f.loc())
                if o.v is not None and not covered(o.v, (ps[0], "children", "*")) and o.v.src and not o.s.nullish((ps[0], "children")):
                    rep.fail("operators", key + ":children", f"{f.qual}() does not consider all inputs of a {k} node", f.loc())
    run = Run(ctx, f, args={ps[0]: plan}, facts={("t", (ps[0], "operator")): False}, opaque=PLAN_OPAQUE, roots=())
    forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
    for o in run.returns:
        if o.truth(ps[0], "input_node") is True:
            rep.ok("operators", "auxiliary")
            if not any(p[:2] == (ps[0], "input_node") or p[:2] == (ps[0], "children") for p in o.v.src):
                rep.fail("operators", "auxiliary", f"{f.qual}() stops at auxiliary nodes", f.loc())
    # -- parameters
    f = prog.func(HM, "parameters_from_plan")
    ps = [a.arg for a in f.all_params()]
    for cls in (plan, tree):
        for target in ("estimated", "actual"):
            for fallback in (True, False):
                facts = {("e", (ps[1],), "estimated"): target == "estimated", ("e", (ps[1],), "actual"): target == "actual", ("t", (ps[2],)): fallback}
                run = Run(ctx, f, args={ps[0]: cls}, facts=facts, opaque=PLAN_OPAQUE + ("annotation",), roots=())
                forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
                hit = 0
                for o in run.returns:
                    if not own(o, "PlanParameterization"):
                        rep.fail("parameters", f"{f.name}:result", f"{f.qual}() does not return the parameters of the node itself", f.loc())
                for e, fa in run.log("add_cardinality"):
                    hit += 1
                    key = f"{f.name}:cardinality"
                    rep.ok("parameters", f"{cls.name}:{target}:{fallback}")
                    t, v = arg(e, "tables"), arg(e, "cardinality")
                    if t is None or "tables" not in steps_of(t):
                        rep.fail("parameters", key, f"{f.qual}() stores a cardinality for the wrong tables", f.loc())
                    if cls is plan and v is not None:
                        cards(ctx, "parameters", f"{key}:{target}", f, v, target, fallback)
                        known = [b for k, b in fa.items() if k[0] == "t" and "is_valid()" in k[1] and "actual_cardinality" in k[1]]
                        if target == "actual" and fallback and not steps_of(v) & CARD["actual"] and not known and not any(
                                "actual_cardinality" in k[1] for k in fa if k[0] in ("t", "n")):
                            rep.fail("parameters", f"{key}:fallback", f"{f.qual}() uses estimates no matter whether actual cardinalities are known", f.loc())
                        if target == "actual" and known and not steps_of(v) & CARD["actual" if known[0] else "estimated"]:
                            rep.fail("parameters", f"{key}:fallback", f"{f.qual}() {'ignores valid' if known[0] else 'uses missing'} actual cardinalities", f.loc())
                    elif v is not None and not steps_of(v) & {"annotation", "cardinality"}:
                        rep.fail("parameters", key, f"{f.qual}() does not use the cardinality of the join tree", f.loc())
                    if any(b for k, b in fa.items() if k[0] == "t" and k[1][-1] == "isnan()"):
                        rep.fail("parameters", f"{key}:nan", f"{f.qual}() stores unknown cardinalities", f.loc())
                if cls is plan:
                    ws = run.log("set_workers")
                    rep.ok("parameters", f"workers:{target}:{fallback}")
                    if not ws:
                        rep.fail("parameters", f"{f.name}:workers", f"{f.qual}() does not store the parallel workers of a node", f.loc())
                    for e, _ in ws:
                        if "tables" not in steps_of(e.m.get(0, arg(e, "tables"))) or "parallel_workers" not in steps_of(e.m.get(1, arg(e, "num_workers"))):
                            rep.fail("parameters", f"{f.name}:workers", f"{f.qual}() stores wrong parallel workers", f.loc())
                if cls is plan:
                    for o in run.returns:
                        stored = {e.name for e in o.events}
                        for nm, attr, what in (("set_workers", "parallel_workers", "parallel workers"), ("add_cardinality", "cardinality", "cardinality")):
                            rep.ok("parameters", f"complete:{nm}:{target}:{fallback}")
                            if nm not in stored and not any(k[0] in ("t", "n", "e") and any(attr in x for x in k[1][1:]) for k in o.s.facts if isinstance(k[1], tuple)):
                                rep.fail("parameters", f"{f.name}:complete:{nm}", f"{f.qual}() may skip the {what} of a node for another reason than a missing value", f.loc())
                if not hit:
                    rep.fail("parameters", f"{f.name}:cardinality", f"{f.qual}() does not store the cardinality of a node", f.loc())
                for o in run.returns:
                    rep.ok("parameters", f"children:{cls.name}")
                    if o.v is not None and not covered(o.v, (ps[0], "children", "*")) and not o.s.nullish((ps[0], "children")) and not _children(o, ps[0]):
                        rep.fail("parameters", f"{f.name}:children", f"{f.qual}() does not consider all inputs of a node", f.loc())
    # -- all of them at once
    f = prog.func("postbound.opt._helpers", "explode_query_plan")
    ps = [a.arg for a in f.all_params()]
    for src in ("estimated", "actual"):
        run = Run(ctx, f, args={ps[0]: plan}, facts={("e", (ps[1],), x): x == src for x in ("estimated", "actual")}, roots=(),
                  opaque=("jointree_from_plan", "operators_from_plan", "parameters_from_plan"))
        for nm in ("jointree_from_plan", "operators_from_plan", "parameters_from_plan"):
            es = [e for e, _ in run.log(nm)]
            rep.ok("explode", f"{nm}:{src}")
            if not es:
                rep.fail("explode", nm, f"{f.qual}() does not use {nm}()", f.loc())
            for e in es:
                v = e.m.get(0)
                if v is not None and v.path != (ps[0],):
                    rep.fail("explode", nm, f"{f.qual}() does not hand the plan to {nm}()", f.loc())
                opt = {"jointree_from_plan": "card_source", "parameters_from_plan": "target_cardinality"}.get(nm)
                if opt is None:
                    continue
                v = arg(e, opt)
                got = SOURCE_NAMES.get(v.shape[1]) if v is not None and is_const(v) else "estimated" if v is None else None
                if v is not None and v.path == (ps[1],):
                    got = src if opt == "target_cardinality" else None
                    if opt == "card_source" and src == "estimated":
                        rep.fail("explode", nm, f"{f.qual}() passes an unknown cardinality source to {nm}()", f.loc())
                if got is not None and got != src:
                    rep.fail("explode", nm, f"{f.qual}(card_source={src!r}) uses the {got} cardinalities in {nm}()", f.loc())
    sites(ctx)
    rep.require("join-order", 10)
    rep.require("operators", 6)
    rep.require("parameters", 10)
    rep.require("forwards", 6)
    rep.require("explode", 6)


def own(o: Outcome, cls: str) -> bool:
    """The result, and everything that is merged on the way to it, is based on the container of the node itself."""
    if cls not in o.v.calls:
        return False
    for e in o.events:
        if e.name in ("merge_with", "update", "update_with") and e.recv is not None:
            ops = [o.it.mat(e.recv, o.s)] + list(e.m.values())
            if not any(cls in v.calls for v in ops):
                return False
    return True


def _children(o: Outcome, root: str) -> bool:
    return any(p[:2] == (root, "children") and len(p) > 2 and p[2] == "*" for p in o.v.src | o.v.must) or any(
        p[:2] in ((root, "outer"), (root, "inner")) for p in o.v.src)


def cards(ctx: Ctx, rule: str, key: str, f: FuncInfo, v: V, want: str, fallback=False):
    st = steps_of(v)
    allowed = CARD[want] | (CARD["estimated"] if want == "actual" and fallback else set())
    other = CARD["actual" if want == "estimated" else "estimated"]
    if not st & CARD[want] and st & (CARD["actual"] | CARD["estimated"]) and not (st & allowed):
        ctx.rep.fail(rule, key, f"{f.qual}() uses the wrong cardinalities if the {want} ones are requested", f.loc())
    if st & (other - allowed):
        ctx.rep.fail(rule, key, f"{f.qual}() uses other cardinalities than the {want} ones that are requested", f.loc())


def sites(ctx: Ctx):
    """Values of a call that are given by name of the cardinality source are known to the callee."""
    import ast
    known = {"card_source": {"jointree_from_plan": {"estimates", "actual"}, "explode_query_plan": {"estimated", "actual"}}, "target_cardinality": {
        "parameters_from_plan": {"estimated", "actual"}}}
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                for k in n.keywords:
                    ok = known.get(k.arg or "", {}).get(nm)
                    if ok is not None and isinstance(k.value, ast.Constant):
                        ctx.rep.ok("explode", f"{m.rel}:{nm}")
                        if k.value.value not in ok:
                            ctx.rep.fail("explode", f"{m.rel}:{nm}:{k.arg}", f"{nm}() is called with an unknown value {k.value.value!r} for '{k.arg}'", f"{m.rel}:{n.lineno}")


# ------------------------------------------------------------------------------------------------ H05 equality
PLAN_VALUES = ["PhysicalOperatorAssignment", "ScanOperatorAssignment", "JoinOperatorAssignment", "JoinTree", "SortKey", "QueryPlan", "Subplan"]


def check_H05(ctx: Ctx):
    from .qal import eq_summary, rule_eq, rule_eq_type, rule_hash, value_classes
    classes = value_classes(ctx, PLAN_VALUES)
    for c, f, compared in rule_eq(ctx, classes):
        rule_hash(ctx, c, compared)
        rule_eq_type(ctx, c)
        unknowns(ctx, c, f, eq_summary)
    compared_containers(ctx, eq_summary)
    ctx.rep.require("eq", 10)
    ctx.rep.require("hash", 8)
    ctx.rep.require("containers", 3)


def unknowns(ctx: Ctx, c: ClassInfo, f: FuncInfo, eq_summary):
    """Numbers that are unknown (NaN) by default must not be compared by their value alone: NaN is never equal to itself."""
    init = c.find("__init__")
    dflt = defaulted(init) if init is not None else {}
    nan = {p for p, d in dflt.items() if isinstance(d, str) and d.split(".")[-1] == "nan" or d in ("float('nan')",)}
    _, paths = eq_summary(ctx, c)
    for p, d in ctx.content(c).items():
        if p not in nan:
            continue
        for g in d["fields"]:
            ctx.rep.ok("unknown", f"{c.name}.{p}")
            if paths and all(any(plain(a, b, g) for a, b in pairs) for pairs, _ in paths):
                ctx.rep.fail("unknown", f"{c.name}.{p}", f"two instances of {c.name} are never equal if their '{p}' is unknown (NaN): {f.qual}", f.loc())


def compared_containers(ctx: Ctx, eq_summary):
    """Hint containers are filled after their construction: all their dictionaries take part in comparisons."""
    c = ctx.prog.cls("PhysicalOperatorAssignment")
    _, paths = eq_summary(ctx, c)
    for g, v in ctx.final_fields(c).items():
        if not v.ty.names or not v.ty.names & {"dict", "list", "set"}:
            continue
        ctx.rep.ok("containers", g)
        for pairs, s in paths:
            if not any({a.path, b.path} == {("self", g), ("other", g)} or any(covered(x, ("self", g)) and covered(y, ("other", g)) for x, y in ((a, b), (b, a)))
                       for a, b in pairs):
                ctx.rep.fail("containers", g, f"two instances of {c.name} that differ in '{g}' can compare equal", c.find("__eq__").loc())


def plain(a: V, b: V, g: str) -> bool:
    return {a.path, b.path} == {("self", g), ("other", g)}


# ------------------------------------------------------------------------------------------------ H04 traversals
def check_H04(ctx: Ctx):
    plan, tree, params, sub = (ctx.prog.cls(x) for x in ("QueryPlan", "LogicalJoinTree", "PlanParams", "Subplan"))
    children, subplan, pp = (("self", prop_head(ctx, plan, x)) for x in ("children", "subplan", "params"))
    nested = {("t", subplan): True, ("n", subplan): False}
    kids, subs, me = ("inputs", [children + ("*",)]), ("subplan", [subplan]), ("node itself", [("self",)])
    for name, want in {
        "tables": (kids, subs, ("parameters of the node", [pp])), "columns": (kids, subs, ("parameters of the node", [pp])),
        "iternodes": (kids, subs, me), "__iter__": (kids, subs, me), "find_all_nodes": (kids, subs), "plan_depth": (kids,),
        "cout": (kids,), "plan_summary": (kids, subs), "inspect": (kids, subs, ("node type", [("self", "node_type")])),
        "explain": (kids, subs, ("node type", [("self", "node_type")])), "ast": (kids, subs, ("node type", [("self", "node_type")])),
        "__json__": [(x, [("self", prop_head(ctx, plan, x) or x)]) for x in ("node_type", "operator", "children", "params", "estimates", "measures", "subplan")],
    }.items():
        reach(ctx, plan, name, want, nested, force={"is_analyze"} if name == "cout" else ())
    # a match of the predicate is part of the result
    f = plan.find("find_all_nodes")
    run = Run(ctx, f, plan, facts=nested)
    ctx.rep.ok("reach", "QueryPlan.find_all_nodes:self")
    if run.ok and not any(("self",) in o.v.src for o in run.returns):
        ctx.rep.fail("reach", "QueryPlan.find_all_nodes:self", f"{f.qual}() never contains the node itself", f.loc())
    forwards(ctx, "forwards", run, lambda e: e.fi is f, f.name)
    for name in ("find_first_node", "lookup"):
        search(ctx, plan, name, {"inputs": children, "subplan": subplan}, nested)
    direction(ctx, plan, children)
    for name in ("cout", "inspect"):
        f = plan.find(name)
        run = Run(ctx, f, plan, facts=nested)
        forwards(ctx, "forwards", run, lambda e: e.fi is not None and (e.fi is f or e.fi.name == name), f.name)
    for fn in {e.fi for n in ("inspect", "ast") for e, _, _ in Run(ctx, plan.find(n), plan, facts=nested).it.log if e.fi is not None and e.fi.cls is None
               and any(x.name == e.name for x, _, _ in Run(ctx, e.fi, args={e.fi.arg_names()[0]: plan}).it.log)}:
        run = Run(ctx, fn, args={fn.arg_names()[0]: plan})
        forwards(ctx, "forwards", run, lambda e: e.fi is fn, fn.name)
    shapes(ctx, plan, children, nested)
    for name, props in {"tables": ("base_table", "filter_predicate", "lookup_key"), "columns": ("filter_predicate", "lookup_key")}.items():
        paths = {x: prop_path(ctx, params, x) for x in props}
        for x, p in paths.items():
            if p is None:
                ctx.rep.skip("reach", f"PlanParams.{name}:{x}")
            else:
                reach(ctx, params, name, ((x, [p]),), {("t", p): True, ("n", p): False})
    reach(ctx, sub, "tables", (("plan", [("self", "root")]),), {})
    # -- join trees
    t, o, i = (("self", prop_head(ctx, tree, x) or y) for x, y in (("base_table", "table"), ("outer_child", "outer"), ("inner_child", "inner")))
    join = {("n", t): True, ("t", t): False, **{("n", x): False for x in (o, i)}}
    scan = {("n", t): False, **{("n", x): True for x in (o, i)}, **{("t", x): False for x in (o, i)}}
    both = (("outer input", [o]), ("inner input", [i]))
    for name, extra in {"tables": (), "itertables": (), "iternodes": (me,), "iterjoins": (me,), "plan_depth": (), "inspect": (), "__json__": ()}.items():
        reach(ctx, tree, name, both + extra, join)
    for name, extra in {"tables": ("table", [t]), "itertables": ("table", [t]), "iternodes": me, "inspect": ("table", [t]), "__json__": ("table", [t])}.items():
        reach(ctx, tree, name, (extra,), scan)
    reach(ctx, tree, "__len__", both, join)
    search(ctx, tree, "lookup", {"outer input": o, "inner input": i}, join)
    ctx.rep.require("reach", 45)
    ctx.rep.require("search", 6)
    ctx.rep.require("shape", 6)


def prop_path(ctx: Ctx, cls: ClassInfo, name: str) -> Optional[tuple]:
    f = cls.find(name)
    run = Run(ctx, f, cls) if f is not None else None
    ps = {o.v.path for o in run.returns if o.v is not None and o.v.path is not None} if run else set()
    return ps.pop() if len(ps) == 1 else None


TEXTS = {"inspect", "explain", "ast"}  # the parts of a text are tested for emptiness


def reach(ctx: Ctx, c: ClassInfo, name: str, want, facts, force=()):
    f = c.find(name)
    key = f"{c.name}.{name}"
    if f is None:
        raise LookupError(f"{key} not found")
    run = Run(ctx, f, c, facts=facts)
    if not run.ok:
        return ctx.rep.skip("reach", key)
    outs = run.returns
    if force:
        outs = [o for o in outs if o.v is None or not is_const(o.v) and o.v.src] or outs
    if name in ("tables", "columns") and any(o.v is not None and o.v.calls & {"opBitAnd", "opSub", "opBitXor", "intersection", "difference"} for o in outs):
        ctx.rep.fail("reach", f"{key}:combine", f"{f.qual}() does not contain everything that its parts contain", f.loc())
    for label, paths in want:
        ctx.rep.ok("reach", f"{key}:{label}")
        for o in outs:
            if o.v is None or not any(any(q[:len(p)] == p for q in o.v.must) or any(p[:k] in o.v.whole for k in range(2, len(p) + 1)) or
                                      (p == ("self",) or name in TEXTS) and any(q[:len(p)] == p for q in o.v.src) for p in paths):
                if all(o.s.nullish(p) for p in paths):
                    continue
                ctx.rep.fail("reach", f"{key}:{label}", f"{f.qual}() does not consider the {label}", f.loc())
                break
        else:
            part = [p for o in outs for p in paths if o.v is not None and p[-1] == "*" and not covered(V(must=o.v.must, whole=o.v.whole - {("self",)}), p) and not o.s.nullish(p[:-1])]
            if part and name not in ("lookup", "find_first_node"):
                ctx.rep.fail("reach", f"{key}:{label}", f"{f.qual}() does not consider all of the {label}", f.loc())


def search(ctx: Ctx, c: ClassInfo, name: str, where: dict, facts):
    """A search visits every part and returns what it finds there."""
    f = c.find(name)
    run = Run(ctx, f, c, facts=facts)
    evs = [e for e, _ in run.log(name)]
    for label, p in where.items():
        ctx.rep.ok("search", f"{c.name}.{name}:{label}")
        seen = [e for e in evs if e.recv is not None and any(q[:len(p)] == p for q in e.recv.src)]
        if not seen:
            ctx.rep.fail("search", f"{c.name}.{name}:{label}", f"{f.qual}() does not search the {label}", f.loc())
        elif not any(o.v is not None and name in o.v.calls and any(q[:len(p)] == p for q in o.v.src) for o in run.returns):
            ctx.rep.fail("search", f"{c.name}.{name}:{label}", f"{f.qual}() does not return what it finds in the {label}", f.loc())
    if not any(o.v is not None and o.v.path == ("self",) for o in run.returns):
        ctx.rep.fail("search", f"{c.name}.{name}:self", f"{f.qual}() never finds the node itself", f.loc())
    forwards(ctx, "forwards", run, lambda e: e.fi is not None and e.fi.name == name, f"{c.name}.{name}")
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and never_repeats(n):
            ctx.rep.fail("search", f"{c.name}.{name}:all", f"{f.qual}() never gets beyond the first of several candidates", f"{f.module.rel}:{n.lineno}")
    first = [a.arg for a in f.all_params()][1]
    for e in evs:
        v = e.m.get(0, arg(e, first))
        ctx.rep.ok("search", f"{c.name}.{name}:needle")
        if v is not None and v.src and not any(q[0] == first for q in v.src):
            ctx.rep.fail("search", f"{c.name}.{name}:needle", f"{f.qual}() searches for something else below the root", f.loc())


def direction(ctx: Ctx, plan: ClassInfo, children):
    f = plan.find("find_first_node")
    if "direction" not in f.arg_names() and "direction" not in {a.arg for a in f.all_params()}:
        return
    rev = {}
    for d in ("outer", "inner"):
        run = Run(ctx, f, plan, facts={("e", ("direction",), x): x == d for x in ("outer", "inner")})
        rev[d] = any(e.m.get(0) is not None and any(q[:2] == children for q in e.m[0].src) for e, _ in run.log("@reversed"))
    ctx.rep.ok("search", "direction")
    if rev["outer"] and not rev["inner"]:
        ctx.rep.fail("search", "find_first_node:direction", f"{f.qual}(direction='outer') starts with the inner input", f.loc())


SHAPES = {"is_linear": (False, ("outer_child", "inner_child")), "is_bushy": (True, ()), "is_left_deep": (False, ("inner_child",)),
          "is_right_deep": (False, ("outer_child",))}


def shapes(ctx: Ctx, plan: ClassInfo, children, nested):
    """The shape of a plan is determined by all of its joins."""
    op = ("self", prop_head(ctx, plan, "operator"))
    for name, (exists, need) in SHAPES.items():
        f = plan.find(name)
        for k in ("JoinOperator", "IntermediateOperator"):
            run = Run(ctx, f, plan, facts={("T", op): frozenset({ctx.prog.cls(k).qual}), ("n", op): False, ("t", op): True})
            for o in run.returns:
                ctx.rep.ok("shape", f"{name}:{k}")
                if is_const(o.v) and o.v.shape[1] is exists:
                    continue
                if not any(q[:2] == children for q in o.v.src):
                    ctx.rep.fail("shape", name, f"{f.qual}() is decided without the joins below the node", f.loc())
            if k == "JoinOperator":
                seen = {e.recv.path for e, _, _ in run.it.log if e.name == "find_first_node" and e.recv is not None and e.recv.path is not None}
                for x in need:
                    ctx.rep.ok("shape", f"{name}:{x}")
                    r = Run(ctx, plan.find(x), plan)
                    ps = {o.v.path for o in r.returns if o.v is not None and o.v.path is not None}
                    if seen and not seen & ps:
                        ctx.rep.fail("shape", f"{name}:{x}", f"{f.qual}() does not inspect the {x} of a join", f.loc())
