"""B01 and B02: optimizer decisions are translated into hints of the database systems."""
from __future__ import annotations

import ast
from typing import Optional

from .flow import *

OPS, PARAMS, ORDER = "physical_operators", "plan_parameters", "join_order"
# container -> (parts of the entries that have to be part of the hint)
CONTAINERS = {
    OPS: {"scan_operators": ("operator", "tables"), "join_operators": ("operator", "tables"),
          "intermediate_operators": ("value", "tables"), "global_settings": ("key", "value")},
    PARAMS: {"cardinalities": ("value", "tables"), "parallel_workers": ("value", "tables"), "system_settings": ("key", "value")},
}
CLASSES = {OPS: "PhysicalOperatorAssignment", PARAMS: "PlanParameterization", ORDER: "JoinTree", "plan": "QueryPlan"}
WARN = {"warn"}
FINAL = {"add_clause", "add_clauses", "replace_clause"}
ADDS = {"append", "add", "extend", "insert", "@extend", "@union", "appendleft", "@yield", "@setitem"}


def services(ctx: Ctx):
    """All hint services with their backends."""
    base = ctx.prog.cls("HintService")
    for c in ctx.prog.subclasses(base):
        f = c.find("generate_hints")
        if f is None or f.cls is base or not {OPS, PARAMS, ORDER, "plan"} <= {a.arg for a in f.all_params()}:
            continue
        backends = [None]
        if any(isinstance(n, ast.Constant) and n.value == "pg_lab" for n in ast.walk(f.node)):
            backends = ["pg_hint_plan", "pg_lab"]
        for b in backends:
            yield c, f, b


def hint_run(ctx: Ctx, c, f, backend, active: set[str], facts=None, attrs=None, **kw) -> Run:
    args = {}
    fx = dict(facts or {})
    for p, k in CLASSES.items():
        if p in active:
            args[p] = ctx.prog.cls(k)
            fx[("n", (p,))] = False
            fx[("t", (p,))] = True
        else:
            args[p] = const(None)
    at = dict(attrs or {})
    if backend is not None:
        for n in ("backend", "_backend"):
            at[(("self",), n)] = const(backend)
    inline = lambda it, g, r: g.module.name == c.module.name and (g.cls is None or g.cls is c or g.cls.name == "HintParts" or g.outer is not None) and not _recursive(g) and not _checks(g)
    return Run(ctx, f, c, args=args, facts=fx, attrs=at, inline=inline, cap=200, call_cap=100, max_steps=400000, **kw)


def _recursive(g: FuncInfo) -> bool:
    return any(isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == g.name for n in ast.walk(g.node))


def _checks(g: FuncInfo) -> bool:
    return g.name.startswith("_assert")


def texts(it: Interp, events, p: str, container: str):
    """Values that are collected."""
    for e in events:
        short = e.name.split(".")[-1]
        if short in ADDS or e.cls is not None:
            for v in (e.m or {}).values():
                if isinstance(v, V) and any(x[:2] == (p, container) for x in v.src):
                    yield v


def warned(events) -> bool:
    return any(e.name.split(".")[-1] in WARN for e in events)


def check_B01(ctx: Ctx):
    hint_parts(ctx)
    formats(ctx)
    rep = ctx.rep
    n = 0
    for c, f, b in services(ctx):
        n += 1
        sys = c.name.removesuffix("HintService") + (f":{b}" if b else "")
        for p, conts in CONTAINERS.items():
            for cont, parts in conts.items():
                collected(ctx, c, f, b, sys, p, cont, parts)
        other(ctx, c, f, b, sys)
    rep.require("decision", 20)


def collected(ctx, c, f, b, sys, p, cont, parts):
    """Each entry of a container of decisions ends up in the hints, or leads to a warning or an error."""
    rep = ctx.rep
    label = f"{sys}:{cont}"
    run = hint_run(ctx, c, f, b, {p}, facts={("t", (p, cont)): True}, iterations=True)
    if not run.ok:
        rep.skip("decision", label)
        return
    rep.ok("decision", label)
    seen = False
    for n, it, elem, s, ends, g in run.it.iterations:
        if it.path is None or it.path[:2] != (p, cont) or len(it.path) > 3:
            continue
        src = [x for x in elem.src | ({elem.path} if elem.path is not None else set()) if x and x[:2] == (p, cont)]
        if not src or not any(len(x) == 3 for x in src):
            continue
        later = any(x[-1].endswith("'") for x in src)
        for k, v, s2 in ends:
            old_events = {id(x) for x in s.events}
            events = [x for x in s2.events if id(x) not in old_events]
            here = f"{label}:{'later ' if later else ''}entry"
            if k == "raise":
                seen = True
                continue
            vals = [x for x in texts(run.it, events, p, cont)]
            mine = [x for x in vals if any(len(q) > 2 and q[:2] == (p, cont) and q[2].endswith("'") == later for q in x.src)]
            chosen = {q for q in s2.tested - s.tested if q[:2] == (p, cont) and len(q) > 2} | {kk[1] for kk in set(s2.facts) - set(s.facts) if len(kk) > 1 and isinstance(kk[1], tuple) and kk[1][:2] == (p, cont) and len(kk[1]) > 2}
            if not mine and chosen and any(e.name.split(".")[-1] in ADDS for e in events):
                mine = [V(chosen)]  # the entry selects a constant text
            bad = _invalid(s2.facts, p, cont, later)
            if cont == "cardinalities" and mine and bad:
                rep.fail("entry", f"{label}:invalid", f"{g.qual} emits invalid cardinalities for {sys}", f"{g.module.rel}:{n.lineno}")
            if not mine:
                if cont == "cardinalities" and not bad and _valid(s2.facts, p, cont) and sys in KEYWORDS and cont in KEYWORDS[sys]:
                    rep.fail("entry", f"{label}:valid", f"{g.qual} loses valid cardinalities for {sys}", f"{g.module.rel}:{n.lineno}")
                if warned(events):
                    seen = True
                    continue
                if bad:
                    continue
                rep.ok("entry", label)
                rep.fail("entry", label, f"{g.qual} loses entries of {cont} for {sys}", f"{g.module.rel}:{n.lineno}")
                continue
            seen = True
            rep.ok("entry", label)
            srcs = {q for x in mine for q in x.src}
            used = {q for q in srcs if q[:2] == (p, cont)} | {q for q in s2.tested if q[:2] == (p, cont)} | {kk[1] for kk in s2.facts if len(kk) > 1 and isinstance(kk[1], tuple) and kk[1][:2] == (p, cont)}
            foreign = {q[:2] for q in srcs if q[0] in CONTAINERS and len(q) > 1 and q[:2] != (p, cont) and q[1] in CONTAINERS[q[0]]}
            old = {q for q in srcs if len(q) > 2 and q[:2] == (p, cont) and q[2].endswith("'") != later} if later else set()
            for part in parts:
                if part == "tables":
                    ok = any("identifier()" in q for q in srcs)
                    if not ok:
                        rep.fail("tables", label, f"{g.qual} does not denote the tables of {cont} by their identifiers for {sys}", f"{g.module.rel}:{n.lineno}")
                elif part == "operator":
                    if not any("operator" in q for q in used):
                        rep.fail("entry", f"{label}:operator", f"{g.qual} ignores the operator of {cont} for {sys}", f"{g.module.rel}:{n.lineno}")
                elif part == "value":
                    if not any(len(q) > 2 and q[2].rstrip("'") == "*" for q in used):
                        rep.fail("entry", f"{label}:value", f"{g.qual} ignores the values of {cont} for {sys}", f"{g.module.rel}:{n.lineno}")
                elif part == "key":
                    if not any(len(q) > 2 and q[2].rstrip("'") == "*k" for q in used):
                        rep.fail("entry", f"{label}:key", f"{g.qual} ignores the names in {cont} for {sys}", f"{g.module.rel}:{n.lineno}")
            if foreign or old and not any(q for q in srcs if len(q) > 2 and q[2].endswith("'")):
                rep.fail("pairing", label, f"{g.qual} mixes entries of {cont} and {sorted(foreign)} for {sys}", f"{g.module.rel}:{n.lineno}")
    if p == PARAMS and cont == "system_settings" or cont == "global_settings":
        slots(ctx, run, f, sys)
    # all hints reach the query
    final = [v for e, fa, _ in run.it.log if e.name == "add_clause" for v in e.m.values() if isinstance(v, V)]
    reaches = any(any(q[:2] == (p, cont) for q in run.it.mat(v, o.s).src) for o in run.returns for v in [o.v] if v is not None)
    used = any(any(q[:2] == (p, cont) for q in v.src) for v in final)
    refused = not run.returns or any(o.kind == "raise" and (o.s.facts.get(("t", (p, cont))) is True) for o in run.outs)
    told = any(e.name.split(".")[-1] in WARN and fa.get(("t", (p, cont))) is True for e, fa, _ in run.it.log)
    if not (used or reaches) and not refused and not told:
        rep.fail("decision", label, f"{f.qual} does not enforce {cont} for {sys}", f.loc())
    elif not (used or reaches) and seen and not refused and not told and not any(k == "raise" for *_, ends, _ in run.it.iterations for k, _, _ in ends):
        rep.fail("decision", f"{label}:unused", f"{f.qual} does not use the hints for {cont} for {sys}", f.loc())
    if cont in ("scan_operators", "join_operators"):
        rep.ok("workers", label)
        hinted = any(any(q[:2] == (p, cont) and q[-1] == "parallel_workers" for q in v.src) for v in final)
        told = any(e.name.split(".")[-1] in WARN and any(q[:2] == (p, cont) and q[-1] == "parallel_workers" for q in tested) for e, _, tested in run.it.log)
        refused = any(o.kind == "raise" and any(q[:2] == (p, cont) and q[-1] == "parallel_workers" for q in o.s.tested) for o in run.outs)
        if not hinted and not told and not refused:
            rep.fail("workers", label, f"{f.qual} ignores the parallel workers of {cont} for {sys}", f.loc())


def _invalid(facts, p, cont, later) -> bool:
    """Is the entry of a loop iteration without a meaningful value?"""
    for k, t in facts.items():
        if len(k) < 2 or not isinstance(k[1], tuple) or k[1][:2] != (p, cont):
            continue
        last = k[1][-1]
        if k[0] == "t" and (last in ("isnan()", "isinf()") and t is True or last == "is_valid()" and t is False):
            return True
        if cont == "parallel_workers" and k[0] not in ("t", "n"):
            return True
    return False


def _valid(facts, p, cont) -> bool:
    known = {k[1][-1]: t for k, t in facts.items() if k[0] == "t" and isinstance(k[1], tuple) and k[1][:2] == (p, cont)}
    return known.get("is_valid()") is True or known.get("isnan()") is False and known.get("isinf()") is False


def other(ctx, c, f, b, sys):
    """Join orders and complete plans."""
    rep = ctx.rep
    # the join order reaches the hint and denotes the tables by their identifiers
    run = hint_run(ctx, c, f, b, {ORDER}, facts={("t", (ORDER,)): True})
    if run.ok and run.returns:
        rep.ok("order", sys)
        hinted = [v for e, _, _ in run.it.log if e.name in FINAL or e.cls is not None for v in e.m.values() if isinstance(v, V) and (v.strs or v.calls) and any(q[0] == ORDER for q in v.src)]
        if not hinted:
            rep.fail("order", sys, f"{f.qual} does not enforce the join order for {sys}", f.loc())
        walkers(ctx, c, run, sys)
        large, sizes = False, False
        for o in run.returns:
            size = [_large(k, x) for k, x in o.s.facts.items() if k[0] == "cmp" and len(k) == 5 and any(q[:1] == (ORDER,) and q[-1] == "len()" for q in k[2] | k[3])]
            sizes = sizes or bool(size)
            if any(e.name in FINAL and any(q[:1] == (ORDER,) for v in e.m.values() if isinstance(v, V) for q in v.src) for e in o.s.events) and (not size or all(size)):
                large = True
        if sizes and not large:
            rep.fail("order", f"{sys}:size", f"{f.qual} does not enforce the order of large joins for {sys}", f.loc())
        sized_orders(ctx, c, f, b, sys)
        slots(ctx, run, f, sys)
        # a list of tables cannot represent bushy orders
        for o in run.returns:
            flat = any(e.name in FINAL and any(q[:2] == (ORDER, "itertables()") or q[:2] == (ORDER, "tables()") for v in e.m.values() if isinstance(v, V) for q in v.src) for e in o.s.events)
            if flat:
                rep.ok("order", f"{sys}:shape")
                if not any(k[0] == "t" and isinstance(k[1], tuple) and k[1][:1] == (ORDER,) and "linear" in k[1][-1] and t for k, t in o.s.facts.items()):
                    rep.fail("order", f"{sys}:shape", f"{f.qual} writes the tables of join orders that are not linear for {sys}", f.loc())
    else:
        rep.skip("order", sys)
    run = hint_run(ctx, c, f, b, {PARAMS}, facts={("n", (PARAMS, "execution_mode")): False, ("t", (PARAMS,)): True})
    if run.ok and run.returns:
        rep.ok("mode", sys)
        told = any(e.name.split(".")[-1] in WARN and (PARAMS, "execution_mode") in tested for e, fa, tested in run.it.log)
        plain = hint_run(ctx, c, f, b, {PARAMS}, facts={("n", (PARAMS, "execution_mode")): True, ("t", (PARAMS,)): True})

        def strs(r):
            return {x for e, _, _ in r.it.log if e.name in FINAL for v in e.m.values() if isinstance(v, V) for x in v.strs}
        hinted = any((PARAMS, "execution_mode") in v.src for e, _, _ in run.it.log if e.name in FINAL for v in e.m.values() if isinstance(v, V)) or strs(run) - strs(plain)
        refused = any(o.kind == "raise" and (PARAMS, "execution_mode") in o.s.tested for o in run.outs)
        if not hinted and not refused and not told:
            rep.fail("mode", sys, f"{f.qual} ignores the execution mode for {sys}", f.loc())
    # complete plans
    run = hint_run(ctx, c, f, b, {"plan"}, facts={("t", ("plan",)): True})
    if run.ok and run.returns:
        need = {"order": ("jointree_from_plan", ORDER), "operators": ("operators_from_plan", OPS), "parameters": ("parameters_from_plan", PARAMS)}
        final = [v for e, _, _ in run.it.log if e.name in FINAL for v in e.m.values() if isinstance(v, V)]
        whole = [v for v in final if any(q[0] == "plan" for q in v.src)]
        calls = {x for v in final for x in v.calls}
        converted = [e for e, _, _ in run.it.log if e.name in {n for n, _ in need.values()}]
        if converted:
            for part, (fn, _) in need.items():
                rep.ok("plan", f"{sys}:{part}")
                if not any(e.name == fn for e in converted):
                    rep.fail("plan", f"{sys}:{part}", f"{f.qual} loses the {part} of complete plans for {sys}", f.loc())
        else:
            rep.ok("plan", sys)
            at = {x for v in whole for q in v.src for x in q}
            for x in ("operator", "identifier()", "actual_cardinality", "estimated_cardinality", "parallel_workers"):
                rep.ok("plan", f"{sys}:{x}")
                if x not in at:
                    rep.fail("plan", f"{sys}:{x}", f"{f.qual} does not enforce the {x} of complete plans for {sys}", f.loc())
            walkers(ctx, c, run, sys)
        slots(ctx, run, f, sys)
    else:
        rep.skip("plan", sys)
    # a plan and individual decisions exclude each other
    for p in (ORDER, OPS, PARAMS):
        run = hint_run(ctx, c, f, b, {"plan", p}, facts={("t", ("plan",)): True, ("t", (p,)): True})
        rep.ok("both", f"{sys}:{p}")
        if run.ok and run.returns:
            rep.fail("both", f"{sys}:{p}", f"{f.qual} accepts a complete plan together with {p} for {sys} and has to drop one of them", f.loc())
    # nothing is returned before the hints have been added
    for p, conts in CONTAINERS.items():
        for cont in conts:
            run = hint_run(ctx, c, f, b, {p}, facts={("t", (p, cont)): True, ("t", (p,)): True}, quantify=True)
            if not run.ok:
                continue
            rep.ok("attached", f"{sys}:{cont}:any")
            if run.returns and not any(q[:2] == (p, cont) for o in run.returns for q in run.it.mat(o.v, o.s).src) and not any(
                    o.kind == "raise" and any(q[:2] == (p, cont) for q in o.s.tested) for o in run.outs) and not any(
                    e.name.split(".")[-1] in WARN and any(q[:2] == (p, cont) for q in tested) for e, _, tested in run.it.log) and not (
                    _strs(run) - _strs(hint_run(ctx, c, f, b, {p}, attrs={((p,), cont): V(shape=("dict", {}, True))}, facts={("t", (p,)): True}, quantify=True))):
                rep.fail("attached", f"{sys}:{cont}", f"{f.qual} drops the hints for {cont} for {sys}", f.loc())
            # hints are part of the query that is returned if there are any
            made = [(o, [t for k, t in o.s.facts.items() if k[0] == "b"]) for o in run.returns if any(True for _ in texts(run.it, o.s.events, p, cont))]
            kept = [t for o, t in made if any(q[:2] == (p, cont) for q in run.it.mat(o.v, o.s).src)]
            rep.ok("attached", f"{sys}:{cont}")
            if made and all(t and t[-1] is False for t in kept):
                rep.fail("attached", f"{sys}:{cont}", f"{f.qual} drops the hints for {cont} for {sys}", f.loc())
            for o in run.returns:
                rep.ok("early", f"{sys}:{cont}")
                if not warned(o.s.events) and not any(True for _ in texts(run.it, o.s.events, p, cont)) and not any(q[:2] == (p, cont) and len(q) > 2 for q in o.s.tested):
                    rep.fail("early", f"{sys}:{cont}", f"{f.qual} returns queries without the hints for {cont} for {sys}", f.loc())


MARKERS = {"Postgres:pg_hint_plan": ("/*+",), "Postgres:pg_lab": ("/*=pg_lab=", "Config(plan_mode="), "DuckDB": ("/*=quack_lab=",), "Mysql": ("/*+",)}


def _strs(run: Run) -> set:
    return {x for o in run.returns for x in run.it.mat(o.v, o.s).strs}


def formats(ctx: Ctx):
    """Formatting a query for a system prints that query, clauses are only exchanged for their variants of the system if the query has them."""
    rep = ctx.rep
    base = ctx.prog.cls("HintService")
    for c in ctx.prog.subclasses(base):
        for name in ("format_query", "generate_hints"):
            f = c.find(name)
            if f is None or f.cls is base or f.abstract:
                continue
            p = [a.arg for a in f.all_params()][1]
            none = {a.arg: const(None) for a in f.all_params()[2:]}
            clauses = {"explain": "is_explain", "limit_clause": None}
            inline = lambda it, g, r: g.module.name == c.module.name and not _recursive(g) and not _checks(g)
            for clause, asks in clauses.items():
                for given in (False, True):
                    x = pathv((p, clause)) if given else const(None)
                    fx = {("t", (p, clause)): True, ("n", (p, clause)): False} if given else {}
                    r = Run(ctx, f, c, args=none, facts=fx, attrs={((p,), k): x if k == clause else const(None) for k in clauses}, inline=inline, cap=200, call_cap=100,
                            results=lambda it, nm, recv, args, kwargs, st: [(const(given and nm == asks), st)] if nm in clauses.values() and recv is not None else None)
                    label = f"{c.name}:{name}:{clause}:{given}"
                    if not r.ok or not r.returns:
                        rep.skip("format", label)
                        continue
                    rep.ok("format", label)
                    kind = "Explain" if clause == "explain" else "Limit"
                    for o in r.returns:
                        built = [e for e in o.s.events if e.cls is not None and kind in e.cls.name and e.cls.module.name == c.module.name or e.cls is not None and kind in e.cls.name and "Postgres" in e.cls.name]
                        if not given and built:
                            rep.fail("format", label, f"{f.qual} adds {clause} to queries without it", f.loc())
                        for e in built:
                            if given and not any(isinstance(v, V) and (v.path == (p, clause) or (p, clause) in {q[:2] for q in v.src}) for v in e.m.values()):
                                rep.fail("format", label, f"{f.qual} does not keep {clause}", f.loc())
                        if not any(q[0] == p for q in r.it.mat(o.v, o.s).src):
                            rep.fail("format", label, f"{f.qual} loses the query", f.loc())
                        if name == "format_query" and not any(e.name.startswith("format") for e in o.s.events):
                            rep.fail("format", label, f"{f.qual} does not format the query", f.loc())
                    # the clause is exchanged by the variant of the system on some path
                    if given and any(isinstance(n, ast.Name) and kind in n.id for g in [f] for n in ast.walk(g.node)) and not any(
                            any(q[:2] == (p, clause) for q in r.it.mat(o.v, o.s).src) or any(e.cls is not None and kind in e.cls.name for e in o.s.events) for o in r.returns):
                        rep.fail("format", f"{label}:variant", f"{f.qual} never uses the variant of {clause}", f.loc())


SMALLEST = {"DuckDB": 3}  # (a single join has no direction that could be enforced)


def sized_orders(ctx: Ctx, c, f, b, sys):
    """Join orders of every size are enforced."""
    rep = ctx.rep
    for n in (2, 3, 4):
        if n < SMALLEST.get(sys, 2):
            continue

        def size(it, name, recv, args, kwargs, st, n=n):
            x = args[0] if name == "len" and args else recv
            if x is None or x.path is None or x.path[:1] != (ORDER,) or len(x.path) > 2:
                return None
            if name == "len":
                return [(const(n), st)]
            return [(const(name in ("is_join", "is_linear")), st)] if len(x.path) == 1 and name in ("is_scan", "is_join", "is_empty", "is_linear") else None
        run = hint_run(ctx, c, f, b, {ORDER}, facts={("t", (ORDER,)): True}, results=size)
        key = f"{sys}:tables:{n}"
        if not run.ok or not run.returns:
            rep.skip("order", key)
            continue
        rep.ok("order", key)
        if not any(any(e.name in FINAL and any(q[:1] == (ORDER,) for v in e.m.values() if isinstance(v, V) for q in v.src) for e in o.s.events) for o in run.returns):
            rep.fail("order", key, f"{f.qual} does not enforce the order of {n} tables for {sys}", f.loc())


def _large(k, truth) -> bool:
    """Does a comparison with the size of a join order hold for large joins?"""
    op = k[1] if any(q[-1] == "len()" for q in k[2]) else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(k[1], k[1])
    return truth if op in (">", ">=", "!=") else not truth


def slots(ctx, run: Run, f, sys):
    """Settings are statements in front of the query, everything else is part of a hint block with the markers of the system."""
    rep = ctx.rep
    for e, facts in run.constructed("Hint"):
        prep, block = e.m.get("preparatory_statements"), e.m.get("query_hints")
        for slot, v in (("prep", prep), ("block", block)):
            if v is None or not v.src:
                continue
            rep.ok("slot", f"{sys}:{slot}")
            if slot == "prep":
                if any("/*" in x for x in v.strs if isinstance(x, str)):
                    rep.fail("slot", f"{sys}:prep", f"{f.qual} emits the hint block as preparatory statements for {sys}", f.loc())
            else:
                text = "\n".join(x for x in v.strs if isinstance(x, str))
                for m in MARKERS.get(sys, ()) + ("*/",):
                    if m not in text:
                        rep.fail("slot", f"{sys}:{m}", f"{f.qual} generates hint blocks without {m} for {sys}", f.loc())
                if sys == "Postgres:pg_lab" and v.src:
                    want = "full" if any(q[0] == "plan" for q in v.src) else "anchored"
                    if f"plan_mode={want}" not in text:
                        rep.fail("slot", f"{sys}:{want}", f"{f.qual} does not use the {want} plan mode for {sys}", f.loc())


def walkers(ctx, c, run: Run, sys):
    """The recursive functions that write a join order put the outer input before the inner input and denote tables by their identifiers."""
    rep = ctx.rep
    done = set()
    for e, _, _ in run.it.log:
        g = e.fi
        if g is None or id(g) in done or g.module.name != c.module.name or g.name.startswith("__") or not _recursive(g):
            continue
        done.add(id(g))
        params = [a for a in g.all_params() if a.arg not in ("self", "cls")]
        if not params:
            continue
        p = params[0].arg
        def given(scan):
            return lambda it, name, recv, args, kwargs, st: [(const(scan if name == "is_scan" else not scan), st)] if name in ("is_scan", "is_join") and recv is not None and recv.path == (p,) else None
        label = f"{sys}:{g.name}"
        for scan in (True, False):
            r = Run(ctx, g, c if g.cls is not None else None, recursion=False, facts={("n", (p,)): False, ("t", (p,)): True}, results=given(scan))
            if not r.ok:
                rep.skip("walk", f"{label}:{scan}")
                continue
            rep.ok("walk", f"{label}:{scan}")
            for o in r.returns:
                v = r.it.mat(o.v, o.s)
                at = {x for q in v.src for x in q}
                found = {x for x in map(role, v.src) if x}
                if scan and found or not scan and at & {"base_table", "table", "identifier()"} and not found:
                    rep.fail("walk", f"{label}:{scan}", f"{g.qual} mistakes {'scans for joins' if scan else 'joins for scans'} for {sys}", g.loc())
                parts = v.shape[1] if v.shape is not None and v.shape[0] in ("fmt", "join", "seq") else ()
                pos = {}
                for i, x in enumerate(parts):
                    if not isinstance(x, V):
                        continue
                    for q in x.src:
                        if role(q):
                            pos.setdefault(role(q), set()).add(i)
                            if g.name not in x.calls and not x.calls:
                                rep.fail("walk", f"{label}:recursion", f"{g.qual} does not write the join order of the inputs for {sys}", g.loc())
                if found & {"outer", "inner"}:
                    for x in ("outer", "inner"):
                        if x not in found:
                            rep.fail("walk", f"{label}:{x}_child", f"{g.qual} loses the {x} input of joins for {sys}", g.loc())
                    if {"outer", "inner"} <= set(pos) and min(pos["outer"]) > max(pos["inner"]):
                        rep.fail("walk", f"{label}:roles", f"{g.qual} swaps the inputs of joins for {sys}", g.loc())
                elif any(q[0] == p for q in v.src) and "identifier()" not in at and at & {"base_table", "table", "['base_table']"}:
                    rep.fail("walk", f"{label}:identifier", f"{g.qual} does not denote tables by their identifiers for {sys}", g.loc())


def role(q) -> Optional[str]:
    """The input of a node that a value stems from."""
    for i, x in enumerate(q):
        if x in ("outer", "outer_child") or x == "children" and q[i + 1:i + 2] == ("0",):
            return "outer"
        if x in ("inner", "inner_child") or x == "children" and q[i + 1:i + 2] == ("1",):
            return "inner"
        if x in ("children", "input_node"):
            return "input"
    return None


# --------------------------------------------------------------------------------------------------------------- B02
# the physical operator that is denoted by each name in the vocabularies of the database systems
NAMES = {
    "NestLoop": {"NestedLoopJoin"}, "HashJoin": {"HashJoin"}, "MergeJoin": {"SortMergeJoin"},
    "SeqScan": {"SequentialScan"}, "IdxScan": {"IndexScan", "IndexOnlyScan"}, "IndexScan": {"IndexScan"}, "IndexOnlyScan": {"IndexOnlyScan", "IndexScan"},
    "BitmapScan": {"BitmapScan"}, "Memoize": {"Memoize"}, "Memo": {"Memoize"}, "Material": {"Materialize"}, "Materialize": {"Materialize"}, "Sort": {"Sort"},
    "enable_nestloop": {"NestedLoopJoin"}, "enable_hashjoin": {"HashJoin"}, "enable_mergejoin": {"SortMergeJoin"}, "enable_seqscan": {"SequentialScan"},
    "enable_indexscan": {"IndexScan"}, "enable_indexonlyscan": {"IndexOnlyScan"}, "enable_bitmapscan": {"BitmapScan"},
    "enable_memoize": {"Memoize"}, "enable_material": {"Materialize"}, "enable_sort": {"Sort"},
    "NO_BNL": {"NestedLoopJoin"}, "BNL": {"HashJoin"}, "NO_INDEX": {"SequentialScan"}, "INDEX": {"IndexScan", "IndexOnlyScan"}, "INDEX_MERGE": {"BitmapScan"},
    "block_nested_loop": {"HashJoin"}, "hash_join": {"HashJoin"},
}
# plan nodes that are recognised as an operator
NODES = {
    "Postgres": {"Nested Loop": "NestedLoopJoin", "Hash Join": "HashJoin", "Merge Join": "SortMergeJoin", "Seq Scan": "SequentialScan", "Index Scan": "IndexScan",
                 "Index Only Scan": "IndexOnlyScan", "Bitmap Heap Scan": "BitmapScan", "Materialize": "Materialize", "Memoize": "Memoize", "Sort": "Sort"},
    "DuckDB": {"HASH_JOIN": "HashJoin"},
}
DUCK_SCANS = {"Sequential Scan": "SequentialScan", "Index Scan": "IndexScan"}
MYSQL_ACCESS = {"eq_ref": "IndexScan", "ref": "IndexScan", "fulltext": "IndexScan", "ref_or_null": "IndexScan", "index_merge": "BitmapScan", "unique_subquery": "IndexScan",
                "index_subquery": "IndexScan", "range": "IndexScan", "index": "IndexScan", "ALL": "SequentialScan"}
MYSQL_JOINS = {None: "NestedLoopJoin", "Block Nested Loop": "NestedLoopJoin", "Batched Key Access": "NestedLoopJoin", "Batched Key Access (unique)": "NestedLoopJoin",
               "hash join": "HashJoin"}
KEYWORDS = {  # system -> decision -> (texts of which one has to be part of the hint)
    "Postgres:pg_hint_plan": {ORDER: {"Leading"}, "cardinalities": {"Rows"}, "parallel_workers": {"Parallel"}, "global_settings": {"Set"}, "system_settings": {"SET", "Set"}},
    "Postgres:pg_lab": {ORDER: {"JoinOrder"}, "cardinalities": {"Card"}, "system_settings": {"SET", "Set"}},
    "DuckDB": {ORDER: {"JoinOrder"}, "cardinalities": {"Card"}, "global_settings": {"Set", "SET"}, "system_settings": {"SET", "Set"}},
    "Mysql": {ORDER: {"JOIN_ORDER"}, "system_settings": {"SET", "Set"}},
}
KINDS = {"ScanOperator": "scan_operators", "JoinOperator": "join_operators", "IntermediateOperator": "intermediate_operators"}


def operators(ctx: Ctx):
    for cn in KINDS:
        cls = ctx.prog.cls(cn)
        for name, node in cls.class_attrs.items():
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                yield cls, name


def enum(cls, name) -> V:
    return V(shape=("enum", cls, name), ty=Ty(frozenset({cls.qual})))


def tokens(strs) -> set[str]:
    import re
    return {w for s in strs if isinstance(s, str) for w in re.findall(r"[A-Za-z_]+", s)}


def emitted(run: Run, p, cont):
    """The literal texts that are collected for the entries of a container, per path (None: the entry is refused or warned about)."""
    out = []
    for n, it, elem, s, ends, g in run.it.iterations:
        if it.path is None or it.path[:2] != (p, cont) or len(it.path) > 3:
            continue
        for k, v, s2 in ends:
            if k == "raise":
                out.append(None)
                continue
            old = {id(x) for x in s.events}
            evs = [e for e in s2.events if id(e) not in old]
            vs = [v for e in evs if e.name.split(".")[-1] in ADDS for v in (e.m or {}).values() if isinstance(v, V)]
            if any("@missing" in run.it.mat(v, s2).calls for v in vs):
                out.append(None)  # a KeyError
                continue
            strs = {x for v in vs for x in run.it.mat(v, s2).strs} | {v.shape[1] for v in vs if is_const(v)}
            if vs:
                out.append(tokens(strs))
            elif warned(evs):
                out.append(None)
            else:
                out.append(set())
    return out


def hint_parts(ctx: Ctx):
    """Combining the parts of hints keeps both parts, parts without any contents are the only ones that are false."""
    rep = ctx.rep
    for c in ctx.prog.classes:
        f = c.find("merge_with")
        if f is None or f.cls is not c or c.module.name not in {g.module.name for x in ctx.prog.subclasses(ctx.prog.cls("HintService")) for g in [x.find("generate_hints")] if g is not None}:
            continue
        ps = [a.arg for a in f.all_params()]
        if len(ps) != 2:
            continue
        run = Run(ctx, f, c)
        for e, facts in run.constructed(c.name):
            for n, v in e.m.items():
                if not isinstance(v, V):
                    continue
                rep.ok("merge", f"{c.module.name}:{n}")
                for q in ps:
                    if (q, n) not in {x[:2] for x in v.src}:
                        rep.fail("merge", f"{c.module.name}:{n}:{q}", f"{f.qual} loses the {n} of {q}", f.loc())
                if any(len(x) > 1 and x[1] != n and x[1] in e.m for x in v.src):
                    rep.fail("merge", f"{c.module.name}:{n}:mixed", f"{f.qual} mixes {n} with other parts", f.loc())
        b = c.find("__bool__")
        names = sorted({n for e, _ in run.constructed(c.name) for n in e.m if isinstance(e.m[n], V)})
        if b is None or b.cls is not c or not names:
            continue
        for n in names:
            r = Run(ctx, b, c, facts={("t", ("self", x)): x == n for x in names})
            rep.ok("merge", f"{c.module.name}:bool:{n}")
            if r.ok and any(is_const(o.v) and not o.v.shape[1] for o in r.returns) or r.ok and r.returns and all(o.v.src and ("self", n) not in o.v.src for o in r.returns):
                rep.fail("merge", f"{c.module.name}:bool:{n}", f"{b.qual} is false although there are {n}", b.loc())


def check_B02(ctx: Ctx):
    rep = ctx.rep
    for c, f, b in services(ctx):
        sys = c.name.removesuffix("HintService") + (f":{b}" if b else "")
        hints, settings = {}, {}
        for cls, name in operators(ctx):
            cont = KINDS[cls.name]
            op = enum(cls, name)
            attrs = {((OPS, cont), "*"): op} if cont == "intermediate_operators" else {((OPS, cont, x), "operator"): op for x in ("*", "*'")}
            hints[name] = names(ctx, c, f, b, sys, cont, name, attrs)
            settings[name] = names(ctx, c, f, b, sys, "global_settings", name, {((OPS, "global_settings"), "*k"): op})
        sup = c.find("supports_hint")
        for cls, name in operators(ctx):
            if sup is None or sup.abstract:
                continue
            r = Run(ctx, sup, c, args={sup.all_params()[1].arg: enum(cls, name)})
            if not r.ok or not r.returns:
                continue
            for o in r.returns:
                t = r.it.truth(o.v, o.s)
                t = declared(r, o) if t is None else t
                if t is None:
                    rep.skip("declared", f"{sys}:{name}")
                    continue
                rep.ok("declared", f"{sys}:{name}")
                if t and not hints.get(name):
                    rep.fail("declared", f"{sys}:{name}", f"{sup.qual} declares support for {name}, but {f.qual} has no hint for it for {sys}", sup.loc())
        for cont, words in KEYWORDS.get(sys, {}).items():
            p = next((q for q, cs in CONTAINERS.items() if cont in cs), ORDER)
            run = hint_run(ctx, c, f, b, {p}, facts={("t", (p,)): True}, iterations=True)
            if not run.ok:
                continue
            rep.ok("keyword", f"{sys}:{cont}")
            if p == ORDER:
                got = [tokens({x for v in e.m.values() if isinstance(v, V) for x in v.strs}) for e, _, _ in run.it.log if e.name in FINAL and any(isinstance(v, V) and any(q[0] == ORDER for q in v.src) for v in e.m.values())]
                bad = bool(got) and not any(words & g for g in got)
            else:
                got = [g for g in emitted(run, p, cont) if g]
                bad = bool(got) and any(not (words & g) for g in got)
            if bad:
                rep.fail("keyword", f"{sys}:{cont}", f"{f.qual} does not request {cont} by {' or '.join(sorted(words))} for {sys}", f.loc())
        # settings enable or disable operators
        for enabled in (True, False):
            run = hint_run(ctx, c, f, b, {OPS}, facts={("t", (OPS, "global_settings")): True, ("t", (OPS,)): True}, attrs={((OPS, "global_settings"), "*"): const(enabled)}, iterations=True)
            for toks in emitted(run, OPS, "global_settings") if run.ok else ():
                rep.ok("setting", f"{sys}:{enabled}")
                if toks is not None and toks & ({"off", "false", "False", "FALSE", "OFF"} if enabled else {"on", "true", "True", "TRUE", "ON"}):
                    rep.fail("setting", f"{sys}:{enabled}", f"{f.qual} {'disables' if enabled else 'enables'} operators that are {'enabled' if enabled else 'disabled'} in the global settings for {sys}", f.loc())
    nodes(ctx)
    rep.require("name", 30)
    rep.require("declared", 15)
    rep.require("node", 10)


def declared(r: Run, o) -> Optional[bool]:
    """The truth of a returned membership test."""
    can = [t for t in (True, False) if r.it.assume(o.v, t, o.s.copy())]
    return can[0] if len(can) == 1 else None


def names(ctx, c, f, b, sys, cont, name, attrs) -> Optional[bool]:
    """Does a system have a name for an operator?"""
    rep = ctx.rep
    run = hint_run(ctx, c, f, b, {OPS}, facts={("t", (OPS, cont)): True, ("t", (OPS,)): True}, attrs=attrs, iterations=True)
    if not run.ok:
        rep.skip("name", f"{sys}:{cont}:{name}")
        return None
    out = False
    for toks in emitted(run, OPS, cont):
        if toks is None:
            continue
        known = {t: NAMES[t] for t in toks if t in NAMES}
        label = f"{sys}:{cont}:{name}"
        rep.ok("name", label)
        wrong = sorted(t for t, ops in known.items() if name not in ops)
        if wrong:
            rep.fail("name", label, f"{f.qual} uses {', '.join(wrong)} for {name} in {cont} for {sys}", f.loc())
        elif not known:
            rep.fail("name", f"{label}:none", f"{f.qual} uses none of the names of {name} for entries of {cont} for {sys}", f.loc())
        else:
            out = True
    return out


def nodes(ctx: Ctx):
    """Plan nodes are recognised as the operator that they execute."""
    rep = ctx.rep

    def built(run: Run, attr):
        return [(e, e.m.get(attr)) for e, _ in run.constructed("QueryPlan")]

    def expect(run, label, want, attr, f):
        if not run.ok:
            rep.skip("node", label)
            return
        got = [v for _, v in built(run, attr)]
        for v in got:
            if v is None or v.shape is None or v.shape[0] not in ("enum", "const"):
                continue
            rep.ok("node", label)
            have = v.shape[2] if v.shape[0] == "enum" else v.shape[1]
            if have != want:
                rep.fail("node", label, f"{f.qual} recognises {label.split(':')[1]} as {have} instead of {want}", f.loc())
    pg = next((k for k in ctx.prog.classes if k.name == "PostgresExplainNode"), None)
    if pg is not None and pg.find("as_qep") is not None:
        f = pg.find("as_qep")
        for node, want in NODES["Postgres"].items():
            expect(Run(ctx, f, pg, attrs={(("self",), "node_type"): const(node)}), f"Postgres:{node}", want, "operator", f)
    f = next((g for g in ctx.prog.functions if g.name == "parse_duckdb_plan"), None)
    if f is not None:
        p = f.all_params()[0].arg
        for node, want in NODES["DuckDB"].items():
            expect(Run(ctx, f, None, attrs={((p,), "['name']"): const(node)}), f"DuckDB:{node}", want, "node_type", f)
        for kind, want in DUCK_SCANS.items():
            for node in ("SEQ_SCAN", "SEQ_SCAN "):
                extra = {((p,), "['name']"): const(node), ((p,), "['extra_info']"): V(shape=("dict", {"Type": const(kind)}))}
                expect(Run(ctx, f, None, attrs=extra, facts={("t", (p, "['name']")): True}), f"DuckDB:{kind}", want, "node_type", f)
    my = next((k for k in ctx.prog.classes if k.name == "MysqlExplainNode"), None)
    if my is None or my.find("as_qep") is None:
        return
    f = my.find("as_qep")
    readers = [g for g in ctx.prog.functions if g.module.name == my.module.name and any(isinstance(n, ast.Constant) and n.value == "access_type" for n in ast.walk(g.node))
               and any(isinstance(n, ast.Call) and ast.unparse(n.func) == my.name for n in ast.walk(g.node))]
    for g in readers:
        p = [a.arg for a in g.all_params()][-1]
        for access, want in MYSQL_ACCESS.items():
            for st in {v.shape[1] for e, _ in Run(ctx, g, None, attrs={((p,), "['access_type']"): const(access)}).constructed(my.name) for v in [e.m.get("scan_type")] if v is not None and is_const(v)}:
                run = Run(ctx, f, my, attrs={(("self",), "scan_type"): const(st), (("self",), "node_type"): const(None), (("self",), "next_node"): const(None)})
                expect(run, f"MySQL:{access}", want, "operator", f)
        for join, want in MYSQL_JOINS.items():
            # the name of the join as it is stored in the plan node
            at = {((p,), "['using_join_buffer']"): const(join)} if join is not None else {}
            r = Run(ctx, g, None, attrs=at, facts={("in", (p,), "using_join_buffer"): join is not None})
            kinds = {v.shape[1] for e, _ in r.constructed(my.name) for v in [e.m.get("join_type")] if v is not None and is_const(v)}
            if join is not None:
                kinds -= {"Nested Loop"}
            for jt in kinds:
                for h in ctx.prog.functions:
                    if h.module.name == my.module.name and h.cls is None and [ast.unparse(a.annotation) for a in h.all_params() if a.annotation is not None] in (["Sequence[MysqlExplainNode]"], ["list[MysqlExplainNode]"]):
                        q = h.all_params()[0].arg
                        final = V(path=("final",), src=frozenset({("final",)}), ty=Ty(frozenset({my.qual})))
                        rr = Run(ctx, h, None, args={q: V(shape=("seq", [final, V(path=("first",), src=frozenset({("first",)}), ty=Ty(frozenset({my.qual})))]))}, attrs={(("final",), "join_type"): const(jt)})
                        if rr.ok:
                            for e, _ in rr.constructed("QueryPlan"):
                                v = e.m.get("operator")
                                if v is not None and v.shape is not None and v.shape[0] == "enum" and v.shape[1].name == "JoinOperator":
                                    rep.ok("node", f"MySQL:{join}")
                                    if v.shape[2] != want:
                                        rep.fail("node", f"MySQL:{join}", f"{h.qual} recognises {join or 'joins without buffer'} as {v.shape[2]} instead of {want}", h.loc())
