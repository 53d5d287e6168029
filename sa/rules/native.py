"""B03: native plans of the database systems are translated into query plans."""
from __future__ import annotations

import ast

from .flow import *

# attribute of the query plan -> keys of the native plan that it has to be computed from (one of each group)
PG = {
    "node_type": [{"Node Type"}], "operator": [{"Node Type"}], "base_table": [{"Relation Name"}, {"Alias"}], "parallel_workers": [{"Workers Launched"}, {"Workers Planned"}],
    "index": [{"Index Name"}], "estimated_cost": [{"Total Cost"}], "estimated_cardinality": [{"Plan Rows"}],
    "actual_cardinality": [{"Actual Rows"}, {"Actual Loops"}], "execution_time": [{"Actual Total Time"}], "cache_hits": [{"Shared Hit Blocks"}],
    "cache_misses": [{"Shared Read Blocks"}], "subplan_name": [{"Subplan Name"}, {"CTE Name"}],
}
MEASURES = {"Total Cost", "Startup Cost", "Plan Rows", "Actual Rows", "Actual Total Time", "Actual Startup Time", "Shared Hit Blocks", "Shared Read Blocks", "Temp Read Blocks",
            "Temp Written Blocks", "Plan Width", "Workers Launched"}
DUCK = {"estimated_cardinality": [{"Estimated Cardinality"}], "actual_cardinality": [{"operator_cardinality"}], "execution_time": [{"operator_timing"}], "children": [{"children"}],
        "node_type": [{"name", "operator_name", "operator_type"}]}
DUCK_MEASURES = {"Estimated Cardinality", "operator_cardinality", "operator_timing"}
MYSQL = {"scan_type": [{"access_type"}], "join_type": [{"using_join_buffer"}], "table": [{"table_name"}], "scan_cost": [{"read_cost"}, {"eval_cost"}], "join_cost": [{"prefix_cost"}],
         "scan_cardinality_estimate": [{"rows_examined_per_scan"}, {"filtered"}], "join_cardinality_estimate": [{"rows_produced_per_join"}],
         "subquery_node": [{"materialized_from_subquery"}]}
MYSQL_MEASURES = {"read_cost", "eval_cost", "prefix_cost", "rows_examined_per_scan", "filtered", "rows_produced_per_join"}
MYSQL_SCAN = {"node_type": "scan_type", "base_table": "table", "operator": "scan_type", "estimated_cost": "scan_cost", "estimated_cardinality": "scan_cardinality_estimate"}
MYSQL_JOIN = {"node_type": "join_type", "operator": "join_type", "estimated_cost": "join_cost", "estimated_cardinality": "join_cardinality_estimate"}


# attributes of the nodes of Postgres plans (only those that exist are checked)
PG_NODE = {
    "node_type": {"Node Type"}, "cost": {"Total Cost"}, "cardinality_estimate": {"Plan Rows"}, "execution_time": {"Actual Total Time"}, "loops": {"Actual Loops"},
    "relation_name": {"Relation Name"}, "relation_alias": {"Alias"}, "index_name": {"Index Name"}, "subplan_name": {"Subplan Name"}, "cte_name": {"CTE Name"},
    "filter_condition": {"Filter"}, "index_condition": {"Index Cond"}, "join_filter": {"Join Filter"}, "hash_condition": {"Hash Cond"}, "recheck_condition": {"Recheck Cond"},
    "parent_relationship": {"Parent Relationship"}, "launched_workers": {"Workers Launched"}, "planned_workers": {"Workers Planned"}, "sort_keys": {"Sort Key"},
    "shared_blocks_read": {"Shared Read Blocks"}, "shared_blocks_cached": {"Shared Hit Blocks"}, "temp_blocks_read": {"Temp Read Blocks"},
    "temp_blocks_written": {"Temp Written Blocks"}, "plan_width": {"Plan Width"}, "children": {"Plans"},
}


def keys(paths) -> set[str]:
    return {x[1:-1].strip("'\"") for p in paths for x in p if x[:1] == "["}


def check_B03(ctx: Ctx):
    postgres(ctx)
    duckdb(ctx)
    mysql(ctx)
    entry(ctx)
    ctx.rep.require("measure", 20)
    ctx.rep.require("children", 4)


def compare(ctx, sys, table, measures, got: dict, f, where=""):
    """got: attribute -> keys"""
    rep = ctx.rep
    for attr, groups in table.items():
        if attr not in got:
            rep.ok("measure", f"{sys}:{attr}")
            rep.fail("measure", f"{sys}:{attr}", f"{f.qual} does not set {attr} of the plan", f.loc())
            continue
        have = got[attr]
        rep.ok("measure", f"{sys}:{attr}")
        lost = [g for g in groups if not (g & have)]
        if lost:
            rep.fail("measure", f"{sys}:{attr}", f"{f.qual} does not use {' and '.join('/'.join(sorted(g)) for g in lost)} for {attr}", f.loc())
        wrong = (have & measures) - {x for g in groups for x in g}
        if wrong:
            rep.fail("mixed", f"{sys}:{attr}", f"{f.qual} uses {', '.join(sorted(wrong))} for {attr}", f.loc())


def stored(ctx, cls, init) -> dict[str, set[str]]:
    """attribute -> keys of the native plan"""
    out: dict[str, set[str]] = {}
    me = init.all_params()[0].arg
    run = Run(ctx, init, cls)
    for o in run.outs:
        for (root, name), v in o.s.attrs.items():
            if root == (me,):
                out.setdefault(name, set()).update(keys(run.it.mat(v, o.s).src))
    return out


def postgres(ctx: Ctx):
    rep = ctx.rep
    cls = next((k for k in ctx.prog.classes if k.name == "PostgresExplainNode"), None)
    if cls is None or cls.find("as_qep") is None or cls.find("__init__") is None:
        rep.skip("measure", "Postgres")
        return
    f = cls.find("as_qep")
    attrs = stored(ctx, cls, cls.find("__init__"))
    run = Run(ctx, f, cls)
    got: dict[str, set[str]] = {}
    per: list[dict[str, set[str]]] = []
    for e, facts in run.constructed("QueryPlan"):
        row = {}
        for a, v in list(e.m.items()) + [(a, v) for a, v in e.kwargs.items() if a not in e.m]:
            if isinstance(v, V):
                src = {x for p in v.src if p[:1] == ("self",) and len(p) > 1 and p[1] != "children" for x in attrs.get(p[1], ())} | keys(p for p in v.src if len(p) > 1 and p[1] not in ("children",))
                row[a] = src
                got.setdefault(a, set()).update(src)
        per.append(row)
    if not per:
        rep.skip("measure", "Postgres")
        return
    compare(ctx, "Postgres", PG, MEASURES, got, f)
    # measures are kept on each path: cost and cardinalities do not depend on other conditions
    for row in per:
        for a in ("node_type", "estimated_cost", "estimated_cardinality", "execution_time"):
            rep.ok("measure", f"Postgres:{a}:path")
            if not (set().union(*PG[a]) & row.get(a, set())):
                rep.fail("measure", f"Postgres:{a}:path", f"{f.qual} does not set {a} on all paths", f.loc())
    for name, want in PG_NODE.items():
        if name not in attrs:
            continue
        rep.ok("measure", f"Postgres:node:{name}")
        have = attrs[name]
        if not (want & have):
            rep.fail("measure", f"Postgres:node:{name}", f"{cls.name}.{name} is not read from {' or '.join(want)}", cls.find("__init__").loc())
        other = have & {k for v in PG_NODE.values() for k in v} - want
        if name != "children" and other:
            rep.fail("mixed", f"Postgres:node:{name}", f"{cls.name}.{name} is read from {', '.join(sorted(other))}", cls.find("__init__").loc())
    # Postgres measures milliseconds, query plans contain seconds
    init = Run(ctx, cls.find("__init__"), cls)
    scaled = [e for r, of in ((init, None), (run, attrs)) for e, _, _ in r.it.log if e.name == "@binop" and e.m["op"] in ("Div", "Mult")
              and "Actual Total Time" in keys(e.m[0].src | e.m[1].src) | {k for x in (0, 1) for q in e.m[x].src if len(q) > 1 for k in attrs.get(q[1], ())}
              and any(is_const(e.m[x]) and e.m[x].shape[1] in ((1000, 1000.0) if e.m["op"] == "Div" else (0.001,)) for x in (0, 1))]
    rep.ok("measure", "Postgres:unit")
    if not scaled:
        rep.fail("measure", "Postgres:unit", f"{f.qual} does not convert the milliseconds of Postgres to seconds", f.loc())
    # estimates of parallel parts are per worker: what they are multiplied with is handed to the inputs, depending on the planned workers
    for g in [h for h in ctx.prog.functions if h.cls is cls and _calls_self(h)]:
        r = Run(ctx, g, cls)
        mine = {a.arg for a in g.all_params()[1:]}
        scale = {q[0] for e, _ in r.constructed("QueryPlan") for v in [e.m.get("estimated_cardinality")] if v is not None for q in v.src} & mine
        calls = [e for e, _, _ in r.it.log if e.name == g.name and e.recv is not None and any(q[:2] == ("self", "children") for q in e.recv.src)]
        for x in scale:
            for e in calls:
                rep.ok("measure", "Postgres:workers")
                if (e.m or {}).get(x) is None and x not in e.kwargs:
                    rep.fail("measure", "Postgres:workers", f"{g.qual} does not hand the adjustment of estimates to the inputs", g.loc())
            if calls and not any("Workers Planned" in attrs.get(q[1], ()) for e in calls for v in [(e.m or {}).get(x)] if v is not None for q in v.src if len(q) > 1):
                rep.fail("measure", "Postgres:workers", f"{g.qual} does not adjust the estimates of parallel parts", g.loc())
    # the actual cardinality is the total of all loops
    node = Ty(frozenset({cls.qual}))

    def child(name):
        return V(path=(name,), src=frozenset({(name,)}), ty=node)

    def relation(rels):
        at = {((n,), "parent_relationship"): const(r) for n, r in rels}
        return {**at, (("self",), "children"): V(shape=("seq", [child(n) for n, _ in rels]))}
    cases = [[("outer", "Outer"), ("inner", "Inner")], [("inner", "Inner"), ("outer", "Outer")], [("outer", "Outer")], [("m1", "Member"), ("m2", "Member")],
             [("outer", "Outer"), ("sub", "SubPlan")], [("outer", "Outer"), ("sub", "InitPlan")], [("sub", "Subquery")], [("sub", "SubPlan"), ("outer", "Outer"), ("inner", "Inner")]]
    for rels in cases:
        def translated(it, nm, recv, args, kwargs, st):
            if recv is not None and recv.path is not None and recv.path[0] in {n for n, _ in rels} and len(recv.path) == 1:
                return [(V(path=("plan " + recv.path[0],), src=frozenset({recv.path}), ty=Ty(frozenset({"postbound._qep.QueryPlan"}))), st)]
            return None
        facts = {k: v for n, _ in rels for k, v in ((("t", ("plan " + n,)), True), (("n", ("plan " + n,)), False))}
        r = Run(ctx, f, cls, attrs=relation(rels), quantify=True, facts=facts, results=translated)
        label = "Postgres:" + "+".join(x for _, x in rels)
        built = r.constructed("QueryPlan")
        if not r.ok or not built:
            rep.skip("children", label)
            continue
        order = sorted((n for n, rel in rels if n != "sub"), key=lambda n: {"outer": 0, "inner": 1}.get(n, 2))
        for e, facts in built:
            if any(facts.get(("t", (n,))) is False for n, _ in rels):
                continue
            ch, sub = e.m.get("children"), e.m.get("subplan_root")
            ch = ch if ch is not None else V()
            rep.ok("children", label)
            have = {q[0] for q in ch.src}
            for n in order:
                if n not in have:
                    rep.fail("children", f"{label}:{n}", f"{f.qual} loses {n} inputs", f.loc())
            if ch.shape is not None and ch.shape[0] == "seq":
                seq = [{q[0] for q in x.src} & set(order) for x in ch.shape[1]]
                flat = [next(iter(x)) for x in seq if len(x) == 1]
                if len(flat) == len(seq) and [x for x in flat if x in ("outer", "inner")] != [x for x in order if x in ("outer", "inner")]:
                    rep.fail("children", f"{label}:order", f"{f.qual} swaps the outer and the inner input", f.loc())
                if len(flat) != len(set(flat)):
                    rep.fail("children", f"{label}:twice", f"{f.qual} uses an input twice", f.loc())
            if "sub" in {n for n, _ in rels} and "sub" not in have and (sub is None or "sub" not in {q[0] for q in sub.src}):
                rep.fail("children", f"{label}:subplan", f"{f.qual} loses subplans", f.loc())
            if sub is not None and {q[0] for q in sub.src} & set(order):
                rep.fail("children", f"{label}:role", f"{f.qual} uses an input as subplan", f.loc())


def duckdb(ctx: Ctx):
    rep = ctx.rep
    f = next((g for g in ctx.prog.functions if g.name == "parse_duckdb_plan"), None)
    if f is None:
        rep.skip("measure", "DuckDB")
        return
    plan = f.all_params()[0].arg
    run = Run(ctx, f, None, args={plan: V(path=(plan,), src=frozenset({(plan,)}), ty=Ty(frozenset({"dict"})))})
    got: dict[str, set[str]] = {}
    calls: dict[str, set[str]] = {}
    for e, facts in run.constructed("QueryPlan"):
        for a, v in e.m.items():
            if isinstance(v, V):
                got.setdefault(a, set()).update(keys(v.src) | ({x for x in v.strs if isinstance(x, str)} if False else set()))
                calls.setdefault(a, set()).update(v.calls)
    if not got:
        rep.skip("measure", "DuckDB")
        return
    compare(ctx, "DuckDB", {k: v for k, v in DUCK.items() if k != "children"}, DUCK_MEASURES, got, f)
    rep.ok("children", "DuckDB")
    if "children" not in got.get("children", set()):
        rep.fail("children", "DuckDB", f"{f.qual} loses the inputs of nodes", f.loc())
    for e, facts, _ in run.it.log:
        if e.name == f.name:
            rep.ok("children", "DuckDB:query")
            q = arg(e, "query")
            if q is None or not any(p[0] == "query" for p in q.src):
                rep.fail("children", "DuckDB:query", f"{f.qual} does not bind the tables of the inputs", f.loc())
    # the runtime of a node includes its inputs, DuckDB reports the nodes individually
    rep.ok("measure", "DuckDB:total")
    if got.get("execution_time") and "children" not in got["execution_time"]:
        rep.fail("measure", "DuckDB:total", f"{f.qual} does not include the inputs in the runtime", f.loc())

    def given(**names):
        at = {((plan,), f"['{k}']"): (const(v) if isinstance(v, str) or v is None else v) for k, v in names.items()}
        return Run(ctx, f, None, args={plan: V(path=(plan,), src=frozenset({(plan,)}), ty=Ty(frozenset({"dict"})))}, attrs=at)
    # nodes that only wrap the plan
    for names in ({"name": None, "operator_name": None}, {"name": "EXPLAIN"}, {"name": None, "operator_name": "EXPLAIN"}, {"name": None, "operator_name": "EXPLAIN_ANALYZE"},
                  {"name": "EXPLAIN_ANALYZE"}):
        r = given(**names)
        label = f"DuckDB:wrapper:{'/'.join(str(x) for x in names.values())}"
        if not r.ok or not r.outs:
            rep.skip("children", label)
            continue
        rep.ok("children", label)
        if r.constructed("QueryPlan") or not any(e.fi is f or e.name == f.name for e, _, _ in r.it.log):
            rep.fail("children", label, f"{f.qual} does not continue with the input of wrapping nodes", f.loc())
    for names in ({"name": "HASH_JOIN"}, {"name": None, "operator_name": "HASH_JOIN"}, {"name": "PROJECTION"}):
        r = given(**names)
        label = f"DuckDB:node:{'/'.join(str(x) for x in names.values())}"
        if not r.ok or not r.outs:
            rep.skip("children", label)
            continue
        rep.ok("children", label)
        if not r.constructed("QueryPlan"):
            rep.fail("children", label, f"{f.qual} does not translate nodes", f.loc())
    # scans are bound to the tables of the query
    if "query" in {a.arg for a in f.all_params()}:
        for q in (True, False):
            r = Run(ctx, f, None, args={plan: V(path=(plan,), src=frozenset({(plan,)}), ty=Ty(frozenset({"dict"}))), **({} if q else {"query": const(None)})},
                    facts={("n", ("query",)): False} if q else {}, attrs={((plan,), "['name']"): const("SEQ_SCAN"), ((plan, "['extra_info']"), "['Type']"): const("Sequential Scan")})
            rep.ok("measure", f"DuckDB:base_table:{q}")
            vs = [e.m.get("base_table") for e, _ in r.constructed("QueryPlan")]
            if r.ok and q and vs and not any(v is not None and any(x[0] == "query" for x in v.src) for v in vs):
                rep.fail("measure", f"DuckDB:base_table:{q}", f"{f.qual} does not bind scans to the tables of the query", f.loc())
            if r.ok and not q and any(e.name.startswith("_bind") or e.fi is not None and any(isinstance(v, V) and is_const(v) and v.shape[1] is None for k, v in e.m.items() if k == "query") and e.fi is not f for e, _, _ in r.it.log):
                rep.fail("measure", f"DuckDB:base_table:{q}", f"{f.qual} needs a query", f.loc())
    if any(("base_table" not in e.m) for e, _ in run.constructed("QueryPlan")):
        rep.fail("measure", "DuckDB:base_table", f"{f.qual} loses the tables of scans", f.loc())


def mysql(ctx: Ctx):
    rep = ctx.rep
    cls = next((k for k in ctx.prog.classes if k.name == "MysqlExplainNode"), None)
    if cls is None or cls.find("as_qep") is None or cls.find("__init__") is None:
        rep.skip("measure", "MySQL")
        return
    init = cls.find("__init__")
    # parameters of the node and its attributes
    run = Run(ctx, init, cls)
    attr_of = {}
    for o in run.outs:
        for (root, name), v in o.s.attrs.items():
            for p in v.src:
                attr_of.setdefault(p[0], set()).add(name)
    readers = [g for g in ctx.prog.functions if g.module.name == cls.module.name and any(isinstance(n, ast.Call) and ast.unparse(n.func) == cls.name for n in ast.walk(g.node))
               and any(isinstance(n, ast.Constant) and n.value == "access_type" for n in ast.walk(g.node))]
    for g in readers:
        data = [a.arg for a in g.all_params()][-1]
        r = Run(ctx, g, None, inline=lambda it, h, rr: h.module.name == cls.module.name and not _loops(h))
        got = {}
        for e, facts in r.constructed(cls.name):
            for a, v in e.m.items():
                if isinstance(v, V):
                    got.setdefault(a, set()).update(keys(v.src))
            for a, v in e.m.items():
                if isinstance(v, V) and a in ("join_type",):
                    got[a] |= {x for q in () for x in q}
        got.setdefault("join_type", set())
        if any(("in", (data,), "using_join_buffer") in fa or "using_join_buffer" in keys(v.src) for e, fa in r.constructed(cls.name) for v in [e.m.get("join_type")] if v is not None):
            got["join_type"].add("using_join_buffer")
        compare(ctx, "MySQL", MYSQL, MYSQL_MEASURES, got, g)
    f = cls.find("as_qep")
    node = Ty(frozenset({cls.qual}))
    mine = [g for g in ctx.prog.functions if g.module.name == cls.module.name]
    # kinds of native nodes
    for g in mine:
        if not {"nested_loop", "table"} <= {n.value for n in ast.walk(g.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)} or g.cls is not None:
            continue
        ps = [a.arg for a in g.all_params()]
        kind = next((a.arg for a in g.all_params() if a.annotation is not None and ast.unparse(a.annotation) == "str"), None)
        if kind is None:
            continue
        target = {}
        for name in ("nested_loop", "table", "grouping_operation"):
            r = Run(ctx, g, None, args={kind: const(name)}, facts={("t", (ps[-1],)): True, ("n", (ps[-1],)): False})
            target[name] = {e.fi for e, _, _ in r.it.log if e.fi is not None and e.fi in mine and e.fi is not g}
        for name, has in (("nested_loop", lambda h: any(isinstance(n, ast.Attribute) and n.attr == "next_node" and isinstance(n.ctx, ast.Store) for n in ast.walk(h.node)) or _loops(h)),
                          ("table", lambda h: any(isinstance(n, ast.Constant) and n.value == "access_type" for n in ast.walk(h.node))),
                          ("grouping_operation", lambda h: any(isinstance(n, ast.keyword) and n.arg == "node_type" for n in ast.walk(h.node)))):
            if not target[name]:
                continue
            rep.ok("children", f"MySQL:kind:{name}")
            if not any(has(h) for h in target[name]):
                rep.fail("children", f"MySQL:kind:{name}", f"{g.qual} does not parse {name} nodes as such", g.loc())
    # all tables of a join, in their order
    for g in mine:
        if g.cls is not None or not any(isinstance(n, ast.Attribute) and n.attr == "next_node" and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
            continue
        p = [a.arg for a in g.all_params()][-1]
        names = ("t1", "t2", "t3")

        def parsed(it, nm, recv, args, kwargs, st):
            for a in list(args) + list(kwargs.values()):
                if a.path is not None and a.path[0] in names:
                    return [(pathv(("n" + a.path[0],), node), st)]
            return None
        els = [pathv((n,), Ty(frozenset({"dict"}))) for n in names]
        r = Run(ctx, g, None, args={p: V(frozenset(x for e in els for x in e.src), shape=("seq", els))}, results=parsed, inline=lambda it, h, rr: False)
        if not r.ok or not r.returns:
            rep.skip("children", "MySQL:chain")
            continue
        for o in r.returns:
            rep.ok("children", "MySQL:chain")
            if o.v.path != ("nt1",):
                rep.fail("children", "MySQL:chain", f"{g.qual} loses the first table", g.loc())
            for a, b in (("nt1", "nt2"), ("nt2", "nt3")):
                v = o.s.attrs.get(((a,), "next_node"))
                if v is None or v.path != (b,):
                    rep.fail("children", "MySQL:chain", f"{g.qual} does not connect the tables of joins in their order", g.loc())
    # the join order of the tables
    for n in (1, 2, 3):
        names = ["self", "n2", "n3"][:n]
        at = {((x,), "node_type"): const(None) for x in names}
        for i, x in enumerate(names):
            for sub in attr_of.get("subquery_node", ()):
                at[((x,), sub)] = const(None)
            at[((x,), "next_node")] = pathv((names[i + 1],), node) if i + 1 < n else const(None)
        fx = {k: v for x in names for k, v in ((("n", (x,)), False), (("t", (x,)), True))}
        r = Run(ctx, f, cls, attrs=at, facts=fx, recursion=3, results=_length, cap=50,
                inline=lambda it, h, rr: h.module.name == cls.module.name and (h.cls is cls or any(a.annotation is not None and cls.name in ast.unparse(a.annotation) for a in h.all_params())))
        built = [(e, v) for e, _ in r.constructed("QueryPlan") for v in [e.m.get("children")] if v is not None]
        rep.ok("children", f"MySQL:order:{n}")
        if not r.ok:
            rep.skip("children", f"MySQL:order:{n}")
            continue
        if not r.returns:
            rep.fail("children", f"MySQL:order:{n}", f"{f.qual} does not translate joins of {n} tables", f.loc())
        for o in r.returns:
            have = {q[0] for q in r.it.mat(o.v, o.s).src}
            lost = [x for x in names if x not in have]
            if lost:
                rep.fail("children", f"MySQL:order:{n}", f"{f.qual} loses the table {', '.join(str(names.index(x) + 1) for x in lost)} of {n}", f.loc())
        for e, v in built:
            if v.shape is not None and v.shape[0] == "seq" and len(v.shape[1]) == 2:
                a, b = ({q[0] for q in x.src} & set(names) for x in v.shape[1])
                if a and b and max(map(names.index, a)) > min(map(names.index, b)):
                    rep.fail("children", f"MySQL:order:{n}", f"{f.qual} changes the order of the tables", f.loc())
    # scans
    for nm, table, at in (("scan", MYSQL_SCAN, {(("self",), "node_type"): const(None), (("self",), "next_node"): const(None)}),):
        r = Run(ctx, f, cls, attrs=at)
        built = r.constructed("QueryPlan")
        if not r.ok or not built:
            rep.skip("measure", f"MySQL:{nm}")
            continue
        subq = False
        for e, facts in built:
            for a, src in table.items():
                rep.ok("measure", f"MySQL:{nm}:{a}")
                v = e.m.get(a)
                names = {p[1] for p in v.src if len(p) > 1} if v is not None else set()
                if not (attr_of.get(src, {src}) & names):
                    rep.fail("measure", f"MySQL:{nm}:{a}", f"{f.qual} does not use {src} for {a} of scans", f.loc())
            v = [x for x in (e.m.get("children"), e.m.get("subplan_root"), e.m.get("subplan"), e.m.get("input_node")) if x is not None]
            subq = subq or any(p[1:2] and p[1] in attr_of.get("subquery_node", ()) for x in v for p in x.src)
        rep.ok("children", "MySQL:subquery")
        if not subq:
            rep.fail("children", "MySQL:subquery", f"{f.qual} loses materialized subqueries", f.loc())
    # wrapper nodes
    r = Run(ctx, f, cls, facts={("n", ("self", "node_type")): False})
    built = r.constructed("QueryPlan")
    if built:
        rep.ok("children", "MySQL:wrapper")
        if not any(p[1:2] and p[1] in attr_of.get("subquery_node", ()) for e, _ in built for x in [e.m.get("children")] if x is not None for p in x.src):
            rep.fail("children", "MySQL:wrapper", f"{f.qual} loses the input of wrapping nodes", f.loc())
        for e, facts in built:
            for a, src in {**MYSQL_JOIN, "node_type": "node_type"}.items():
                if a == "operator":
                    continue
                v = e.m.get(a)
                rep.ok("measure", f"MySQL:wrapper:{a}")
                if v is None or not any(len(q) > 1 and q[1] in attr_of.get(src, {src}) for q in v.src):
                    rep.fail("measure", f"MySQL:wrapper:{a}", f"{f.qual} does not use {src} for {a} of wrapping nodes", f.loc())
    for g in mine:
        if g.cls is not None or not any(isinstance(n, ast.Call) and ast.unparse(n.func) == cls.name and any(k.arg == "node_type" for k in n.keywords) for n in ast.walk(g.node)):
            continue
        ps = [a.arg for a in g.all_params()]
        r = Run(ctx, g, None)
        built = [e for e, _ in r.constructed(cls.name) if "node_type" in e.m]
        for a, want in (("node_type", ps[:-1]), ("join_cost", ps[-1:]), ("join_cardinality_estimate", ps[-1:]), ("subquery_node", ps[-1:])):
            vs = [e.m.get(a) for e in built]
            rep.ok("measure", f"MySQL:wrapper:{a}")
            if built and not any(v is not None and any(q[0] in want for q in v.src) for v in vs):
                rep.fail("measure", f"MySQL:wrapper:{a}", f"{g.qual} does not set {a} of wrapping nodes", g.loc())
    # joins
    node = Ty(frozenset({cls.qual}))
    for h in ctx.prog.functions:
        if h.module.name != cls.module.name or h.cls is not None or [ast.unparse(a.annotation) for a in h.all_params() if a.annotation is not None] not in (["Sequence[MysqlExplainNode]"], ["list[MysqlExplainNode]"]):
            continue
        q = h.all_params()[0].arg
        for names in (["last", "first"], ["last", "second", "first"]):
            els = [V(path=(n,), src=frozenset({(n,)}), ty=node) for n in names]
            r = Run(ctx, h, None, args={q: V(frozenset(x for e in els for x in e.src), shape=("seq", els))}, results=_length)
            built = [(e, fa) for e, fa in r.constructed("QueryPlan") if e.func is not None and "children" in e.m]
            if not r.ok or not built:
                rep.skip("children", f"MySQL:{len(names)}")
                continue
            have = set()
            for e, facts in built:
                ch = e.m["children"]
                srcs = {p[0] for p in ch.src}
                if not (srcs & set(names)):
                    continue
                have |= srcs
                rep.ok("children", f"MySQL:{len(names)}")
                if ch.shape is not None and ch.shape[0] == "seq" and len(ch.shape[1]) == 2:
                    a, b = ({p[0] for p in x.src} for x in ch.shape[1])
                    if "last" in a and "last" not in b:
                        rep.fail("children", f"MySQL:order:{len(names)}", f"{h.qual} swaps the inputs of joins", h.loc())
                if "last" in srcs:
                    for a, src in MYSQL_JOIN.items():
                        v = e.m.get(a)
                        rep.ok("measure", f"MySQL:join:{a}")
                        if v is None or not any(p[0] == "last" and len(p) > 1 and p[1] in attr_of.get(src, {src}) for p in v.src):
                            rep.fail("measure", f"MySQL:join:{a}", f"{h.qual} does not use {src} of the joined table for {a}", h.loc())
            for n in names:
                if n not in have:
                    rep.fail("children", f"MySQL:{len(names)}:{n}", f"{h.qual} loses the {n} table of joins", h.loc())


def _length(it, name, fi, args, kwargs, st):
    """The lengths of the given sequences are known."""
    if name == "len" and args and (args[0].path is None or args[0].path[0].startswith("@")):
        m = it.mat(args[0], st)
        if m.shape is not None and m.shape[0] == "seq" and m.shape[1]:
            return [(const(len(m.shape[1])), st)]
    return None


def _calls_self(g) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr == g.name for n in ast.walk(g.node))


def _loops(h) -> bool:
    return any(isinstance(n, ast.For) for n in ast.walk(h.node))


def entry(ctx: Ctx):
    """The optimizer interfaces translate the plan that they have obtained for the query."""
    rep = ctx.rep
    base = ctx.prog.cls("OptimizerInterface")
    for c in ctx.prog.subclasses(base):
        f = c.find("parse_plan")
        if f is None or f.cls is base or f.abstract:
            continue
        p = [a.arg for a in f.all_params()][1]
        run = Run(ctx, f, c)
        if not run.ok:
            rep.skip("entry", c.name)
            continue
        rep.ok("entry", c.name)
        if not run.returns or not all(any(q[0] == p for q in o.v.src) for o in run.returns if o.v is not None):
            rep.fail("entry", c.name, f"{f.qual} does not translate the plan", f.loc())
        # nothing but the plan itself is handed to a plan object that expects parsed nodes
        for e, fa, _ in run.it.log:
            if e.cls is None or e.cls.module.name != c.module.name:
                continue
            ini = e.cls.find("__init__")
            for a in (ini.all_params()[1:] if ini is not None else ()):
                ann = ast.unparse(a.annotation) if a.annotation is not None else ""
                v = e.m.get(a.arg)
                if v is not None and v.path == (p,) and any(k.name == ann for k in ctx.prog.classes):
                    rep.fail("entry", f"{c.name}:{e.cls.name}", f"{f.qual} passes a raw plan to {e.cls.name}({a.arg}: {ann})", f.loc())
