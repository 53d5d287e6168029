"""Q09: predicates, subqueries and bound tables of queries."""
from __future__ import annotations

from .checks import Decisions, counted, enum_value, in_module, stored
from .flow import *
from .qal import ELEMENT_FAMILIES, satisfied


def opaque(*names):
    """Functions of the query module are followed, except for those that a rule describes itself."""
    return lambda it, g, r: g.module.name.endswith(".qal._qal") and g.name not in names



def listv(paths, cls: Optional[ClassInfo] = None) -> V:
    vs = [pathv(p, Ty(frozenset({cls.qual}))) if cls is not None else pathv(p) for p in paths]
    return V(frozenset(paths), shape=("seq", vs), elem=vs[0] if vs else None, ty=Ty(frozenset({"set"})))


def union_of(it: Interp, args, st: St) -> Optional[V]:
    """set_union() of sets whose elements are known."""
    items: dict = {}
    for a in args:
        m = it.mat(a, st)
        if m.shape is None or m.shape[0] != "seq":
            return None
        for x in m.shape[1]:
            y = it.mat(x, st)
            if y.shape is None or y.shape[0] != "seq" or (x.path is not None and not x.path[0].startswith("@")):
                return None
            for e in y.shape[1]:
                items[e.path if e.path is not None else id(e)] = e
    vs = list(items.values())
    return it.new_alloc(st, V(frozenset().union(*[it.mat(x, st).src for x in vs]), shape=("seq", vs), elem=vs[0] if vs else None,
                              calls=frozenset().union(*[x.calls for x in vs]), ty=Ty(frozenset({"set"}))), Ty(frozenset({"set"})))


def sets(*more):
    def hook(it, name, recv, args, kwargs, st):
        if name in ("set_union", "flatten") and len(args) == 1:
            v = union_of(it, args, st)
            return None if v is None else [(v, st)]
        for h in (*more, counted):
            r = h(it, name, recv, args, kwargs, st)
            if r is not None:
                return r
        return None
    return hook


def contains(o: Outcome, root: str) -> Optional[bool]:
    """Whether an element that starts at root is part of the result: only if the contents of the result are known."""
    if not any(p[:1] == (root,) for p in o.v.src):
        return False
    if o.v.shape is not None and o.v.shape[0] == "seq":
        return any(any(p[:1] == (root,) for p in o.it.mat(x, o.s).src) for x in o.v.shape[1])
    return None


# ------------------------------------------------------------------------------------------------ joins and filters
def is_join_tables(ctx: Ctx):
    """Which predicates are joins: decided by the tables that their operands mention."""
    prog, rep = ctx.prog, ctx.rep

    def rows(cls: str, table: list):
        c = prog.cls(cls)
        for method, flip in (("is_join", False), ("is_filter", True)):
            f = c.find(method)
            for operands, expect in table:
                attrs, per = {}, {}
                for name, tabs in operands.items():
                    if isinstance(tabs, list):  # a sequence of operands
                        ps = [(f"{name}{i}",) for i in range(len(tabs))]
                        attrs[(("self",), norm(stored(ctx, cls, name)[0]))] = listv(ps, prog.cls("SqlExpression"))
                        per.update(zip(ps, tabs))
                    else:
                        per[("self",) + stored(ctx, cls, name)] = tabs

                def tables(it, name, recv, args, kwargs, st):
                    # the tables of an operand, by whatever helper they are collected
                    if "table" not in name.lower():
                        return None
                    vs = [x for x in ([recv] if recv is not None else []) + list(args) if x.path in per]
                    return [(listv([(t,) for t in per[vs[0].path]]), st)] if len(vs) == 1 else None
                key = ",".join(f"{k}={v}" for k, v in operands.items())
                Decisions(ctx, "is-join", f"{cls}.{method}", f, c, inline=lambda it, g, r: g.module.name.endswith(".qal._qal") and "table" not in g.name.lower(),
                          results=sets(tables)).row(
                    key, {}, expect != flip, f"predicates of kind {cls} with operands over {operands}", judge=lambda o: o.decided, attrs=attrs)
    rows("BinaryPredicate", [({"first_argument": a, "second_argument": b}, e) for a, b, e in (
        ("A", "B", True), ("A", "A", False), ("A", "", False), ("", "A", False), ("", "", False), ("AB", "", True), ("", "AB", True), ("AB", "A", True), ("AB", "AB", True))])
    rows("BetweenPredicate", [({"column": a, "interval_start": b, "interval_end": c}, e) for a, b, c, e in (
        ("A", "", "", False), ("A", "A", "", False), ("A", "B", "", True), ("A", "", "B", True), ("AB", "", "", True), ("A", "A", "B", True), ("A", "A", "A", False))])
    rows("InPredicate", [({"column": a, "values": b}, e) for a, b, e in (
        ("A", ["", ""], False), ("A", ["A", ""], False), ("A", ["B", ""], True), ("A", ["", "B"], True), ("A", ["A", "B"], True), ("AB", ["", ""], True))])
    rows("UnaryPredicate", [({"column": "A"}, False), ({"column": ""}, False), ({"column": "AB"}, True)])


def partners(ctx: Ctx):
    """join_partners() is based on all operands of a predicate."""
    prog, rep = ctx.prog, ctx.rep
    for cls, operands in (("BinaryPredicate", ("first_argument", "second_argument")), ("BetweenPredicate", ("column", "interval_start", "interval_end")),
                          ("InPredicate", ("column", "values")), ("UnaryPredicate", ("column",)), ("CompoundPredicate", ("children",)), ("SimpleJoin", ("lhs", "rhs"))):
        c = prog.cls(cls)
        f = c.find("join_partners")
        run = Run(ctx, f, c)
        if not run.ok or not run.returns:
            rep.skip("partners", cls)
            continue
        for p in operands:
            rep.ok("partners", f"{cls}:{p}")
            path = ("self",) + stored(ctx, cls, p)
            for o in run.returns:
                if not any(q[:len(path)] == path or q == path[:len(q)] and len(q) > 1 for q in o.v.src) and not o.s.nullish(path):
                    rep.fail("partners", f"{cls}:{p}", f"{f.qual} ignores the columns of '{p}'", f.loc())
                    break


def classification(ctx: Ctx):
    """QueryPredicates.filters() and joins() return the filters and the joins."""
    prog, rep = ctx.prog, ctx.rep
    c = prog.cls("QueryPredicates")
    root = ("self",) + (norm(prop_head(ctx, c, "root") or "root"),)

    def kind(n):
        return frozenset({prog.cls(n).qual})
    there = {("t", root): True, ("n", root): False}
    op = lambda m: ("e", root + ("operation",), enum_value(prog, "CompoundOperator", m))

    def answers(joins):
        def hook(it, name, recv, args, kwargs, st):
            if name in ("is_join", "is_filter") and recv is not None and recv.path is not None:
                for p, j in joins.items():
                    if recv.path[:len(p)] == p:
                        return [(const(j == (name == "is_join")), st)]
            return None
        return hook
    f = c.find("is_empty")
    for want in ("filters", "joins"):
        f = c.find(want)
        other = "joins" if want == "filters" else "filters"

        def check(key, run, want_in=(), not_in=()):
            if not run.ok or not run.returns:
                rep.skip("classify", f"{want}:{key}")
                return
            rep.ok("classify", f"{want}:{key}")
            for o in run.returns:
                for r in want_in:
                    if contains(o, r) is False:
                        rep.fail("classify", f"{want}:{key}", f"{f.qual} loses {want} ({key})", f.loc())
                for r in not_in:
                    if contains(o, r) is True:
                        rep.fail("classify", f"{want}:{key}", f"{f.qual} reports {other} ({key})", f.loc())

        def run(facts, joins, children=None):
            kw = {}
            if children is not None:
                kw["attrs"] = {(root, "children"): listv([(x,) for x in children], prog.cls("BasePredicate"))}
                facts = {**facts, **{("T", (x,)): kind("BinaryPredicate") for x in children}}
            return Run(ctx, f, c, quantify=True, facts={**there, **facts}, inline=opaque("is_join", "is_filter"), recursion=1, results=sets(answers(joins)), **kw)
        for k in ("BinaryPredicate", "InPredicate", "BetweenPredicate", "UnaryPredicate"):
            for j in (True, False):
                hit = j == (want == "joins")
                check(f"{k}:{'join' if j else 'filter'}", run({("T", root): kind(k)}, {root: j}), ("self",) if hit else (), () if hit else ("self",))
        comp = {("T", root): kind("CompoundPredicate")}
        for x, y in (("good", "bad"), ("bad", "good"), ("good", "more")):
            both = {(z,): (z != "bad") == (want == "joins") for z in (x, y)}
            fs = {("t", (z,)): True for z in (x, y)}
            check(f"And:{x},{y}", run({**comp, **fs, op("And"): True}, both, (x, y)), [z for z in (x, y) if z != "bad"], ["bad"] if "bad" in (x, y) else [])
            if "bad" not in (x, y):
                r = run({**comp, **fs, op("Or"): True}, both, (x, y))
                check(f"Or:{x},{y}", r, (x, y))
                for o in r.returns:
                    if o.v.shape is not None and o.v.shape[0] == "seq" and any(z.path in ((x,), (y,)) for z in o.v.shape[1]):
                        rep.fail("classify", f"{want}:Or:{x},{y}", f"{f.qual} turns a disjunction into a conjunction", f.loc())
        child = root + ("children",)
        for j in (True, False):
            hit = j == (want == "joins")
            facts = {("T", child): kind("BinaryPredicate"), ("t", child): True, ("T", child + ("0",)): kind("BinaryPredicate"), ("t", child + ("0",)): True}
            o = run({**comp, op("Not"): True, **facts}, {child: j})
            check(f"Not:{'join' if j else 'filter'}", o, ("self",) if hit else (), () if hit else ("self",))


def lookups(ctx: Ctx):
    """filters_for() and joins_for() select by the given table."""
    prog, rep = ctx.prog, ctx.rep
    c = prog.cls("QueryPredicates")
    root = ("self",) + (norm(prop_head(ctx, c, "root") or "root"),)
    facts = {("t", root): True, ("n", root): False, ("t", ("good",)): True, ("t", ("more",)): True, ("t", ("bad",)): True}
    for method, source in (("filters_for", "filters"), ("joins_for", "joins")):
        f = c.find(method)
        table = f.all_params()[1].arg
        asked: list = []
        for order in (("good", "bad", "more"), ("bad", "good", "more")):
            def hook(it, name, recv, args, kwargs, st):
                if name == source and recv is not None and recv.path == ("self",):
                    asked.append(name)
                    return [(listv([(x,) for x in order], prog.cls("AbstractPredicate")), st)]
                if name in ("filters", "joins") and recv is not None and recv.path == ("self",):
                    return [(listv([("wrong",)], prog.cls("AbstractPredicate")), st)]
                if name in ("contains_table", "joins_table", "is_filter_for", "__contains__") and recv is not None and recv.path is not None and recv.path[0] in order:
                    if not any(a.path == (table,) for a in list(args) + list(kwargs.values())):
                        return None
                    return [(const(recv.path[0] != "bad"), st)]
                return None
            run = Run(ctx, f, c, quantify=True, facts=facts, results=sets(hook),
                      inline=opaque("filters", "joins", "contains_table", "joins_table", "create_and", "join_partners_of"))
            key = f"{method}:{order[0]}"
            if not run.ok or not run.returns:
                rep.skip("lookup", key)
                continue
            rep.ok("lookup", key)
            for o in run.returns:
                has = {p[0] for p in o.v.src}
                for x in ("good", "more"):
                    if x not in has:
                        rep.fail("lookup", key, f"{f.qual} loses some of the {source} of the table", f.loc())
                if "bad" in has:
                    rep.fail("lookup", key, f"{f.qual} returns {source} of other tables", f.loc())
                if "wrong" in has:
                    rep.fail("lookup", key, f"{f.qual} returns predicates of the wrong kind", f.loc())
    f = c.find("and_")
    par = f.all_params()[1].arg
    inner = (par, root[1])
    for mine in (True, False):
        for kind_, theirs in (("QueryPredicates", True), ("QueryPredicates", False), ("BinaryPredicate", True)):
            k = prog.cls(kind_)
            facts = {("t", root): mine, ("n", root): not mine, ("T", (par,)): frozenset({k.qual}), ("n", (par,)): False}
            if kind_ == "QueryPredicates":
                facts.update({("t", inner): theirs, ("n", inner): not theirs})
            run = Run(ctx, f, c, quantify=True, facts=facts, args={par: k}, inline=lambda it, g, r: (g.name in ("is_empty", "__bool__", "root")) or None)
            key = f"and_:{mine}:{kind_}:{theirs}"
            if not run.ok or not run.returns:
                rep.skip("and", key)
                continue
            rep.ok("and", key)
            for o in run.returns:
                has = {p[0] for p in o.v.src} | ({o.v.path[0]} if o.v.path else set())
                if mine and "self" not in has or theirs and par not in has:
                    rep.fail("and", key, f"{f.qual} loses the predicates of one of its operands", f.loc())


# ------------------------------------------------------------------------------------------------ whole queries
def there(*path):
    return {("t", path): True, ("n", path): False}


def whole_predicates(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    names = {"cte_clause": None, "where_clause": None, "from_clause": None}
    for k in prog.concrete_subclasses(prog.cls("SqlQuery")):
        f = k.find("predicates")
        paths = {n: ("self",) + stored(ctx, k.name, n) for n in names}
        memo = [n for n in ast.walk(f.node) if isinstance(n, ast.Compare) and isinstance(n.ops[0], ast.IsNot) and isinstance(n.left, ast.Attribute)]
        facts = {("n", ("self", norm(n.left.attr))): True for n in memo}
        for missing in (None, "cte_clause", "where_clause", "from_clause"):
            fs = dict(facts)
            for n, p in paths.items():
                fs.update({("t", p): n != missing, ("n", p): n == missing})
            fs[("t", paths["from_clause"] + ("predicates()",))] = True
            fs[("n", paths["from_clause"] + ("predicates()",))] = False
            run = Run(ctx, f, k, quantify=True, facts=fs)
            key = f"{k.name}.predicates:{'-' + missing if missing else 'all'}"
            if not run.ok or not run.returns:
                rep.skip("predicates", key)
                continue
            rep.ok("predicates", key)
            for o in run.returns:
                for n, p in paths.items():
                    if n != missing and not any(q[:len(p)] == p for q in o.v.src) and not (n == "from_clause" and k.name.startswith("Implicit")):
                        rep.fail("predicates", key, f"{f.qual} loses the predicates of the {n}", f.loc())
    for k in prog.concrete_subclasses(prog.cls("TableSource")) + prog.concrete_subclasses(prog.cls("From")) + [prog.cls("From")]:
        f = k.find("predicates")
        if f is None or f.abstract:
            continue
        parts = {"JoinTableSource": ("left", "right", "join_condition"), "SubqueryTableSource": ("query",), "From": ("items",), "ExplicitFromClause": ("items",)}.get(k.name, ())
        if parts == ("items",):
            attr = norm(stored(ctx, k.name, "items")[0])
            for order in (("x", "y"), ("y", "x")):
                facts = {}
                for n, t in (("x", True), ("y", False)):
                    facts.update({("t", (n, "predicates()")): t, ("n", (n, "predicates()")): not t, ("t", (n, "predicates()", "root")): t})
                run = Run(ctx, f, k, quantify=True, facts=facts, attrs={(("self",), attr): listv([(n,) for n in order], prog.cls("TableSource"))})
                if not run.ok or not run.returns:
                    rep.skip("predicates", f"{k.name}.predicates")
                    continue
                rep.ok("predicates", f"{k.name}.predicates:{order}")
                if any(not any(q[0] == "x" for q in o.v.src) for o in run.returns):
                    rep.fail("predicates", f"{k.name}.predicates:{order}", f"{f.qual} loses the predicates of some of its items", f.loc())
            continue
        run = Run(ctx, f, k, quantify=True)
        if not run.ok:
            rep.skip("predicates", f"{k.name}.predicates")
            continue
        for part in parts:
            p = ("self",) + stored(ctx, k.name, part)
            rep.ok("predicates", f"{k.name}.predicates:{part}")
            for o in run.returns:
                if not any(q[:len(p)] == p for q in o.v.src) and not o.s.nullish(p) and not any(
                        key[0] in "tn" and key[1][:len(p)] == p and val == (key[0] == "n") for key, val in o.s.facts.items() if key[0] in "tn"):
                    rep.fail("predicates", f"{k.name}.predicates:{part}", f"{f.qual} loses the predicates of '{part}'", f.loc())
                    break


def subquery_bearing(ctx: Ctx):
    """Classes that can contain subqueries."""
    prog = ctx.prog
    memo: dict = {}
    base = prog.cls("SqlQuery")
    families = [prog.cls(n) for n in ELEMENT_FAMILIES if n != "SetQuery"]

    def pred(c: ClassInfo) -> bool:
        if c.is_subclass(base) or c.name == "SetQuery":
            return True
        if not any(c.is_subclass(x) for x in families) or c.is_subclass(prog.cls("WithQuery")):
            return False
        if c.qual not in memo:
            memo[c.qual] = False
            memo[c.qual] = any(ctx.bearing(d["ty"], pred) for k in [c, *prog.subclasses(c)] for d in ctx.content(k).values())
        return memo[c.qual]
    # two passes: recursive types
    for _ in range(2):
        for x in families:
            for k in [x, *prog.subclasses(x)]:
                pred(k)
        for q in [q for q, v in memo.items() if not v]:
            del memo[q]
    return pred


def needs(ctx: Ctx, c: ClassInfo, root: tuple, pred, only=None):
    out = []
    for p, d in ctx.content(c).items():
        if only is not None and p not in only:
            continue
        alts = [(g, ctx.leaf_paths(d["ty"], root + (g,), pred)) for g in ctx.own_fields(c, p)]
        alts += [(g, [root + (g, "*")]) for g in ctx.joint_fields(c, p) if ctx.leaf_paths(d["ty"], root + (g,), pred)]
        alts = [(g, ps) for g, ps in alts if ps]
        if alts:
            out.append((p, alts))
    return out


EXEMPT = {("Select", "hints")}


def coverage(ctx: Ctx, rule: str, key: str, run: Run, reqs, what: str):
    rep = ctx.rep
    if not run.ok or not run.returns:
        rep.skip(rule, key)
        return
    for p, alts in reqs:
        rep.ok(rule, f"{key}:{p}")
        for o in run.returns:
            if not any(satisfied(o.it, o.v, o.s, ps) for _, ps in alts):
                rep.fail(rule, f"{key}:{p}", f"{run.f.qual} does not take the {what} of '{p}' of a {key.split(':')[-1]} into account", run.f.loc())
                break


def subqueries(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    pred = subquery_bearing(ctx)
    q = prog.cls("ExplicitSqlQuery")
    f = q.find("subqueries")
    clauses = [c for c in prog.concrete_subclasses(prog.cls("BaseClause")) if c.name not in ("CommonTableExpression", "SetQuery")] + [prog.cls("From")]
    clauses = list({c.qual: c for c in clauses if not c.is_subclass(prog.cls("SetQuery"))}.values())

    def given(c: ClassInfo):
        def hook(it, name, recv, args, kwargs, st):
            if name == "clauses" and recv is not None and recv.path == ("self",):
                return [(listv([("clause",)], c), st)]
            return None
        return hook
    inl = lambda it, g, r: g.module.name.endswith(".qal._qal") and (g.cls is None or g.name.startswith("iter") and g.cls.is_subclass(prog.cls("BaseClause"))) or None
    sources = [(k, [("clause",) + p for p in ((stored(ctx, k.name, "root"), ("items", "*")) if k.name == "ExplicitFromClause" else (("items", "*"),))])
               for k in (prog.cls("From"), prog.cls("ExplicitFromClause"))]
    for c in clauses:
        if any(c is k for k, _ in sources):
            continue
        facts = {**there("clause"), ("T", ("clause",)): frozenset({c.qual})}
        run = Run(ctx, f, q, facts=facts, inline=inl, results=given(c))
        reqs = needs(ctx, c, ("clause",), pred)
        coverage(ctx, "subqueries", f"clauses:{c.name}", run, reqs, "subqueries")
        if run.ok and any(o.kind == "raise" for o in run.outs) and not run.returns:
            rep.fail("subqueries", f"clauses:{c.name}", f"{f.qual} fails for queries with a {c.name}", f.loc())
    for src, items in sources:
        for k in prog.concrete_subclasses(prog.cls("TableSource")):
            if src.name == "ExplicitFromClause" and k.name != "JoinTableSource":
                continue
            facts = {**there("clause"), ("T", ("clause",)): frozenset({src.qual})}
            for item in items:
                facts.update({**there(*item), ("T", item): frozenset({k.qual})})
            run = Run(ctx, f, q, facts=facts, inline=inl, results=given(src))
            reqs: dict = {}
            for item in items:
                for p, alts in [("query", [("query", [item + stored(ctx, k.name, "query")])])] if k.name == "SubqueryTableSource" else needs(ctx, k, item, pred):
                    reqs.setdefault(p, []).extend(alts)
            reqs = list(reqs.items())
            coverage(ctx, "subqueries", f"{src.name}:{k.name}", run, reqs, "subqueries")
    g = prog.find_func("postbound.qal._qal", "collect_subqueries_in_expression")
    if g is not None:
        par = g.all_params()[0].arg
        for k in prog.concrete_subclasses(prog.cls("SqlExpression")):
            reqs = [("query", [("query", [(par,) + stored(ctx, k.name, "query")])])] if k.name == "SubqueryExpression" else needs(ctx, k, (par,), pred)
            run = Run(ctx, g, None, args={par: k}, facts={("T", (par,)): frozenset({k.qual})}, inline=lambda it, h, r: h.name != "iterchildren" and ctx.self_hook(roots=(par,))(it, h, r))
            if run.ok and k.name != "SubqueryExpression" and all(any("iterchildren()" in x for x in o.v.src) for o in run.returns):
                rep.ok("subqueries", f"expressions:{k.name}")
                continue
            coverage(ctx, "subqueries", f"expressions:{k.name}", run, reqs, "subqueries")


BOUND = {"DirectTableSource": ("table",), "SubqueryTableSource": ("query", "target_name"), "JoinTableSource": ("left", "right"),
         "ValuesTableSource": ("table",), "FunctionTableSource": ("target_table",)}
JOINED = {**BOUND, "SubqueryTableSource": ("target_name",)}


def bound(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    inl = lambda it, g, r: g.module.name.endswith(".qal._qal") and (g.cls is None or g.name in ("tables", "items") and g.cls.name.endswith("Source")) or None
    for q in prog.concrete_subclasses(prog.cls("SqlQuery")):
        for method, table, result in (("bound_tables", BOUND, None), ("contains_cross_product", JOINED, "is_connected")):
            f = q.find(method)
            fc = ("self",) + stored(ctx, q.name, "from_clause")
            kind = {"ImplicitSqlQuery": "ImplicitFromClause", "ExplicitSqlQuery": "ExplicitFromClause"}.get(q.name, "From")
            roots = [fc + ("items", "*")] + ([fc + stored(ctx, kind, "root")] if kind == "ExplicitFromClause" else [])
            names = {"ImplicitFromClause": ["DirectTableSource"], "ExplicitFromClause": ["JoinTableSource"]}.get(
                kind, [k.name for k in prog.concrete_subclasses(prog.cls("TableSource"))])
            for k in names:
                if k not in table:
                    continue
                facts = {**there(*fc), ("T", fc): frozenset({prog.cls(kind).qual})}
                for root in roots:
                    facts.update({**there(*root), ("T", root): frozenset({prog.cls(k).qual})})
                    for n in table[k]:
                        facts.update(there(*(root + stored(ctx, k, n))))
                run = Run(ctx, f, q, quantify=True, facts=facts, inline=inl)
                key = f"{q.name}.{method}:{k}"
                if not run.ok or not run.returns:
                    rep.skip("bound", key)
                    continue
                for n in table[k]:
                    rep.ok("bound", f"{key}:{n}")
                    ways = [(root + stored(ctx, k, n), root) for root in roots]
                    if result is None:
                        bad = any(not any(reaches(o.v, p, root, fc) for p, root in ways) for o in run.returns)
                    else:
                        calls = [(e, fs) for e, fs, _ in run.it.log if e.name.endswith(result)]
                        bad = bool(calls) and not any(reaches(run.it.mat(x, St()), p, root, fc) for e, _ in calls for x in e.m.values() for p, root in ways)
                    if bad:
                        rep.fail("bound", f"{key}:{n}", f"{f.qual} does not consider '{n}' of a {k}", f.loc())
            if method == "bound_tables":
                for n in ("cte_clause", "subqueries()"):
                    p = ("self",) + (stored(ctx, q.name, n) if not n.endswith("()") else (n,))
                    run = Run(ctx, f, q, quantify=True, facts={**there(*fc), **there(*p)}, inline=opaque("subqueries", "bound_tables", "tables"))
                    rep.ok("bound", f"{q.name}.{method}:{n}")
                    for o in run.returns:
                        if not any(x[:len(p)] == p for x in o.v.src):
                            rep.fail("bound", f"{q.name}.{method}:{n}", f"{f.qual} loses the tables of {n}", f.loc())
            else:
                for absent in (True, False):
                    for conn in (True, False):
                        for n in (1, 3):
                            facts = {("t", fc): not absent, ("n", fc): absent}

                            def hook(it, name, recv, args, kwargs, st):
                                if name.endswith("is_connected"):
                                    return [(const(conn), st)]
                                if name == "len":
                                    return [(const(n), st)]
                                return None
                            Decisions(ctx, "cross-product", q.name, f, q, inline=lambda it, g, r: None, results=hook).row(
                                f"{'no from' if absent else 'from'}:{'' if conn else 'un'}connected:{n}", facts, not absent and not conn and n > 1,
                                f"queries with {n} tables in a{' ' if conn else 'n un'}connected join graph", judge=lambda o: o.decided)


def reaches(v: V, p: tuple, root: tuple, whole: tuple) -> bool:
    """Something at or below p (or everything at root) flows into the value."""
    return any(x in (whole, whole + ("tables()",)) or x[:len(p)] == p or (len(x) > len(root) and x[:len(root)] == root and x[len(root)].endswith("()")) or x == root for x in v.src)


def derived(ctx: Ctx):
    """is_dependent: some table is not bound by the query itself."""
    prog, rep = ctx.prog, ctx.rep
    for q in prog.concrete_subclasses(prog.cls("SqlQuery")):
        f = q.find("is_dependent")
        run = Run(ctx, f, q, quantify=True, inline=lambda it, g, r: (g.name == "unbound_tables") or None)
        key = f"{q.name}.is_dependent"
        if not run.ok or not run.returns:
            rep.skip("dependent", key)
            continue
        rep.ok("dependent", key)
        if not any("tables()" in x for o in run.returns for x in (p[-1] for p in o.v.src | frozenset(o.s.tested)) if x == "tables()"):
            rep.fail("dependent", key, f"{f.qual} does not depend on the tables of the query", f.loc())
    s = prog.cls("SetQuery")
    sides = [("self",) + stored(ctx, "SetQuery", n) for n in ("left_query", "right_query")]
    for m in ("subqueries", "bound_tables", "unbound_tables", "is_dependent", "contains_cross_product"):
        f = s.find(m)
        run = Run(ctx, f, s, quantify=True)
        if not run.ok or not run.returns:
            rep.skip("set-query", m)
            continue
        rep.ok("set-query", f"SetQuery.{m}")
        for side in sides:
            if not any(x[:2] == side[:2] for o in run.returns for x in o.v.src | frozenset(o.s.tested)):
                rep.fail("set-query", f"SetQuery.{m}", f"{f.qual} ignores one of its queries", f.loc())
    for m in ("is_dependent", "contains_cross_product"):
        for a in (True, False):
            for b in (True, False):
                facts = {("t", sides[0] + (m + "()",)): a, ("t", sides[1] + (m + "()",)): b}
                Decisions(ctx, "set-query", f"SetQuery.{m}", s.find(m), s).row(f"{a}:{b}", facts, a or b, f"set operations over {a}/{b} operands", judge=lambda o: o.decided)


def check_Q09(ctx: Ctx):
    is_join_tables(ctx)
    partners(ctx)
    classification(ctx)
    lookups(ctx)
    whole_predicates(ctx)
    subqueries(ctx)
    bound(ctx)
    derived(ctx)
    rep = ctx.rep
    for rule, n in (("is-join", 30), ("partners", 8), ("classify", 20), ("lookup", 3), ("and", 4), ("predicates", 15), ("subqueries", 30), ("bound", 15),
                    ("cross-product", 12), ("set-query", 8)):
        rep.require(rule, n)
