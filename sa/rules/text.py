"""Q06: the text of a query element mentions all of its content."""
from __future__ import annotations

from .common import *
from .qal import ELEMENT_FAMILIES, NOT_CONTENT, adapter, resolve_method

TEXT_FAMILIES = ELEMENT_FAMILIES + ["TableReference", "ColumnReference"]


def scalar_only(ctx: Ctx, ty: Ty) -> bool:
    """Booleans and enumerations are spelled out with keywords."""
    if ty.names is None:
        return False
    for n in ty.names:
        c = ctx.prog.class_of_qual(n)
        if n in ("bool", "None"):
            continue
        if c is not None and c.is_enum():
            continue
        return False
    return True


def text_paths(ctx: Ctx, c: ClassInfo, f: FuncInfo, facts=None, hook=None):
    it = ctx.interp(inline=hook or ctx.self_hook())
    outs = []
    for k, v, s in it.run(f, {f.arg_names()[0]: it.self_value(c)}, facts=facts):
        if k == "return":
            outs.append((it.mat(v, s), s))
    return it, outs


def base_content(ctx: Ctx, c: ClassInfo) -> ClassInfo:
    """Adapters only change the layout of the class they wrap."""
    if adapter(ctx, c):
        for k in c.mro()[1:]:
            if not k.abstract_methods() and not adapter(ctx, k) and ctx.content(k):
                return k
    return c


# Parameters whose text depends on another parameter: (class, parameter) -> facts under which the text has to contain the parameter.
# A fact is (parameter, "some" | "none" | "true" | "false").
PRESUME = {
    ("ArrayAccessExpression", "lower_idx"): [("idx", "none"), ("lower_idx", "some")],  # a single index and slice bounds exclude each other
    ("ArrayAccessExpression", "upper_idx"): [("idx", "none"), ("upper_idx", "some")],
    ("Limit", "fetch_direction"): [("limit", "some")],  # the direction is part of the FETCH clause
    ("ValuesTableSource", "columns"): [("alias", "true")],  # SQL can only name the columns of a named table
}
# Text that depends on the kind: the parameter may be missing on paths that tested the other parameter.
BY_KIND = {
    ("JoinTableSource", "join_condition"): "join_type",  # natural and cross joins do not have a condition
    ("_MysqlCastExpression", "array_type"): None,  # documented: not supported by MySQL, a warning is issued
    ("PostgresLimitClause", "fetch_direction"): "fetch_direction",  # LIMIT is the Postgres spelling of FETCH FIRST
    ("Select", "distinct"): None,  # see select_distinct()
}
# Boolean parameters and the keywords that represent them: (class, parameter, value, regex, must match)
KEYWORDS = [
    ("FunctionExpression", "distinct", True, r"\bDISTINCT\b", True),
    ("FunctionExpression", "distinct", False, r"\bDISTINCT\b", False),
    ("CastExpression", "array_type", True, r"\[\]|ARRAY", True),
    ("CastExpression", "array_type", False, r"\[\]|ARRAY", False),
    ("GroupBy", "distinct", True, r"\bDISTINCT\b", True),
    ("GroupBy", "distinct", False, r"\bDISTINCT\b", False),
    ("CommonTableExpression", "recursive", True, r"\bRECURSIVE\b", True),
    ("CommonTableExpression", "recursive", False, r"\bRECURSIVE\b", False),
    ("WithQuery", "materialized", True, r"\bMATERIALIZED\b", True),
    ("WithQuery", "materialized", True, r"\bNOT MATERIALIZED\b", False),
    ("WithQuery", "materialized", False, r"\bNOT MATERIALIZED\b", True),
    ("WithQuery", "materialized", None, r"\bMATERIALIZED\b", False),
    ("ValuesWithQuery", "materialized", True, r"\bMATERIALIZED\b", True),
    ("ValuesWithQuery", "materialized", True, r"\bNOT MATERIALIZED\b", False),
    ("ValuesWithQuery", "materialized", False, r"\bNOT MATERIALIZED\b", True),
    ("ValuesWithQuery", "materialized", None, r"\bMATERIALIZED\b", False),
    ("SubqueryTableSource", "lateral", True, r"\bLATERAL\b", True),
    ("SubqueryTableSource", "lateral", False, r"\bLATERAL\b", False),
    ("OrderByExpression", "ascending", False, r"\bDESC\b", True),
    ("OrderByExpression", "ascending", True, r"\bDESC\b", False),
    ("OrderByExpression", "nulls_first", True, r"\bNULLS FIRST\b", True),
    ("OrderByExpression", "nulls_first", False, r"\bNULLS LAST\b", True),
    ("OrderByExpression", "nulls_first", True, r"\bNULLS LAST\b", False),
    ("OrderByExpression", "nulls_first", False, r"\bNULLS FIRST\b", False),
    ("Explain", "analyze", True, r"\bANALYZE\b", True),
    ("Explain", "analyze", False, r"\bANALYZE\b", False),
    ("UnionClause", "union_all", True, r"\bUNION ALL\b", True),
    ("UnionClause", "union_all", False, r"\bALL\b", False),
    ("UnionClause", "union_all", False, r"\bUNION\b", True),
    ("ExceptClause", None, None, r"\bEXCEPT\b", True),
    ("IntersectClause", None, None, r"\bINTERSECT\b", True),
    ("Where", None, None, r"\bWHERE\b", True),
    ("Having", None, None, r"\bHAVING\b", True),
    ("GroupBy", None, None, r"\bGROUP BY\b", True),
    ("OrderBy", None, None, r"\bORDER BY\b", True),
    ("From", None, None, r"\bFROM\b", True),
    ("Select", None, None, r"\bSELECT\b", True),
    ("CommonTableExpression", None, None, r"\bWITH\b", True),
    ("BetweenPredicate", None, None, r"\bBETWEEN\b", True),
    ("InPredicate", None, None, r"\bIN\b", True),
    ("CaseExpression", None, None, r"\bCASE\b", True),
    ("CaseExpression", None, None, r"\bEND\b", True),
    ("CastExpression", None, None, r"\bCAST\b|::", True),
    ("WindowExpression", None, None, r"\bOVER\b", True),
    ("WindowExpression", "partitioning", True, r"\bPARTITION BY\b", True),
    ("CaseExpression", "else_expr", True, r"\bELSE\b", True),
    ("CaseExpression", "else_expr", None, r"\bELSE\b", False),
    ("FunctionExpression", "filter_where", True, r"\bFILTER\b", True),
    ("FunctionExpression", "filter_where", None, r"\bFILTER\b", False),
]
# Parameters that have to appear in this order.
ORDER = [
    ("BinaryPredicate", "first_argument", "operation", "second_argument"),
    ("BetweenPredicate", "column", "interval"),
    ("InPredicate", "column", "values"),
    ("MathExpression", "first_argument", "second_argument"),
    ("ArrayAccessExpression", "array", "idx"),
    ("ArrayAccessExpression", "lower_idx", "upper_idx"),
    ("JoinTableSource", "table", "join_type", "joined_table", "join_condition"),
    ("UnionClause", "left_query", "right_query"),
    ("ExceptClause", "left_query", "right_query"),
    ("IntersectClause", "left_query", "right_query"),
    ("WithQuery", "target_name", "query"),
    ("BaseProjection", "expression", "target_name"),
    ("SubqueryTableSource", "query", "target_name"),
    ("CastExpression", "expression", "target_type", "type_params"),
    ("QuantifierExpression", "quantifier", "expression"),
    ("FunctionExpression", "function", "arguments", "filter_where"),
    ("WindowExpression", "window_function", "partitioning", "ordering"),
    ("WindowExpression", "window_function", "filter_condition"),
    ("CaseExpression", "simple_expr", "cases", "else_expr"),
]


def presumed(ctx: Ctx, k: ClassInfo, facts) -> dict:
    out = {}
    for p, how in facts:
        for g in own(ctx, k, p):
            q = ("self", g)
            if how == "some":
                out[("n", q)] = False
            elif how == "none":
                out[("n", q)] = True
                out[("t", q)] = False
            elif how == "true":
                out[("t", q)] = True
                out[("n", q)] = False
            elif how == "false":
                out[("t", q)] = False
                out[("n", q)] = False
    return out


def own(ctx: Ctx, k: ClassInfo, p: str) -> list[str]:
    if p not in ctx.content(k):
        raise AnalysisError(f"{k.name} has no constructor parameter {p}")
    return [g for g, v in ctx.content(k)[p]["fields"].items() if "hash" not in v.calls]


def numeric(ty: Ty) -> bool:
    return ty.names is not None and bool(ty.names & {"int", "float"})


def absent(s, q, ty) -> bool:
    """The component is not there on this path (for numbers, zero is not absent)."""
    if numeric(ty):
        return s.facts.get(("n", q)) is True
    return s.nullish(q)


def check_Q06(ctx: Ctx):
    rep = ctx.rep
    done = set()
    for fam in TEXT_FAMILIES:
        for c in ctx.family(fam):
            if c.qual in done:
                continue
            done.add(c.qual)
            f = resolve_method(ctx, c, "__str__")
            if f is None or f.abstract:
                rep.fail("text", c.name, f"{c.name} has no textual representation", c.loc())
                continue
            k = base_content(ctx, c)
            try:
                content_text(ctx, c, k, f)
            except Budget:
                rep.skip("text", c.name)
    rep.require("text", 100)
    keywords(ctx)
    order(ctx)
    select_distinct(ctx)
    rep.require("keyword", 40)
    rep.require("order", 12)


def content_text(ctx: Ctx, c: ClassInfo, k: ClassInfo, f: FuncInfo):
    rep = ctx.rep
    base = text_paths(ctx, c, f)
    for p, d in ctx.content(k).items():
        names = [x.name for x in c.mro()]
        if any((x, p) in NOT_CONTENT for x in names) and not any((x, p) == ("WithQuery", "materialized") for x in names):
            continue
        flds = own(ctx, k, p)
        if not flds:
            continue
        rep.ok("text", f"{c.name}.{p}")
        it, outs = base
        pre = next((PRESUME[(x, p)] for x in names if (x, p) in PRESUME), None)
        if pre:
            it, outs = text_paths(ctx, c, f, facts=presumed(ctx, k, pre))
        kw = scalar_only(ctx, d["ty"])
        kind = next(((x, p) for x in names if (x, p) in BY_KIND), None)
        other = BY_KIND[kind] if kind else None
        if kind and other is None:
            continue
        ofl = own(ctx, k, other) if other else []
        hit = False
        for v, s in outs:
            if any(covered(v, ("self", g)) for g in flds):
                hit = True
                continue
            if any(absent(s, ("self", g), d["ty"]) or (kw and ("self", g) in s.tested) for g in flds):
                continue
            if any(("self", g) in s.tested for g in ofl):
                continue
            rep.fail("text", f"{c.name}.{p}", f"the text of {c.name} omits '{p}' on some path of {f.qual}", f.loc())
            break
        else:
            if kind and not hit:
                rep.fail("text", f"{c.name}.{p}", f"the text of {c.name} never contains '{p}'", f.loc())


def keywords(ctx: Ctx):
    import re
    rep = ctx.rep
    for cname, p, val, rx, must in KEYWORDS:
        base = ctx.prog.cls(cname)
        for c in [x for x in [base] + ctx.prog.subclasses(base) if not x.abstract_methods()]:
            if any(x[0] == c.name and x[1] == p for x in KEYWORDS) and c is not base:
                continue
            if any((x.name, p) in BY_KIND and BY_KIND[(x.name, p)] is None for x in c.mro()):
                continue
            f = resolve_method(ctx, c, "__str__")
            k = base_content(ctx, c)
            if k is not base and not k.is_subclass(base):
                continue
            if p is not None and p not in ctx.content(k):
                continue
            facts = {}
            if p is not None:
                facts = presumed(ctx, k, [(p, {True: "true", False: "false", None: "none"}[val])])
            try:
                it, outs = text_paths(ctx, c, f, facts=facts)
            except Budget:
                rep.skip("keyword", c.name)
                continue
            rep.ok("keyword", f"{c.name}.{p}={val}:{rx}")
            for v, s in outs:
                found = any(isinstance(x, str) and re.search(rx, x) for x in v.strs)
                if must and not found and not opaque(v):
                    rep.fail("keyword", f"{c.name}.{p}={val}", f"the text of {c.name} lacks {rx!r}" + (f" for {p}={val}" if p else ""), f.loc())
                elif not must and found and exactly(v):
                    rep.fail("keyword", f"{c.name}.{p}={val}", f"the text of {c.name} contains {rx!r} for {p}={val}", f.loc())


def opaque(v: V) -> bool:
    """Text produced by code that is not followed."""
    return v.shape is None and not v.strs


def exactly(v: V) -> bool:
    return True


def order(ctx: Ctx):
    rep = ctx.rep
    for cname, *ps in ORDER:
        base = ctx.prog.cls(cname)
        for c in [x for x in [base] + ctx.prog.subclasses(base) if not x.abstract_methods()]:
            k = base_content(ctx, c)
            f = resolve_method(ctx, c, "__str__")
            ps = [p for p in ps if p in ctx.content(k)]
            flds = {p: own(ctx, k, p) for p in ps}
            try:
                it, outs = text_paths(ctx, c, f)
            except Budget:
                continue
            if len(ps) < 2:
                continue
            rep.ok("order", c.name + ":" + ",".join(ps))
            for v, s in outs:
                if v.shape is None or v.shape[0] != "fmt":
                    continue
                pos = {}
                for i, part in enumerate(v.shape[1]):
                    heads = {q[1] for q in part.src if len(q) > 1 and q[0] == "self"}
                    for p in ps:
                        if heads and heads <= set(flds[p]):
                            pos.setdefault(p, i)
                got = [p for p in sorted(pos, key=pos.get)]
                want = [p for p in ps if p in pos]
                if got != want:
                    rep.fail("order", c.name, f"the text of {c.name} contains {', '.join(got)} in this order instead of {', '.join(want)}", f.loc())


def select_distinct(ctx: Ctx):
    """DISTINCT is printed on some but not all paths, and the expressions of DISTINCT ON are part of the text wherever it is printed."""
    rep = ctx.rep
    base = ctx.prog.cls("Select")
    for c in [x for x in [base] + ctx.prog.subclasses(base) if not x.abstract_methods()]:
        k = base_content(ctx, c)
        f = resolve_method(ctx, c, "__str__")
        flds = own(ctx, k, "distinct")
        try:
            it, outs = text_paths(ctx, c, f)
        except Budget:
            rep.skip("distinct", c.name)
            continue
        rep.ok("distinct", c.name)
        with_kw = [(v, s) for v, s in outs if any("DISTINCT" in x for x in v.strs)]
        if not with_kw:
            rep.fail("distinct", c.name, f"the text of {c.name} never contains DISTINCT", f.loc())
        for v, s in with_kw:
            if not any(covered(v, ("self", g)) or s.nullish(("self", g)) for g in flds):
                rep.fail("distinct", c.name + ".on", f"the text of {c.name} omits the expressions of DISTINCT ON", f.loc())
        for v, s in outs:
            if (v, s) not in with_kw and not any(q[0] == "self" and len(q) > 1 and q[1] not in own(ctx, k, "targets") for q in s.tested):
                rep.fail("distinct", c.name, f"the text of {c.name} omits DISTINCT without testing whether it is requested", f.loc())
