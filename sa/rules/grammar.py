"""P01: no part of a parsed SQL statement is dropped."""
from __future__ import annotations

from .common import *

# Fields of the raw parse tree (PostgreSQL grammar as encoded by pglast) that carry meaning. Locations, parser internal
# fields and fields that only later phases of the server fill are left out.  A "!" marks enumerations and flags: they do not
# contain data on their own, it is sufficient that the parser decides based on them.
NODES = {
    "SelectStmt": "distinctClause intoClause targetList fromClause whereClause groupClause groupDistinct! havingClause windowClause sortClause "
                  "limitOffset limitCount limitOption! lockingClause withClause",
    "SelectStmt/set": "sortClause limitOffset limitCount limitOption! lockingClause withClause op! all! larg rarg",
    "SelectStmt/values": "valuesLists sortClause limitOffset limitCount withClause",
    "FuncCall": "funcname args agg_order agg_filter over agg_within_group! agg_star! agg_distinct! func_variadic!",
    "WindowDef": "name refname partitionClause orderClause frameOptions! startOffset endOffset",
    "A_Expr": "kind! name! lexpr rexpr",
    "BoolExpr": "boolop! args",
    "NullTest": "arg nulltesttype!",
    "CoalesceExpr": "args",
    "TypeCast": "arg typeName",
    "TypeName": "names typmods arrayBounds!",
    "CaseExpr": "arg args defresult",
    "CaseWhen": "expr result",
    "SubLink": "subLinkType! testexpr operName subselect",
    "A_Indirection": "arg indirection",
    "A_Indices": "is_slice! lidx uidx",
    "A_ArrayExpr": "elements",
    "WithClause": "ctes recursive!",
    "CommonTableExpr": "ctename aliascolnames ctematerialized! ctequery search_clause cycle_clause",
    "RangeVar": "catalogname schemaname! relname inh! alias!",
    "Alias": "aliasname! colnames",
    "JoinExpr": "jointype! isNatural! larg rarg usingClause join_using_alias quals alias",
    "RangeSubselect": "lateral! subquery alias",
    "RangeFunction": "ordinality! functions alias coldeflist",
    "SortBy": "node sortby_dir! sortby_nulls!",
    "ResTarget": "name val",
    "ExplainStmt": "query options",
    "VariableSetStmt": "kind! name args is_local!",
}
FIELDS = {n: [x.rstrip("!") for x in fs.split()] for n, fs in NODES.items()}
TAGS = {(n, x.rstrip("!")) for n, fs in NODES.items() for x in fs.split() if x.endswith("!")}
# fields whose nodes are not wrapped in an object with the name of their kind
DIRECT = {("FuncCall", "over"): "WindowDef", ("TypeCast", "typeName"): "TypeName", ("SelectStmt", "withClause"): "WithClause",
          ("SelectStmt", "larg"): "SelectStmt", ("SelectStmt", "rarg"): "SelectStmt", ("RangeVar", "alias"): "Alias",
          ("RangeSubselect", "alias"): "Alias", ("RangeFunction", "alias"): "Alias", ("JoinExpr", "alias"): "Alias"}
NAMES = {x for xs in FIELDS.values() for x in xs}
KINDS = {n.split("/")[0] for n in NODES}


def key(x: str) -> str:
    return x[2:-2] if x.startswith("['") and x.endswith("']") else x


def typed(chain: tuple, root: Optional[str]) -> Optional[str]:
    """The kind of the node that a sequence of keys leads to."""
    cur = root
    for x in chain:
        k = key(x)
        if cur is None:
            cur = k if k in KINDS and x.startswith("[") else None
        else:
            cur = DIRECT.get((cur, k))
    return cur


def deep(v, out=None, d=0) -> set:
    out = set() if out is None else out
    if not isinstance(v, V) or d > 6:
        return out
    out |= v.src
    if v.shape is not None:
        if v.shape[0] == "ctor":
            for x in v.shape[2].values():
                deep(x, out, d + 1)
        elif isinstance(v.shape[1], (list, tuple)):
            for x in v.shape[1]:
                deep(x, out, d + 1)
    return out


KEY = "postbound.util.dicts.key"
WRAPPED = sorted(KINDS - {"WindowDef", "TypeName", "WithClause", "Alias"}) + ["A_Const", "ColumnRef", "String", "A_Star", "List"]


def hub(ctx: Ctx, g: FuncInfo) -> bool:
    """Functions that (indirectly) call each other, or that read lists of such elements."""
    seen, todo = set(), [g]
    while todo:
        h = todo.pop()
        for n in ast.walk(h.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                k = h.module.functions.get(n.func.id) if hasattr(h.module, "functions") else next(
                    (x for x in ctx.prog.functions if x.module is h.module and x.cls is None and x.name == n.func.id), None)
                if k is not None and k not in seen:
                    seen.add(k)
                    todo.append(k)
    return g in seen


def chains(v: V, p: str) -> list:
    return [q[1:] for q in v.src if q and q[0] == p]


def run_typed(ctx: Ctx, f: FuncInfo, p: str, root: Optional[str], kind: Optional[str] = None):
    """Paths of a parser function for a node of the given kind. Helpers that receive a part of a node are followed."""
    cap = 300 if ctx.rep.tier == "quick" else 8000
    it = ctx.interp(cap=cap, call_cap=cap // 4, max_steps=600000)

    def hook(it, g: FuncInfo, args) -> Optional[bool]:
        if g.module is not f.module:
            return None
        for a in args:
            if isinstance(a, V) and a.path is not None and a.path[0] == p:
                t = typed(a.path[1:], root)
                if len(a.path) == 1 and root is not None or t is not None and (t not in ("SelectStmt", "WithClause") or not hub(ctx, g)):
                    return g is not f
                return False if len(a.path) > 1 else g is not f and g not in it.stack
        return False if any(chains(a, p) for a in args if isinstance(a, V)) else None
    it.arg_hook = hook
    it.member_keys = True
    facts = {}
    if kind is not None:
        # the wrapper object has a single key, the kind of the node
        it.result_hook = lambda it, g, args: const(kind) if g.qual == KEY and args and args[0].path == (p,) else None
        facts = {("n", (p, f"['{k}']")): True for k in WRAPPED if k != kind}
    return it, it.run(f, {p: pathv((p,), Ty(frozenset({"dict"})))}, facts)


def dispatches(f: FuncInfo) -> bool:
    return any(isinstance(n, ast.Call) and ast.unparse(n.func).endswith("dicts.key") for n in ast.walk(f.node))


def jobs(ctx: Ctx) -> list:
    """(function, parameter, kind of node)"""
    mod = ctx.prog.func("postbound.parser", "parse_query").module
    fs = [f for f in ctx.prog.functions if f.module is mod and not f.overload and f.cls is None]
    todo = [(f, p, None) for f in fs for p in f.arg_names()[:1] if any(isinstance(n, ast.Constant) and n.value in KINDS | NAMES for n in ast.walk(f.node))
            and (a := next((a.annotation for a in f.node.args.args if a.arg == p), None)) is not None and "dict" in ast.unparse(a)]
    done, out = set(), []
    while todo:
        j = todo.pop(0)
        if j in done:
            continue
        done.add(j)
        f, p, root = j
        texts = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant)}
        log = []
        for kind in [k for k in WRAPPED if k in texts] if root is None and dispatches(f) else [None]:
            try:
                it, res = run_typed(ctx, f, p, root, kind)
            except Budget:
                ctx.rep.skip("dropped", f.name)
                continue
            if it.capped and root is None and kind is None and len(texts & set(WRAPPED)) > 4:
                ctx.rep.skip("dropped", f.name)  # a choice between kinds that could not be resolved
                continue
            out.append((f, p, root, it, res))
            log += it.log
        for e, *_ in log:
            if e.fi is None or e.fi.module is not mod:
                continue
            names = e.fi.arg_names()
            for x, a in list(zip(names, e.args)) + list(e.kwargs.items()):
                if isinstance(a, V) and a.path is not None and a.path[0] == p and len(a.path) > 1:
                    t = typed(a.path[1:], root)
                    if t in ("SelectStmt", "WithClause"):
                        todo.append((e.fi, x, t))
    return out


def check_P01(ctx: Ctx):
    rep = ctx.rep
    for f, p, root, it, res in jobs(ctx):
        judge(ctx, f, p, root, it, res)
    rep.require("dropped", 100)


def equal(s, q: tuple, *values) -> bool:
    return any(a[0] == "e" and a[1] == q and b and a[2] in values for a, b in s.facts.items())


def implied(s, q: tuple, kind: str, x: str) -> bool:
    """The field has no content (of its own) on this path according to the grammar."""
    if (kind, x) == ("FuncCall", "args"):
        return s.facts.get(("t", q + ("['agg_star']",))) is True
    if (kind, x) == ("A_Expr", "name"):
        return equal(s, q + ("['kind']",), "AEXPR_BETWEEN", "AEXPR_DISTINCT", "AEXPR_NOT_DISTINCT")
    if (kind, x) == ("SubLink", "testexpr"):
        return equal(s, q + ("['subLinkType']",), "EXISTS_SUBLINK", "EXPR_SUBLINK")
    if (kind, x) == ("SubLink", "operName"):
        return equal(s, q + ("['subLinkType']",), "EXISTS_SUBLINK", "EXPR_SUBLINK")
    if x in ("limitCount", "limitOffset"):
        return equal(s, q + ("['limitOption']",), "LIMIT_OPTION_DEFAULT") or all(
            s.facts.get(("e", q + ("['limitOption']",), o)) is False for o in ("LIMIT_OPTION_COUNT", "LIMIT_OPTION_WITH_TIES"))
    if (kind, x) == ("ResTarget", "name"):
        return "0" in q  # a lone * has no name
    if kind == "Alias":
        return s.nullish(q + ("['aliasname']",))
    if x == "alias":
        return s.nullish(q + ("['alias']", "['aliasname']"))
    return False


def judge(ctx: Ctx, f: FuncInfo, p: str, root: Optional[str], it, res):
    ever = {q[1:] for _, _, t in it.log for q in t if q and q[0] == p} | {q[1:] for _, _, s in res for q in s.tested if q and q[0] == p}
    loaded = {n.slice.value for g in {f} | {e[0].fi for e in it.log if e[0].fi is not None and e[0].fi.module is f.module} for n in ast.walk(g.node)
              if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant)}
    everywhere = {q[1:] for k, v, s in res if k == "return" for q in deep(it.mat(v, s)) if q and q[0] == p}
    for k, v, s in res:
        if k != "return":
            continue
        if v.ty.names == frozenset({"bool"}):
            continue  # a question about the node
        used = {q[1:] for q in deep(it.mat(v, s)) if q and q[0] == p}
        facts = {a[1][1:]: b for a, b in s.facts.items() if a[0] in ("t", "e") and a[1] and a[1][0] == p}
        tested = {q[1:] for q in s.tested if q and q[0] == p} | set(facts)
        if root is None and len({c[0] for c in used if c and key(c[0]) in WRAPPED}) > 1:
            ctx.rep.skip("dropped", f.name)
            continue  # alternatives that could not be told apart
        there = {a[1][1:] for a, b in s.facts.items() if a[0] in ("t", "n") and b is (a[0] == "t") and a[1] and a[1][0] == p}
        for pre in sorted({c[:i] for c in used for i in range(len(c))} | there):
            if any(pre[:i] in used for i in range(len(pre) + 1) if i or root is None):
                continue  # handed on as a whole
            n = typed(pre, root)
            if n is None:
                continue
            kind = n
            if n == "SelectStmt":
                if any(c[len(pre):len(pre) + 1] == ("['larg']",) for c in used if c[:len(pre)] == pre):
                    kind = "SelectStmt/set"
                elif any(c[len(pre):len(pre) + 1] == ("['valuesLists']",) for c in used if c[:len(pre)] == pre):
                    kind = "SelectStmt/values"
            for x in FIELDS[kind]:
                q = pre + (f"['{x}']",)
                ctx.rep.ok("dropped", f"{f.name}:{kind}.{x}")
                if s.nullish((p,) + q):
                    continue
                if "*" in pre and q in tested and x not in loaded and not any(c[:len(q)] == q for c in everywhere):
                    continue
                if implied(s, (p,) + pre, kind, x):
                    continue
                if any(c[:len(q)] == q for c in used):
                    continue
                if ((kind, x) in TAGS or (kind, x) in DIRECT and q in there) and any(c[:len(q)] == q for c in (ever if it.capped or "*" in pre else tested)):
                    continue
                ctx.rep.fail("dropped", f"{kind}.{x}", f"{f.name} can return without {x} of a {n}", f.loc())


# ---------------------------------------------------------------- P02
# decision of the grammar -> (class, parameter, value)
TAG_VALUES = [
    ("SortBy", {"sortby_dir": "SORTBY_ASC"}, "OrderByExpression", "ascending", True),
    ("SortBy", {"sortby_dir": "SORTBY_DESC"}, "OrderByExpression", "ascending", False),
    ("SortBy", {"sortby_dir": "SORTBY_DEFAULT"}, "OrderByExpression", "ascending", None),
    ("SortBy", {"sortby_nulls": "SORTBY_NULLS_FIRST"}, "OrderByExpression", "nulls_first", True),
    ("SortBy", {"sortby_nulls": "SORTBY_NULLS_LAST"}, "OrderByExpression", "nulls_first", False),
    ("SortBy", {"sortby_nulls": "SORTBY_NULLS_DEFAULT"}, "OrderByExpression", "nulls_first", None),
    ("SelectStmt", {"op": "SETOP_UNION", "all": True}, "SetQuery", "set_operation", "UnionAll"),
    ("SelectStmt", {"op": "SETOP_UNION", "all": False}, "SetQuery", "set_operation", "Union"),
    ("SelectStmt", {"op": "SETOP_INTERSECT"}, "SetQuery", "set_operation", "Intersect"),
    ("SelectStmt", {"op": "SETOP_EXCEPT"}, "SetQuery", "set_operation", "Except"),
    ("JoinExpr", {"jointype": "JOIN_LEFT"}, "JoinTableSource", "join_type", "LeftJoin"),
    ("JoinExpr", {"jointype": "JOIN_RIGHT"}, "JoinTableSource", "join_type", "RightJoin"),
    ("JoinExpr", {"jointype": "JOIN_FULL"}, "JoinTableSource", "join_type", "OuterJoin"),
    ("JoinExpr", {"jointype": "JOIN_INNER", "quals": True}, "JoinTableSource", "join_type", "InnerJoin"),
    ("JoinExpr", {"jointype": "JOIN_INNER", "quals": False}, "JoinTableSource", "join_type", "CrossJoin"),
    ("CommonTableExpr", {"ctematerialized": "CTEMaterializeAlways"}, "WithQuery ValuesWithQuery", "materialized", True),
    ("CommonTableExpr", {"ctematerialized": "CTEMaterializeNever"}, "WithQuery ValuesWithQuery", "materialized", False),
    ("CommonTableExpr", {"ctematerialized": "CTEMaterializeDefault"}, "WithQuery ValuesWithQuery", "materialized", None),
    ("NullTest", {"nulltesttype": "IS_NULL"}, "BinaryPredicate", "operation", "Is"),
    ("NullTest", {"nulltesttype": "IS_NOT_NULL"}, "BinaryPredicate", "operation", "IsNot"),
    ("A_Expr", {"kind": "AEXPR_OP_ALL"}, "QuantifierExpression", "quantifier", "All"),
    ("A_Expr", {"kind": "AEXPR_OP_ANY"}, "QuantifierExpression", "quantifier", "Any"),
    ("A_Expr", {"kind": "AEXPR_DISTINCT"}, "BinaryPredicate", "operation", "DistinctFrom"),
    ("A_Expr", {"kind": "AEXPR_NOT_DISTINCT"}, "BinaryPredicate", "operation", "NotDistinctFrom"),
    ("A_Expr", {"kind": "AEXPR_LIKE", "name.0.String.sval": "~~"}, "BinaryPredicate", "operation", "Like"),
    ("A_Expr", {"kind": "AEXPR_LIKE", "name.0.String.sval": "!~~"}, "BinaryPredicate", "operation", "NotLike"),
    ("A_Expr", {"kind": "AEXPR_ILIKE", "name.0.String.sval": "~~*"}, "BinaryPredicate", "operation", "ILike"),
    ("A_Expr", {"kind": "AEXPR_ILIKE", "name.0.String.sval": "!~~*"}, "BinaryPredicate", "operation", "NotILike"),
    ("SubLink", {"subLinkType": "ALL_SUBLINK"}, "QuantifierExpression", "quantifier", "All"),
    ("SubLink", {"subLinkType": "ANY_SUBLINK"}, "QuantifierExpression", "quantifier", "Any"),
]
# symbol of the grammar -> member of an operator enumeration
SYMBOLS = {
    "=": "Equal", "<>": "NotEqual", "!=": "NotEqual", "<": "Less", "<=": "LessEqual", ">": "Greater", ">=": "GreaterEqual",
    "AND_EXPR": "And", "OR_EXPR": "Or", "NOT_EXPR": "Not", "+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Modulo",
    "||": "Concatenate", "@>": "Contains", "<@": "ContainedBy", "&&": "Overlaps", "AEXPR_DISTINCT": "DistinctFrom",
    "AEXPR_NOT_DISTINCT": "NotDistinctFrom", "~~": "Like", "!~~": "NotLike", "~~*": "ILike", "!~~*": "NotILike",
}
# member -> SQL text
TEXTS = {
    "MathOperator": {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/", "Modulo": "%", "Concatenate": "||"},
    "LogicalOperator": {"Equal": "=", "NotEqual": "<>|!=", "Less": "<", "LessEqual": "<=", "Greater": ">", "GreaterEqual": ">=", "Like": "LIKE",
                        "NotLike": "NOT LIKE", "ILike": "ILIKE", "NotILike": "NOT ILIKE", "In": "IN", "Exists": "EXISTS", "Is": "IS",
                        "IsNot": "IS NOT", "Between": "BETWEEN", "DistinctFrom": "IS DISTINCT FROM",
                        "NotDistinctFrom": "IS NOT DISTINCT FROM", "Contains": "@>", "ContainedBy": "<@", "Overlaps": "&&"},
    "CompoundOperator": {"And": "AND", "Or": "OR", "Not": "NOT"},
    "SetOperator": {"Union": "UNION|UNION DISTINCT", "UnionAll": "UNION ALL", "Intersect": "INTERSECT", "Except": "EXCEPT"},
    "QuantifierOperator": {"All": "ALL", "Any": "ANY|SOME"},
    "JoinType": {"InnerJoin": "JOIN|INNER JOIN", "OuterJoin": "FULL OUTER JOIN|FULL JOIN", "LeftJoin": "LEFT OUTER JOIN|LEFT JOIN",
                 "RightJoin": "RIGHT OUTER JOIN|RIGHT JOIN", "CrossJoin": "CROSS JOIN", "NaturalInnerJoin": "NATURAL JOIN|NATURAL INNER JOIN",
                 "NaturalOuterJoin": "NATURAL OUTER JOIN|NATURAL FULL OUTER JOIN|NATURAL FULL JOIN",
                 "NaturalLeftJoin": "NATURAL LEFT JOIN|NATURAL LEFT OUTER JOIN", "NaturalRightJoin": "NATURAL RIGHT JOIN|NATURAL RIGHT OUTER JOIN"},
}
# operators whose operands have been exchanged
MIRROR = {"Less": "Greater", "LessEqual": "GreaterEqual", "Greater": "Less", "GreaterEqual": "LessEqual", "Contains": "ContainedBy",
          "ContainedBy": "Contains", "Equal": "Equal", "NotEqual": "NotEqual", "Overlaps": "Overlaps", "DistinctFrom": "DistinctFrom",
          "NotDistinctFrom": "NotDistinctFrom"}
NEGATED = {"Equal": "NotEqual", "NotEqual": "Equal", "Less": "GreaterEqual", "LessEqual": "Greater", "Greater": "LessEqual",
           "GreaterEqual": "Less", "Like": "NotLike", "NotLike": "Like", "ILike": "NotILike", "NotILike": "ILike", "Is": "IsNot", "IsNot": "Is",
           "DistinctFrom": "NotDistinctFrom", "NotDistinctFrom": "DistinctFrom"}
TYPES = {"bpchar": "char character", "serial8": "bigserial", "serial4": "serial", "serial2": "smallserial", "int4": "integer int", "int2": "smallint",
         "int8": "bigint", "float4": "real", "float8": "double precision", "boolean": "bool boolean", "bool": "bool boolean",
         "varchar": "varchar character varying", "timestamptz": "timestamp with time zone", "timetz": "time with time zone", "varbit": "bit varying"}


def check_P02(ctx: Ctx):
    ensure_texts(ctx)
    ensure_tables(ctx)
    ensure_tags(ctx)
    ensure_factories(ctx)
    ctx.rep.require("factory", 8)
    ctx.rep.require("text", 40)
    ctx.rep.require("symbol", 20)
    ctx.rep.require("tag", 15)


def ensure_texts(ctx: Ctx):
    """The operators print (and are read from JSON as) the SQL text with the same meaning."""
    for cname, texts in TEXTS.items():
        c = ctx.prog.cls(cname)
        seen: dict = {}
        for n in c.node.body:
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)):
                continue
            m, t = n.targets[0].id, " ".join(n.value.value.upper().split())
            ctx.rep.ok("text", f"{cname}.{m}")
            if m in texts and t not in [texts[m], *texts[m].split("|")]:
                ctx.rep.fail("text", f"{cname}.{m}", f"{cname}.{m} is written as '{n.value.value}'", f"{c.module.path}:{n.lineno}")
            if t in seen:
                ctx.rep.fail("text", f"{cname}.{m}", f"{cname}.{m} and {cname}.{seen[t]} have the same text", c.module.path)
            seen[t] = m


def member_of(n: ast.AST) -> Optional[tuple]:
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in TEXTS:
        return n.value.id, n.attr
    return None


def ensure_tables(ctx: Ctx):
    """Lookup tables relate symbols and operators (or operators and operators) with the same meaning."""
    for m in ctx.prog.modules.values():
        for d in ast.walk(m.tree):
            if not isinstance(d, ast.Dict) or len(d.keys) < 3:
                continue
            ks, vs = d.keys, [member_of(v) for v in d.values]
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in ks) and all(vs):
                for k, v in zip(ks, vs):
                    want = SYMBOLS.get(k.value)
                    if want is None:
                        want = next((x for x, t in TEXTS[v[0]].items() if k.value.upper() in t.split("|")), None)
                    if want is None:
                        continue
                    ctx.rep.ok("symbol", k.value)
                    if v[1] != want:
                        ctx.rep.fail("symbol", k.value, f"'{k.value}' is read as {v[0]}.{v[1]}", f"{m.path}:{k.lineno}")
            kms = [member_of(k) if k is not None else None for k in ks]
            if all(kms) and all(vs) and {k[0] for k in kms} == {v[0] for v in vs} == {"LogicalOperator"}:
                pairs = [(k[1], v[1]) for k, v in zip(kms, vs)]
                best = min((MIRROR, NEGATED), key=lambda t: sum(t.get(a, b) != b for a, b in pairs))
                for a, b in pairs:
                    ctx.rep.ok("symbol", a)
                    if best.get(a, b) != b:
                        ctx.rep.fail("symbol", f"{a}:{b}", f"{a} is replaced by {b}", f"{m.path}:{d.lineno}")
            if all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ks + d.values):
                known = [k for k in ks if k.value in TYPES]
                if len(known) < 4:
                    continue
                for k, v in zip(ks, d.values):
                    if k.value in TYPES:
                        ctx.rep.ok("symbol", k.value)
                        names = TYPES[k.value]
                        if v.value != names and v.value not in names.split() or v.value == "":
                            ctx.rep.fail("symbol", k.value, f"the type {k.value} is read as {v.value}", f"{m.path}:{k.lineno}")


def known(facts: dict, q: tuple, want) -> Optional[bool]:
    """Is the field known to have the value?"""
    if isinstance(want, bool):
        t = facts.get(("t", q))
        n = facts.get(("n", q))
        if t is want or n is (not want):
            return True
        if t is (not want) or n is want:
            return False
        return None
    eq = [a[2] for a, b in facts.items() if a[0] == "e" and a[1] == q and b]
    if eq:
        return want in eq
    if facts.get(("e", q, want)) is False:
        return False
    return None


ALL_VALUES = {"nulltesttype": ["IS_NULL", "IS_NOT_NULL"], "name.0.String.sval": ["~~", "!~~", "~~*", "!~~*"]}


def holds(facts: dict, q: tuple, cond: dict) -> bool:
    for x, want in cond.items():
        p = q + tuple(f"['{k}']" if not k.isdigit() else k for k in x.split("."))
        k = known(facts, p, want)
        if k is None and x in ALL_VALUES:
            others = [o for o in ALL_VALUES[x] if o != want and ("*" in o) == ("*" in str(want))]
            k = True if all(facts.get(("e", p, o)) is False for o in others) else None
        if not k:
            return False
    return True


def value_of(v: V):
    if v.shape is not None and v.shape[0] == "const":
        return ("const", v.shape[1])
    if v.shape is not None and v.shape[0] == "enum":
        return ("enum", v.shape[2])
    if v.shape is not None and v.shape[0] == "gconst":
        return None
    return None


def ensure_tags(ctx: Ctx):
    for f, p, root, it, res in jobs(ctx):
        ensure_sublinks(ctx, f, p, root, it)
        log = [(e, facts, tested) for e, facts, tested in it.log if e.cls is not None]
        for node, cond, cnames, param, want in TAG_VALUES:
            for e, facts, tested in log:
                if e.cls.name not in cnames.split():
                    continue
                init = e.cls.find("__init__")
                names = [a for a in init.arg_names() if a != "self"]
                given = dict(zip(names, e.args)) | e.kwargs
                pres = {a[1][1:i] for a in facts if a[1] and isinstance(a[1], tuple) and a[1][0] == p for i in range(1, len(a[1]) + 1)}
                for pre in pres:
                    if typed(pre, root) != node and not (node == "SelectStmt" and root is None and pre == () and "SETOP" in str(cond)) and \
                            not (pre == () and root is None and not pre and (p,) and any(("e", (p, f"['{x}']"), y) in facts for x, y in cond.items())):
                        continue
                    if not holds(facts, (p,) + pre, cond):
                        flags = {x: w for x, w in cond.items() if isinstance(w, bool)}
                        rest = {x: w for x, w in cond.items() if x not in flags}
                        if not flags or not rest or any((p,) + pre + (f"['{x}']",) in tested for x in flags) or not holds(facts, (p,) + pre, rest) or \
                                any(known(facts, (p,) + pre + (f"['{x}']",), True) is not None for x in flags):
                            continue  # another value, or not known
                    name = "/".join(str(x) for x in cond.values())
                    ctx.rep.ok("tag", f"{node}:{name}")
                    if param not in given:
                        got = ("const", default(init, param))
                    else:
                        got = value_of(given[param])
                    if got is None:
                        continue
                    if got[1] != want:
                        ctx.rep.fail("tag", f"{node}:{name}", f"{f.name} uses {got[1]} as {param} of {e.cls.name} for {name}", f.loc())


SUBLINKS = {"ALL_SUBLINK": {"all"}, "ANY_SUBLINK": {"any", "subquery"}, "EXISTS_SUBLINK": {"exists"}}


def ensure_sublinks(ctx: Ctx, f: FuncInfo, p: str, root: Optional[str], it):
    for e, facts, _ in it.log:
        if e.fi is None or e.fi.cls is None or e.fi.cls.name not in ("QuantifierExpression", "InPredicate", "UnaryPredicate") or \
                e.fi.name not in set().union(*SUBLINKS.values()):
            continue
        for a, b in facts.items():
            if a[0] == "e" and b and a[1] and a[1][-1] == "['subLinkType']" and a[2] in SUBLINKS:
                ctx.rep.ok("tag", f"SubLink:{a[2]}")
                if e.fi.name not in SUBLINKS[a[2]]:
                    ctx.rep.fail("tag", f"SubLink:{a[2]}", f"{f.name} uses {e.fi.cls.name}.{e.fi.name} for {a[2]}", f.loc())


def ensure_factories(ctx: Ctx):
    """A factory that is named like an operator creates an object with this operator."""
    members = {c: {x.lower(): x for x in t} for c, t in TEXTS.items()}
    mods = {ctx.prog.cls(c).module for c in TEXTS}
    for g in ctx.prog.functions:
        if g.cls is None or g.kind not in ("static", "classmethod") or g.cls.module not in mods or g.overload:
            continue
        name = g.name.replace("create_", "").replace("_", "").lower()
        if not any(name in ms for ms in members.values()):
            continue
        it = ctx.interp()
        try:
            res = it.run(g, {})
        except Budget:
            ctx.rep.skip("factory", g.qual)
            continue
        for k, v, s in res:
            v = it.mat(v, s) if k == "return" else None
            if v is None or v.shape is None or v.shape[0] != "ctor":
                continue
            for p, x in v.shape[2].items():
                if x.shape is not None and x.shape[0] == "enum" and x.shape[1].name in members and name in members[x.shape[1].name]:
                    ctx.rep.ok("factory", g.qual)
                    if x.shape[2].lower() != name:
                        ctx.rep.fail("factory", f"{g.cls.name}.{g.name}", f"{g.qual} creates a {v.shape[1].name} with {x.shape[2]}", g.loc())


def default(f: FuncInfo, p: str):
    a = f.node.args
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == p:
            return ast.unparse(d) if not isinstance(d, ast.Constant) else d.value
    for x, d in zip(reversed(a.args), reversed(a.defaults)):
        if x.arg == p:
            return ast.unparse(d).split(".")[-1] if not isinstance(d, ast.Constant) else d.value
    return None
