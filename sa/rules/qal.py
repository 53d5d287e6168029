"""Rules for the query abstraction: equality, hashing, traversals, visitors, textual representation."""
from __future__ import annotations

from .common import *

# Classes whose instances are compared and hashed.  Families are closed under subclassing.
EQ_FAMILIES = ["SqlExpression", "AbstractPredicate", "BaseClause", "TableSource", "BaseProjection", "OrderByExpression", "WithQuery",
               "SqlQuery", "SetQuery", "TableReference", "ColumnReference", "QueryPredicates", "RelNode"]

# Constructor parameters that are not part of the content: (class, parameter) -> reason
NOT_CONTENT = {
    ("RelNode", "parent_node"): "back link to the consumer of the node, equality is defined on the subtree",
    ("FormattingCaseExpression", "indentation"): "layout of the text only",
    ("WithQuery", "materialized"): "documented: not included in the identity of the CTE",
    ("Relation", "provided_columns"): "schema information about the table, not part of the relational algebra expression",
    ("JoinTree", "annotation"): "documented: annotations are auxiliary data of a join tree, the structure is what is compared",
    **{("QueryPlan", p): "plans are compared by their shape: node type, scanned table and inputs" for p in (
        "operator", "subplan", "estimates", "measures", "estimated_cardinality", "estimated_cost", "actual_cardinality", "execution_time",
        "cache_hits", "cache_misses", "subplan_root", "subplan_target_name")},
    ("TableReference", "virtual"): "documented: references are equal iff identifier and schema agree; virtual is derived status",
}
COARSE = {"set", "frozenset", "sorted", "lower", "upper", "casefold", "len", "sum", "min", "max", "any", "all", "normalize", "abs", "round", "int", "strip"}


def adapter(ctx: Ctx, c: ClassInfo) -> bool:
    """Subclasses that wrap an instance of their base class only to change its text."""
    for n, d in ctx.content(c).items():
        if d["ty"].names:
            for q in d["ty"].names:
                k = ctx.prog.class_of_qual(q)
                if k is not None and k is not c and c.is_subclass(k) and len(k.mro()) > 1 and not k.abstract_methods() \
                        and not any(f.cls is c for f in [c.find("__eq__")] if f):
                    if _same_record(ctx, c, k):
                        return True
    return False


def _same_record(ctx, c, k) -> bool:
    # the constructor hands parts of the wrapped instance to the constructor of the base class
    fields = ctx.final_fields(c)
    return any(len(p) > 1 for v in fields.values() for p in v.src)


def value_classes(ctx: Ctx, families) -> list[ClassInfo]:
    out: list[ClassInfo] = []
    for f in families:
        for c in ctx.family(f):
            if c not in out and not adapter(ctx, c):
                out.append(c)
    return out


def not_content(c: ClassInfo, p: str) -> bool:
    return any((k.name, p) in NOT_CONTENT for k in c.mro())


def resolve_method(ctx: Ctx, c: ClassInfo, name: str) -> Optional[FuncInfo]:
    """The effective definition of a special method, following  __hash__ = Other.__hash__  in class bodies."""
    for k in c.mro():
        if name in k.methods:
            return k.methods[name]
        if name in k.class_attrs:
            r = ctx.prog.resolve_dotted(k.module.name, k.class_attrs[name])
            if isinstance(r, FuncInfo):
                return r
            return None
    return None


# ------------------------------------------------------------------------------------------------ equality
def eq_summary(ctx: Ctx, c: ClassInfo):
    """[(compared pairs (V, V), final state)] for every path on which the comparison of two instances of c succeeds."""
    f = resolve_method(ctx, c, "__eq__")
    it = ctx.interp(inline=ctx.self_hook(roots=("self", "other")))
    res = []
    names = f.arg_names()
    for k, v, st in it.run(f, {names[0]: it.self_value(c), names[1]: it.self_value(c, "other")}):
        if k != "return":
            continue
        for s in it.assume(v, True, st.copy()):
            pairs = []
            for key, val in s.facts.items():
                if key[0] == "cmp" and val is True and key[1] in ("==", "is") and key in it.cmp_log:
                    pairs.append(it.cmp_log[key])
                elif key[0] == "cmp" and val is False and key[1] in ("!=", "is not") and key in it.cmp_log:
                    pairs.append(it.cmp_log[key])
            # return values that combine comparisons in an opaque way count as comparing everything that flows in
            m = it.mat(v, s)
            if m.shape is None and m.src:
                pairs.append((m, m))
            res.append((pairs, s))
    return f, res


def mixes(v: V) -> bool:
    """An unordered collection of different attributes of an object: it does not tell which of them has which value."""
    if v.shape is None or v.shape[0] != "seq" or not v.ty.names or not v.ty.names <= {"set", "frozenset"}:
        return False
    return len({p[:2] for x in v.shape[1] for p in x.src if len(p) > 1}) > 1


def both_unknown(s, pairs, g: str) -> bool:
    """Both sides are unknown (NaN or missing)."""
    unequal = {k[2] for k, v in s.facts.items() if k[0] == "cmp" and k[2] == k[3] and (k[1], v) in (("!=", True), ("==", False))}
    return all(s.facts.get(("t", x + ("isnan()",))) is True or frozenset({x}) in unequal or s.nullish(x) for x in (("self", g), ("other", g)))


def rule_eq(ctx: Ctx, classes: list[ClassInfo], rule="eq"):
    rep = ctx.rep
    for c in classes:
        f = resolve_method(ctx, c, "__eq__")
        if f is None or f.abstract:
            if not (c.is_dataclass() or c.is_namedtuple()):
                rep.fail(rule, f"{c.name}", f"class {c.name} has no comparison of its content", c.loc())
            continue
        try:
            f, paths = eq_summary(ctx, c)
        except Budget:
            rep.skip(rule, c.name)
            continue
        compared_all: dict[str, list[V]] = {}
        for p, d in ctx.content(c).items():
            if not_content(c, p) or not d["fields"]:
                continue
            flds = [x for x in d["fields"] if not _derived_hash(d["fields"][x])]
            if not flds:
                continue
            own = [x for x in flds if d["fields"][x].src == {(p,)} and (p,) in d["fields"][x].whole]
            flds = own or flds
            rep.ok(rule, f"{c.name}.{p}")
            missing = None
            for pairs, s in paths:
                hit = False
                for a, b in pairs:
                    if mixes(a) or mixes(b):
                        continue
                    for x, y in ((a, b), (b, a)):
                        if any(covered(x, ("self", g)) for g in flds) and any(covered(y, ("other", g)) for g in flds):
                            hit = True
                            compared_all.setdefault(p, []).append(x)
                if not hit:
                    # both sides constrained to the same constant / emptiness
                    hit = any(s.nullish(("self", g)) and s.nullish(("other", g)) for g in flds) or any(
                        k[0] == "e" and v is True and k[1] == ("self", g) and s.facts.get(("e", ("other", g), k[2])) is True
                        for g in flds for k, v in s.facts.items()) or any(
                        s.facts.get(("t", ("self", g))) is not None and s.facts.get(("t", ("self", g))) == s.facts.get(("t", ("other", g)))
                        and d["ty"].names is not None and d["ty"].names <= {"bool"} for g in flds)
                if not hit:
                    hit = any(both_unknown(s, pairs, g) for g in flds)
                if not hit:
                    missing = (pairs, s)
            if missing is not None:
                rep.fail(rule, f"{c.name}.{p}", f"two instances of {c.name} that differ in '{p}' can compare equal: "
                         f"{f.qual} does not compare it on every path", f.loc())
        yield c, f, compared_all


def rule_eq_type(ctx: Ctx, c: ClassInfo, rule="eq-type"):
    """Comparisons succeed only for objects of the same kind; if other kinds are admitted, their hashes have to agree."""
    rep = ctx.rep
    f = resolve_method(ctx, c, "__eq__")
    if f is None or f.abstract:
        return
    it = ctx.interp(inline=ctx.self_hook())
    a0, a1 = f.arg_names()[:2]
    try:
        outs = it.run(f, {a0: it.self_value(c), a1: pathv(("other",))})
    except Budget:
        rep.skip(rule, c.name)
        return
    rep.ok(rule, c.name)
    for k, v, st in outs:
        if k != "return":
            continue
        for s in it.assume(v, True, st.copy()):
            ts = s.facts.get(("T", ("other",)))
            typed = any(key[0] == "cmp" and val is True and "type" in key[4] for key, val in s.facts.items()) or any(
                key[0] == "cmp" and key[1] == "is" and val is True for key, val in s.facts.items())
            m = it.mat(v, s)
            if ts is None and not typed and "type" not in m.calls:
                if m.shape is None and m.calls and not m.calls <= {"any", "all"}:
                    continue  # delegated to a callee we do not see through
                rep.fail(rule, c.name, f"{f.qual} can succeed for objects of any other kind", f.loc())
                continue
            if ts is not None and not typed:
                ks = [ctx.prog.class_of_qual(q) for q in ts]
                if all(k is not None and not k.is_subclass(c) and not c.is_subclass(k) for k in ks):
                    h, vals = hash_summary(ctx, c)
                    paths = {tuple(p) for key, val in s.facts.items() if key[0] == "cmp" and key[1] == "==" and val is True
                             for p in key[2] | key[3] if p[0] == "self"}
                    byfield = ctx.content(c)
                    params = {p for p, d in byfield.items() for g, fv in d["fields"].items() if ("self", g) in paths and fv.path == (p,)}
                    for hv in vals or []:
                        if not (hv.calls <= {"hash"} and any(hv.src == frozenset({(p,)}) or hv.src == frozenset({("self", g)}) or
                                                               {x[:1] for x in hv.src} == {(p,)} for p in params
                                                               for g in byfield[p]["fields"])):
                            names = "/".join(sorted(x.name for x in ks))
                            rep.fail(rule, f"{c.name}:other-kind", f"{c.name} compares equal to instances of {names}, but its hash is computed differently", f.loc())


def _derived_hash(v: V) -> bool:
    return "hash" in v.calls


def hash_summary(ctx: Ctx, c: ClassInfo):
    """Provenance of the hash value in terms of the fields of the instance (constructor parameters)."""
    h = resolve_method(ctx, c, "__hash__")
    if h is None or h.abstract:
        return None, None
    it = ctx.interp(inline=ctx.self_hook())
    init = c.find("__init__")
    states = []
    if init is not None and not (c.is_dataclass() or c.is_namedtuple()):
        it0 = ctx.interp(inline=ctx.self_hook(names={"__init__"}))
        for k, v, s in it0.run(init, {"self": it0.self_value(c)}):
            if k == "return":
                states.append(s)
    attrs = dict(it0.join_states(states).attrs) if states else {}
    heap = dict(it0.join_states(states).heap) if states else {}
    vals = []
    it.steps = 0
    st = St(attrs=attrs, heap=heap)
    for k, v, s in it._exec_func(h, {h.arg_names()[0]: it.self_value(c), "@closure": None}, st):
        if k == "return":
            vals.append(it.mat(v, s))
    return h, vals


def rule_hash(ctx: Ctx, c: ClassInfo, compared: dict[str, list[V]], rule="hash"):
    """Everything the hash depends on takes part in the comparison, and is not compared more coarsely than hashed."""
    rep = ctx.rep
    own_eq = [k for k in c.mro() if "__eq__" in k.methods]
    h = resolve_method(ctx, c, "__hash__")
    if h is None:
        return
    # python removes the inherited __hash__ from classes that define __eq__ only
    k = own_eq[0] if own_eq else None
    hk = next((x for x in c.mro() if "__hash__" in x.methods or "__hash__" in x.class_attrs), None)
    if k is not None and hk is not None and c.mro().index(k) < c.mro().index(hk):
        rep.ok(rule, f"{c.name}.__hash__")
        rep.fail(rule, f"{c.name}.__hash__", f"{k.name} defines __eq__ without __hash__: its instances are not hashable", k.loc())
        return
    try:
        h, vals = hash_summary(ctx, c)
    except Budget:
        rep.skip(rule, c.name)
        return
    if vals is None:
        return
    if any("id" in v.calls for v in vals):
        rep.fail(rule, f"{c.name}.__hash__", f"the hash of {c.name} depends on the identity of an object: equal objects have different hashes", h.loc())
    content = ctx.content(c)
    byfield = {}
    for p, d in content.items():
        for g in d["fields"]:
            byfield.setdefault(g, []).append(p)
    used: dict[str, set] = {}
    for v in vals:
        for path in v.src:
            if path[0] == "self" and len(path) > 1:
                for p in byfield.get(path[1], []):
                    used.setdefault(p, set()).update(v.calls)
            elif path[0] in content:
                used.setdefault(path[0], set()).update(v.calls)
    for p, hcalls in sorted(used.items()):
        if not_content(c, p):
            if any((kk.name, p) in NOT_CONTENT for kk in c.mro()):
                rep.ok(rule, f"{c.name}.{p}")
                rep.fail(rule, f"{c.name}.{p}", f"the hash of {c.name} depends on '{p}', which is not part of its equality", h.loc())
            continue
        rep.ok(rule, f"{c.name}.{p}")
        cmp = compared.get(p)
        if not cmp:
            rep.fail(rule, f"{c.name}.{p}", f"the hash of {c.name} depends on '{p}', which does not take part in the comparison: "
                     "equal objects can have different hashes", h.loc())
            continue
        # coarser comparison than hash
        fcalls = set()
        for g, fv in content[p]["fields"].items():
            if any(covered(x, ("self", g)) for x in cmp):
                fcalls |= fv.calls
        ccalls = set.intersection(*[set(x.calls) for x in cmp]) | fcalls
        coarse = {"set" if x == "frozenset" else x for x in ccalls & COARSE} - {"set" if x == "frozenset" else x for x in hcalls}
        exact_fields = [fv for g, fv in content[p]["fields"].items() if any(covered(x, ("self", g)) for x in cmp)]
        if not coarse and all((p,) in v.whole for v in vals) and exact_fields and not any((p,) in fv.whole for fv in exact_fields):
            rep.fail(rule, f"{c.name}.{p}", f"'{p}' is hashed as given to the constructor, but a normalised value of it is compared: "
                     "equal objects can have different hashes", h.loc())
        if coarse:
            rep.fail(rule, f"{c.name}.{p}", f"'{p}' is compared after {'/'.join(sorted(coarse))} but hashed without: "
                     "equal objects can have different hashes", h.loc())


def check_Q01(ctx: Ctx):
    classes = value_classes(ctx, EQ_FAMILIES)
    for c, f, compared in rule_eq(ctx, classes):
        rule_hash(ctx, c, compared)
        rule_eq_type(ctx, c)
    ctx.rep.require("eq", 60)
    ctx.rep.require("hash", 60)


# ------------------------------------------------------------------------------------------------ collectors
ELEMENT_FAMILIES = ["SqlExpression", "AbstractPredicate", "BaseClause", "TableSource", "BaseProjection", "OrderByExpression", "WithQuery",
                    "SqlQuery", "SetQuery"]


def bears(ctx: Ctx, atoms, *methods):
    """Classes that can contain the atoms: at least one of their concrete subclasses reports some."""
    memo: dict = {}

    def nonempty(c: ClassInfo) -> bool:
        if c.abstract_methods():
            return False
        for m in methods:
            f = resolve_method(ctx, c, m)
            if f is None or f.abstract:
                continue
            it = ctx.interp(inline=ctx.self_hook())
            try:
                if any(k == "return" and it.mat(v, s).src for k, v, s in it.run(f, {f.arg_names()[0]: it.self_value(c)})):
                    return True
            except Budget:
                return True
        return False

    def pred(c: ClassInfo) -> bool:
        if c.name in atoms:
            return True
        if not any(c.find(m) is not None for m in methods):
            return False
        if c.qual not in memo:
            memo[c.qual] = True  # recursive types
            memo[c.qual] = any(nonempty(x) for x in [c] + ctx.prog.subclasses(c))
        return memo[c.qual]
    return pred


def bears_expr(ctx):
    base = ctx.prog.cls("SqlExpression")
    wrap = {"BaseProjection", "OrderByExpression"}

    def pred(c: ClassInfo) -> bool:
        return c.is_subclass(base) or c.name in wrap or c.find("iterexpressions") is not None
    return pred


def is_family(ctx, name):
    base = ctx.prog.cls(name)
    return lambda c: c.is_subclass(base)


def required(ctx: Ctx, c: ClassInfo, pred, root="self"):
    """[(parameter, [alternative requirement lists])]: one list of access paths per field that holds the parameter."""
    out = []
    for p, d in ctx.content(c).items():
        alts = []
        for g in ctx.own_fields(c, p):
            ps = [_atom(ctx, q, d["ty"], pred) for q in ctx.leaf_paths(d["ty"], (root, g), pred)]
            # the constructor may turn a single value into a sequence
            fty = d["fields"][g].ty
            alts.append((g, ps))
        for g in ctx.joint_fields(c, p):
            if ctx.leaf_paths(d["ty"], (root, g), pred):
                alts.append((g, [(root, g, "*")]))
        alts = [(g, ps) for g, ps in alts if ps]
        if alts:
            out.append((p, alts))
    return out


def _atom(ctx, q, ty, pred):
    """Columns mention tables through their (optional) table."""
    if getattr(pred, "through_table", False) and ctx.bearing(ty, lambda c: c.name == "ColumnReference") and not ctx.bearing(ty, lambda c: c.find("tables") is not None):
        return q + ("table",)
    return q


def satisfied(it, v: V, s, paths) -> bool:
    for q in paths:
        if covered(v, q) or s.nullish(q) or type_excludes(it, s, q):
            continue
        # a union of a single value and a sequence may have been normalised by the constructor
        if len(paths) > 1 and any(o != q and o[:len(q)] == q and covered(v, o) for o in paths):
            continue
        return False
    return True


def loses(ctx: Ctx, what: str):
    """Calls on a component that do not report everything in it."""
    expr = ctx.prog.cls("SqlExpression")
    memo = ctx.__dict__.setdefault("_leaf", {})

    def leaf(k: ClassInfo) -> bool:
        if k.qual not in memo:
            memo[k.qual] = False
            f = resolve_method(ctx, k, "iterchildren")
            it = ctx.interp(inline=ctx.self_hook())
            try:
                memo[k.qual] = f is not None and not any(
                    x == "return" and it.mat(v, s).src for x, v, s in it.run(f, {f.arg_names()[0]: it.self_value(k)}))
            except Budget:
                pass
        return memo[k.qual]

    def lossy(it, name, recv, st):
        cs = it.classes_of(recv, st)
        if not cs:
            return False
        if what == "tables":
            # columns do not mention the tables of  SELECT *  or  count(*)  subqueries
            if name in ("columns", "itercolumns") and all(c.find("tables") is not None for c in cs):
                return True
        if name == "iterchildren":
            # leaves do not have children: whatever they contain is lost
            return any(leaf(k) for c in cs for k in ctx.prog.concrete_subclasses(c) if k.is_subclass(expr))
        return False
    return lossy


def collector(ctx: Ctx, c: ClassInfo, f: FuncInfo, what=""):
    it = ctx.interp(inline=ctx.self_hook(), force={"is_bound"})
    it.lossy = loses(ctx, what)
    outs = []
    for k, v, s in it.run(f, {f.arg_names()[0]: it.self_value(c)}):
        if k == "return":
            outs.append((it.mat(v, s), s))
    return it, outs


def rule_collect(ctx: Ctx, rule: str, method: str, classes, pred, exempt=(), what="tables", lose=""):
    rep = ctx.rep
    for c in classes:
        f = resolve_method(ctx, c, method)
        if f is None or f.abstract:
            continue
        reqs = required(ctx, c, pred)
        if not reqs:
            continue
        try:
            it, outs = collector(ctx, c, f, lose or what)
        except Budget:
            rep.skip(rule, f"{c.name}.{method}")
            continue
        for p, alts in reqs:
            if any((k.name, p) in exempt for k in c.mro()):
                continue
            rep.ok(rule, f"{c.name}.{method}:{p}")
            for v, s in outs:
                if not any(satisfied(it, v, s, ps) for g, ps in alts):
                    fn = it_where(f)
                    rep.fail(rule, f"{c.name}.{method}:{p}", f"{c.name}.{method}() does not take the {what} of '{p}' into account on every path", f.loc())
                    break


def it_where(f):
    return f.qual


def check_Q02(ctx: Ctx):
    classes = value_classes(ctx, ELEMENT_FAMILIES)
    pred = bears(ctx, ("TableReference", "ColumnReference", "BoundColumnReference"), "tables")
    pred.through_table = True
    rule_collect(ctx, "tables", "tables", classes, pred, exempt={
        ("WithQuery", "target_name"),  # the name that the CTE introduces is not a table that it mentions
        ("ValuesWithQuery", "columns"),  # names of the columns that are introduced along with the CTE/virtual table
        ("ValuesTableSource", "columns"),
    })
    ctx.rep.require("tables", 40)


def check_Q03(ctx: Ctx):
    classes = value_classes(ctx, ELEMENT_FAMILIES)
    pred = bears(ctx, ("ColumnReference", "BoundColumnReference"), "columns", "itercolumns")
    rule_collect(ctx, "columns", "columns", classes, pred, what="columns")
    rule_collect(ctx, "itercolumns", "itercolumns", classes, pred, what="columns")
    ctx.rep.require("columns", 40)
    ctx.rep.require("itercolumns", 40)


def check_Q04(ctx: Ctx):
    classes = value_classes(ctx, ELEMENT_FAMILIES)
    e = bears_expr(ctx)
    pr = is_family(ctx, "AbstractPredicate")
    ex = is_family(ctx, "SqlExpression")
    expr = [c for c in classes if c.is_subclass(ctx.prog.cls("SqlExpression"))]
    pred = [c for c in classes if c.is_subclass(ctx.prog.cls("AbstractPredicate"))]
    rest = [c for c in classes if c not in expr and c not in pred]
    rule_collect(ctx, "iterchildren", "iterchildren", expr, e, what="expressions", exempt={
        ("SubqueryExpression", "subquery")  # a query is not an expression: subqueries are the leaves of expressions
    })
    rule_collect(ctx, "iterexpressions", "iterexpressions", pred + rest, e, what="expressions")
    rule_collect(ctx, "iterpredicates", "iterpredicates", rest, pr, what="predicates")
