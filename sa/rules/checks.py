"""V01, V02: support checks."""
from __future__ import annotations

from .flow import *
from .qal import rule_eq

CHECK = {"check_supported_query": "query", "check_supported_database_system": "database_instance"}


def in_module(*suffix):
    def hook(it, f, recv):
        return f.module.name.endswith(suffix) or None
    return hook


def verdict(o: Outcome) -> Optional[bool]:
    """Whether a path returns a passed check result."""
    v = o.v
    if v is None:
        return None
    if v.shape is not None and v.shape[0] == "ctor":
        c = v.shape[1]
        p = v.shape[2].get("passed")
        if p is None:
            return True if getattr(c, "name", "") == "PreCheckResult" else None
        return o.it.truth(p, o.s)
    if v.path is not None:
        return o.s.facts.get(("t", v.path + ("passed",)))
    return None


class Decisions:
    """Rows of a decision table: under these facts the check has to succeed (fail)."""

    def __init__(self, ctx: Ctx, rule: str, label: str, f: FuncInfo, cls=None, **kw):
        self.ctx, self.rule, self.label, self.f, self.cls, self.kw = ctx, rule, label, f, cls, kw
        self.kw.setdefault("inline", in_module(f.module.name.rpartition(".")[2]))
        self.definite = 0

    def row(self, name: str, facts: dict, expect: bool, why: str, judge=verdict, vague=False, **kw):
        run = Run(self.ctx, self.f, self.cls, facts=facts, quantify=True, **{**self.kw, **kw})
        key = f"{self.label}:{name}"
        if not run.ok:
            self.ctx.rep.skip(self.rule, key)
            return run
        got = {judge(o) for o in run.returns}
        if got == {expect}:
            self.definite += 1
        if got & {expect, None} or (not run.returns and not expect):
            self.ctx.rep.ok(self.rule, key)
        if self.ctx.__dict__.get("debug_rows") is not None and got != {expect}:
            self.ctx.debug_rows.append((key, got))
        if (not expect) in got and vague and len(got) > 1:
            self.ctx.rep.skip(self.rule, key)
        elif (not expect) in got:
            self.ctx.rep.fail(self.rule, key, f"{self.f.qual} {'rejects' if expect else 'accepts'} {why}", self.f.loc())
        elif expect and not run.returns and run.outs:
            self.ctx.rep.fail(self.rule, key, f"{self.f.qual} always fails for {why}", self.f.loc())
        return run


def answers(*names, value=None):
    """Calls of opaque checks return results that pass or fail."""
    def hook(it, name, recv, args, kwargs, st):
        if name not in names:
            return None
        v = value(recv, args)
        if isinstance(v, bool):
            p = ("result" + str(v),)
            st.facts[("t", p + ("passed",))] = v
            st.facts[("t", p + ("failure_reason",))] = not v
            return [(V(frozenset({p}), path=p, calls=frozenset({name})), st)]
        return None
    return hook


def members(n_true: int, n_false: int):
    return [pathv((f"{b}:{i}",)) for b, n in ((True, n_true), (False, n_false)) for i in range(n)]


# ------------------------------------------------------------------------------------------------ V01
def compound(ctx: Ctx, cls: ClassInfo):
    """A compound check applies all of its components."""
    rep = ctx.rep
    attr = prop_head(ctx, cls, "checks") or "checks"
    for m, param in CHECK.items():
        f = cls.find(m)
        if f is None or f.abstract:
            rep.fail("compound", f"{cls.name}.{m}", f"{cls.name} does not implement {m}", cls.loc())
            continue
        if f.cls is not cls:
            rep.fail("compound", f"{cls.name}.{m}", f"{cls.name} does not apply its components in {m}", cls.loc())
            continue
        for name, items, expect in (("all-pass", (2, 0), True), ("first-fails", None, False), ("last-fails", (1, 1), False), ("all-fail", (0, 2), False)):
            seq = members(*items) if items else list(reversed(members(1, 1)))
            asked: list = []

            def res(it, n, recv, args, kwargs, st):
                if n in CHECK and recv is not None and recv.path is not None and recv.path[0].startswith(("True:", "False:")):
                    asked.append((n, recv.path[0], args, kwargs))
                    p = ("result", recv.path[0], n)
                    return [(V(frozenset({p}), path=p, calls=frozenset({n})), st)]
                return None
            known = {}
            for x in seq:
                for n in CHECK:
                    p = ("result", x.path[0], n)
                    known[("t", p + ("passed",))] = x.path[0].startswith("True:")
                    known[("t", p + ("failure_reason",))] = not x.path[0].startswith("True:")
            run = Run(ctx, f, cls, quantify=True, facts=known, results=res, inline=in_module(".validation"),
                      attrs={(("self",), norm(attr)): V(shape=("seq", seq), elem=seq[0], ty=Ty(frozenset({"list"})))})
            key = f"{cls.name}.{m}:{name}"
            if not run.ok or not run.returns:
                rep.skip("compound", key)
                continue
            rep.ok("compound", key)
            for o in run.returns:
                t = verdict(o)
                if t is not None:
                    rep.ok("compound", key + ":verdict")
                if t is not None and t != expect:
                    rep.fail("compound", key, f"{f.qual} {'accepts' if t else 'rejects'} although {'a component fails' if t else 'all components pass'}", f.loc())
                if expect is False and t is False:
                    why = o.v.shape[2].get("failure_reason") if o.v.shape and o.v.shape[0] == "ctor" else None
                    if why is not None:
                        why = o.it.mat(why, o.s)
                        rep.ok("compound", key + ":reasons")
                        lost = [x for x in seq if x.path[0].startswith("False:") and not any(x.path[0] in p for p in why.src)]
                        if lost:
                            rep.fail("compound", key + ":reasons", f"{f.qual} does not report the failures of all components", f.loc())
            for n, who, args, kwargs in asked:
                if n != m:
                    rep.fail("compound", f"{cls.name}.{m}:kind", f"{f.qual} asks its components for {n}", f.loc())
                given = list(args) + list(kwargs.values())
                if given and not any(x.path == (f.all_params()[1].arg,) for x in given):
                    rep.fail("compound", f"{cls.name}.{m}:arg", f"{f.qual} does not hand the checked object to its components", f.loc())
            if expect and {who for _, who, _, _ in asked} != {x.path[0] for x in seq}:
                rep.fail("compound", f"{cls.name}.{m}:asked", f"{f.qual} does not ask all of its components", f.loc())


def result_class(ctx: Ctx):
    rep = ctx.rep
    cls = ctx.prog.cls("PreCheckResult")
    f = cls.find("merge")
    for name, seq, expect in (("all-pass", members(2, 0), True), ("first-fails", list(reversed(members(1, 1))), False),
                              ("last-fails", members(1, 1), False), ("all-fail", members(0, 2), False)):
        facts = {}
        for x in seq:
            facts[("t", x.path + ("passed",))] = x.path[0].startswith("True:")
            facts[("t", x.path + ("failure_reason",))] = x.path[0].startswith("False:")
        run = Run(ctx, f, None, quantify=True, facts=facts, inline=in_module(".validation"),
                  args={f.all_params()[0].arg: V(shape=("seq", seq), elem=seq[0], ty=Ty(frozenset({"list"})))})
        key = f"PreCheckResult.merge:{name}"
        if not run.ok or not run.returns:
            rep.skip("merge", key)
            continue
        rep.ok("merge", key)
        for o in run.returns:
            t = verdict(o)
            if t is not None:
                rep.ok("merge", key + ":verdict")
            if t is not None and t != expect:
                rep.fail("merge", key, f"{f.qual} {'accepts' if t else 'rejects'} although {'a component fails' if t else 'all components pass'}", f.loc())
            why = o.v.shape[2].get("failure_reason") if t is False and o.v.shape and o.v.shape[0] == "ctor" else None
            if why is not None:
                why = o.it.mat(why, o.s)
                if any(x.path[0].startswith("False:") and not any(x.path[0] in p for p in why.src) for x in seq):
                    rep.fail("merge", key + ":reasons", f"{f.qual} does not report all failures", f.loc())
    for fail in (True, False):
        g = cls.find("with_failure" if fail else "with_all_passed")
        if g is None:
            continue
        run = Run(ctx, g, cls if g.kind == "classmethod" else None, quantify=True, inline=in_module(".validation"))
        for o in run.returns:
            t = verdict(o)
            rep.ok("merge", f"PreCheckResult.{g.name}")
            if t is fail:
                rep.fail("merge", f"PreCheckResult.{g.name}", f"{g.qual} creates a result that {'passes' if fail else 'fails'}", g.loc())
    # failures are raised
    f = cls.find("ensure_all_passed")
    par = f.all_params()[1].arg
    for kind, exc in ((None, "StateError"), ("SqlQuery", "UnsupportedQueryError"), ("Database", "UnsupportedSystemError")):
        for passed in (True, False):
            facts = {("t", ("self", "passed")): passed, **({("n", (par,)): False} if kind else {})}
            args = {par: const(None) if kind is None else ctx.prog.cls(kind)}
            run = Run(ctx, f, cls, facts=facts, args=args, inline=in_module(".validation"))
            key = f"PreCheckResult.ensure_all_passed:{kind}:{passed}"
            if not run.ok:
                rep.skip("raise", key)
                continue
            rep.ok("raise", key)
            for o in run.outs:
                if passed and o.kind == "raise":
                    rep.fail("raise", key, f"{f.qual} raises although the check passed", f.loc())
                if not passed and o.kind == "return":
                    rep.fail("raise", key, f"{f.qual} does not raise although the check failed", f.loc())
                if not passed and o.kind == "raise" and o.v is not None and o.v.shape is not None and o.v.shape[0] == "ctor":
                    c = o.v.shape[1]
                    ok = getattr(c, "name", exc) == exc or exc == "StateError"
                    if not ok:
                        rep.fail("raise", key, f"{f.qual} raises {getattr(c, 'name', c)} for a failed check of a {kind or 'unknown object'}", f.loc())


def counted(it, name, recv, args, kwargs, st):
    """The number of elements of a container whose elements are known."""
    if name == "len" and len(args) == 1:
        m = it.mat(args[0], st)
        if m.shape is not None and m.shape[0] == "seq":
            return [(const(len(m.shape[1])), st)]
    return None


def merging(ctx: Ctx):
    """merge_checks keeps all checks, also those of compounds."""
    rep = ctx.rep
    f = ctx.prog.find_func("postbound.validation", "merge_checks")
    base, comp, empty = (ctx.prog.cls(n) for n in ("OptimizationPreCheck", "CompoundCheck", "EmptyPreCheck"))
    params = f.all_params()
    first, rest = params[0].arg, (f.node.args.vararg.arg if f.node.args.vararg is not None else params[1].arg)
    plain = next(c for c in ctx.prog.concrete_subclasses(base) if c not in (comp, empty))
    attr = prop_head(ctx, comp, "checks") or "checks"

    def one(name, c):
        return pathv((name,), Ty(frozenset({c.qual})))

    def seqv(items):
        return V(frozenset(x.path for x in items), shape=("seq", list(items)), elem=items[0] if items else None, ty=Ty(frozenset({"list"})))
    for k1, c1 in (("plain", plain), ("compound", comp), ("empty", empty)):
        for k2, c2 in (("plain", plain), ("compound", comp), ("empty", empty), ("none", None)):
            for form in ("single", "list", "varargs"):
                a, b = one("a", c1), (one("b", c2) if c2 is not None else None)
                first_arg = {"single": a, "list": seqv([a]), "varargs": seqv([])}[form]
                args = {first: first_arg, rest: seqv([b] if b is not None else [])}
                facts = {("T", ("a",)): frozenset({c1.qual}), ("t", ("a",)): True, ("n", ("a",)): False}
                if b is not None:
                    facts.update({("T", ("b",)): frozenset({c2.qual}), ("t", ("b",)): True, ("n", ("b",)): False})
                run = Run(ctx, f, None, quantify=True, args=args, facts=facts, results=counted)
                key = f"merge_checks:{form}:{k1}+{k2}"
                if not run.ok or not run.returns:
                    rep.skip("merge-checks", key)
                    continue
                rep.ok("merge-checks", key)
                for x, k in ((("a",), k1 if form != "varargs" else "none"), (("b",), k2)):
                    if k in ("empty", "none"):
                        continue
                    kept = [o for o in run.returns if o.v is not None and any(p[:1] == x for p in o.v.src)]
                    lost = [o for o in run.returns if o not in kept]
                    # paths that are only taken if the merged set is empty have looked at it
                    lost = [o for o in lost if not kept or from_(o.v, "CompoundCheck") or not any(p[:1] == x for p in o.s.tested)]
                    if lost:
                        rep.fail("merge-checks", key, f"{f.qual} loses {'the components of a compound check' if k == 'compound' else 'a check'} "
                                 f"(given as {form})", f.loc())


def building(ctx: Ctx):
    """A compound check keeps all checks it is created for."""
    rep = ctx.rep
    base, comp, empty = (ctx.prog.cls(n) for n in ("OptimizationPreCheck", "CompoundCheck", "EmptyPreCheck"))
    plain = next(c for c in ctx.prog.concrete_subclasses(base) if c not in (comp, empty))
    attr = norm(prop_head(ctx, comp, "checks") or "checks")
    f = comp.find("__init__")
    par = f.all_params()[1].arg
    for kind, c in (("plain", plain), ("compound", comp)):
        facts = {("T", ("a",)): frozenset({c.qual}), ("t", ("a",)): True, ("n", ("a",)): False, ("t", ("a", attr)): True}
        a = pathv(("a",), Ty(frozenset({c.qual})))
        run = Run(ctx, f, comp, quantify=True, facts=facts, inline=in_module(".validation"),
                  args={par: V(frozenset({("a",)}), shape=("seq", [a]), elem=a, ty=Ty(frozenset({"list"})))})
        key = f"CompoundCheck.__init__:{kind}"
        ends = [o for o in run.outs if o.kind == "return"]
        if not run.ok or not ends:
            rep.skip("merge-checks", key)
            continue
        rep.ok("merge-checks", key)
        for o in ends:
            v = o.s.attrs.get((("self",), attr))
            v = None if v is None else o.it.mat(v, o.s)
            if v is None or not any(p[:1] == ("a",) for p in v.src) or (v.shape is not None and v.shape == ("seq", [])):
                rep.fail("merge-checks", key, f"{f.qual} loses {'the components of a compound check' if kind == 'compound' else 'a check'}", f.loc())


def check_V01(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    building(ctx)
    base = prog.cls("OptimizationPreCheck")
    for cls in prog.concrete_subclasses(base):
        if cls.name == "CompoundCheck":
            compound(ctx, cls)
    result_class(ctx)
    merging(ctx)
    classes = [c for c in prog.concrete_subclasses(base)]
    for c, f, compared in rule_eq(ctx, classes):
        pass
    rep.require("compound", 8)
    rep.require("merge", 4)
    rep.require("raise", 5)
    rep.require("merge-checks", 12)
    rep.require("eq", 4)


# ------------------------------------------------------------------------------------------------ V02
def check_V02(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    q = ("query",)
    inl = in_module(".validation")

    def decisions(name: str, method="check_supported_query", **kw) -> Decisions:
        cls = prog.cls(name)
        f = cls.find(method)
        me = f.all_params()[1].arg
        return Decisions(ctx, "decides", name, f, cls, inline=inl, **kw), (me,)

    def kind(c: str):
        return frozenset({prog.cls(c).qual})

    # kinds of queries
    d, q = decisions("ImplicitQueryPreCheck")
    for c in ("ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery"):
        k = prog.cls(c)
        d.row(c, {}, c == "ImplicitSqlQuery", f"queries of type {c}", args={q[0]: k})
    query = prog.cls("SqlQuery")
    d, q = decisions("SetOperationsPreCheck")
    for t in (True, False):
        d.row(f"set:{t}", {("t", q + ("is_set_query()",)): t}, not t, "set operations" if t else "queries without set operations", args={q[0]: query})
    d, q = decisions("CrossProductPreCheck")
    for t in (True, False):
        d.row(f"cross:{t}", {("t", q + ("contains_cross_product()",)): t}, not t, "cross products" if t else "queries without cross products", args={q[0]: query})
    d, q = decisions("VirtualTablesPreCheck")
    for t in (True, False):
        d.row(f"virtual:{t}", {("t", q + ("tables()",)): True, ("t", q + ("tables()", "*", "virtual")): t}, not t,
              "virtual tables" if t else "queries without virtual tables", args={q[0]: query})
    d, q = decisions("SubqueryPreCheck")
    for t in (True, False):
        d.row(f"subqueries:{t}", {("t", q + ("subqueries()",)): t}, not t, "subqueries" if t else "queries without subqueries", args={q[0]: query})
    d, q = decisions("DependentSubqueryPreCheck", recursion=3)
    sq = ("subqueries()", "*")
    for t in (True, False):
        d.row(f"dependent:{t}", {("t", q + ("subqueries()",)): True, ("t", q + sq + ("is_dependent()",)): t, ("t", q + sq + ("subqueries()",)): False}, not t,
              "dependent subqueries" if t else "independent subqueries", args={q[0]: query})
        d.row(f"dependent:nested:{t}", {("t", q + ("subqueries()",)): True, ("t", q + sq + ("is_dependent()",)): False, ("t", q + sq + ("subqueries()",)): True,
                                        ("t", q + sq + sq + ("is_dependent()",)): t, ("t", q + sq + sq + ("subqueries()",)): False}, not t,
              "dependent subqueries nested in independent ones" if t else "nested independent subqueries", args={q[0]: query})

    selects = frozenset(c.qual for c in [query, *prog.concrete_subclasses(query)])

    def plain(path):
        """The query is no set query."""
        return {("T", path): selects, ("t", path + ("is_set_query()",)): False, ("t", path): True, ("n", path): False}

    def setop(path):
        out = {("T", path): kind("SetQuery"), ("t", path + ("is_set_query()",)): True, ("t", path): True, ("n", path): False}
        for side in ("left_query", "right_query"):
            out.update(plain(path + (side,)))
        return out

    # joins
    d, q = decisions("EquiJoinPreCheck", recursion=1)
    joins = q + ("predicates()", "joins()")
    j = joins + ("*",)
    conj, nest = option(d.cls, "allow_conjunctions"), option(d.cls, "allow_nesting")
    enum = lambda e, m: enum_value(prog, e, m)

    def pred_facts(path, cls, **kw):
        out = {("T", path): kind(cls), ("t", path): True, ("n", path): False}
        for a, v in kw.items():
            if v is not None:
                out[("e", path + (a,), v)] = True
        return out

    def binary(path, op, first="ColumnExpression", second="ColumnExpression"):
        return {**pred_facts(path, "BinaryPredicate", operation=op), ("T", path + ("first_argument",)): kind(first), ("T", path + ("second_argument",)): kind(second)}

    two = results_of({"columns": V(shape=("seq", [pathv(("c1",)), pathv(("c2",))])), "len": const(2)})
    base = {("t", joins): True, ("t", ("self", conj)): False, ("t", ("self", nest)): False}
    eq, lt = enum("LogicalOperator", "Equal"), enum("LogicalOperator", "Less")
    q_args = {q[0]: query}
    base = {**base, **plain(q)}
    d.row("equal", {**base, **binary(j, eq)}, True, "equi-joins between columns", args=q_args, results=two)
    d.row("less", {**base, **binary(j, lt)}, False, "joins that do not compare for equality", args=q_args, results=two)
    for side in ("first", "second"):
        f_ = {**base, **binary(j, eq, **{side: "FunctionExpression"})}
        d.row(f"nested-{side}", f_, False, "joins on expressions although only columns are allowed", args=q_args, results=two)
        d.row(f"nested-{side}-allowed", {**f_, ("t", ("self", nest)): True}, True, "joins on expressions although they are allowed", args=q_args, results=two)
    d.row("between", {**base, **pred_facts(j, "BetweenPredicate")}, False, "BETWEEN as join predicate", args=q_args, results=two)
    ch = j + ("children",)
    for op in ("And", "Or"):
        for allowed in (True, False):
            for good in (True, False):
                facts = {**base, ("t", ("self", conj)): allowed, **pred_facts(j, "CompoundPredicate", operation=enum("CompoundOperator", op)),
                         ("t", ch): True, **binary(ch + ("*",), eq if good else lt)}
                d.row(f"{op}:{allowed}:{good}", facts, op == "And" and allowed and good,
                      f"{'con' if op == 'And' else 'dis'}junctions of {'equi' if good else 'non-equi'}-joins ({'' if allowed else 'not '}allowed)",
                      args=q_args, results=two)

    # only some of several elements violate the check
    def pair(first: tuple, second: tuple, cls: str):
        c = Ty(frozenset({prog.cls(cls).qual}))
        vs = [pathv(first, c), pathv(second, c)]
        return V(frozenset({first, second}), shape=("seq", vs), elem=vs[0], ty=Ty(frozenset({"list"}), elem=c))

    g, b = ("good",), ("bad",)
    for name, (x, y) in (("last", (g, b)), ("first", (b, g))):
        both = {**base, ("t", ("self", conj)): True, **binary(g, eq), **binary(b, lt)}
        d.row(f"some-join:{name}", both, False, "queries if only some joins compare for equality", args=q_args,
              results=results_of({"joins": pair(x, y, "AbstractPredicate"), "len": const(2)}))
        d.row(f"some-child:{name}", {**both, **pred_facts(j, "CompoundPredicate", operation=enum("CompoundOperator", "And"))}, False,
              "conjunctions if only some operands are equi-joins", args=q_args, results=two, attrs={(j, "children"): pair(x, y, "AbstractPredicate")})
        d2, q2 = decisions("DependentSubqueryPreCheck")
        d2.row(f"some:{name}", {("t", b + ("is_dependent()",)): True, ("t", g + ("is_dependent()",)): False, ("t", b + ("subqueries()",)): False, ("t", g + ("subqueries()",)): False}, False,
               "queries if only some subqueries are dependent", args={q2[0]: query}, results=first_call({"subqueries": pair(x, y, "SqlQuery")}, q2))
        d2, q2 = decisions("VirtualTablesPreCheck")
        d2.row(f"some:{name}", {("t", b + ("virtual",)): True, ("t", g + ("virtual",)): False}, False,
               "queries if only some tables are virtual", args={q2[0]: query}, results=results_of({"tables": pair(x, y, "TableReference")}))

    # join types
    d, q = decisions("InnerJoinPreCheck", recursion=2)
    fc = q + ("from_clause",)
    there = {("t", fc): True, ("n", fc): False, **plain(q)}
    q_args = {q[0]: query}
    d.row("implicit", {**there, ("T", fc): kind("ImplicitFromClause")}, True, "implicit joins", args=q_args)
    d.row("absent", {("t", fc): False, ("n", fc): True, **plain(q)}, True, "queries without FROM clause", args=q_args)

    def source(path, cls, **kw):
        out = {("T", path): kind(cls), ("t", path): True, ("n", path): False}
        for a, v in kw.items():
            out[("e", path + (a,), v)] = True
        return out

    def join(path, ty, left="DirectTableSource", right="DirectTableSource"):
        return {**source(path, "JoinTableSource", join_type=enum("JoinType", ty)), **source(path + ("left",), left), **source(path + ("right",), right)}
    for where, root, k in (("explicit", fc + stored(ctx, "ExplicitFromClause", "root"), "ExplicitFromClause"), ("mixed", fc + ("items", "*"), "From")):
        top = {**there, ("T", fc): kind(k), ("t", fc + ("items",)): True}
        for ty in ("InnerJoin", "LeftJoin", "OuterJoin", "RightJoin", "NaturalInnerJoin", "NaturalLeftJoin", "NaturalOuterJoin", "NaturalRightJoin"):
            d.row(f"{where}:{ty}", {**top, **join(root, ty)}, "Inner" in ty, f"{ty}s", args=q_args)
            for side in ("left", "right"):
                nested = {**top, **join(root, "InnerJoin"), **join(root + (side,), ty)}
                d.row(f"{where}:{side}:{ty}", nested, "Inner" in ty, f"{ty}s nested in the {side} input of another join", args=q_args)
        for c in ("DirectTableSource", "ValuesTableSource", "FunctionTableSource"):
            if k == "From":
                d.row(f"{where}:{c}", {**top, **source(root, c)}, True, f"a {c}", args=q_args)
        sub = root + stored(ctx, "SubqueryTableSource", "query") + ("from_clause",)
        for ty in ("InnerJoin", "LeftJoin"):
            facts = {**top, **source(root, "SubqueryTableSource"), **plain(sub[:-1]), ("t", sub): True, ("n", sub): False, ("T", sub): kind("ExplicitFromClause"), **join(sub + stored(ctx, "ExplicitFromClause", "root"), ty)}
            if k == "From":
                d.row(f"{where}:subquery:{ty}", facts, ty == "InnerJoin", f"{ty}s in subqueries of the FROM clause", args=q_args)

    # set operations
    lhs, rhs = stored(ctx, "SetQuery", "left_query")[-1], stored(ctx, "SetQuery", "right_query")[-1]
    for c in ("EquiJoinPreCheck", "InnerJoinPreCheck"):
        d, q = decisions(c)
        for l in (True, False):
            for r in (True, False):
                facts = setop(q)

                def halves(it, name, recv, args, kwargs, st, q=q):
                    if name != "check_supported_query" or not args or args[0].path is None or args[0].path[:1] != q or len(args[0].path) != 2:
                        return None
                    p = ("result", args[0].path[1])
                    return [(V(frozenset({p}), path=p, calls=frozenset({name})), st)]
                for side, good in ((lhs, l), (rhs, r)):
                    facts.update({("t", ("result", side, "passed")): good, ("t", ("result", side, "failure_reason")): not good})
                d.row(f"set:{l}:{r}", facts, l and r, f"set operations whose {'inputs both pass' if l and r else 'inputs do not both pass'}",
                      vague=True, args={q[0]: prog.cls("SetQuery")}, results=halves)

    # features of databases
    d, db = decisions("SupportedHintCheck", "check_supported_database_system")
    feats = option(d.cls, "hints", d.cls)
    for t in (True, False):
        d.row(f"hint:{t}", {("t", ("self", feats)): True}, t, f"systems that {'' if t else 'do not '}support a hint", args={db[0]: prog.cls("Database")},
              results=results_of({"supports_hint": const(t)}))
    for m, param in CHECK.items():
        d, x = decisions("CustomCheck", m)
        own = option(d.cls, {"check_supported_query": "query_check", "check_supported_database_system": "db_check"}[m])
        run = d.row(f"{m}:none", {("n", ("self", own)): True, ("t", ("self", own)): False}, True, "objects that it does not restrict")
        run = Run(ctx, d.f, d.cls, facts={("n", ("self", own)): False, ("t", ("self", own)): True}, inline=inl)
        rep.ok("decides", f"CustomCheck:{m}:given")
        for o in run.returns:
            if o.v is None or not any(p[:2] == ("self", own) for p in o.v.src) or not any(p[:1] == x for p in o.v.src):
                rep.fail("decides", f"CustomCheck:{m}:given", f"{d.f.qual} does not apply the given check to its argument", d.f.loc())
        for o in run.outs:
            if o.kind == "raise":
                rep.fail("decides", f"CustomCheck:{m}:given", f"{d.f.qual} does not apply the given check to its argument", d.f.loc())
    rep.require("decides", 70)


def stored(ctx: Ctx, cls: str, name: str) -> tuple:
    """The access path behind a public property of a class."""
    c = ctx.prog.cls(cls)
    f = c.find(name)
    if f is not None and f.kind == "property":
        run = Run(ctx, f, c, inline=lambda it, g, recv: g.kind == "property" or None)
        paths = {o.v.path[1:] for o in run.returns if o.v is not None and o.v.path is not None and o.v.path[0] == "self"}
        if len(paths) == 1:
            return paths.pop()
    return (name,)


def option(cls: ClassInfo, param: str, _=None) -> str:
    """The attribute that holds a constructor parameter."""
    f = cls.find("__init__")
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and n.value is not None and \
                        any(isinstance(x, ast.Name) and x.id == param for x in ast.walk(n.value)):
                    return norm(t.attr)
    return norm(param)


def enum_value(prog, enum: str, member: str):
    """How the analysis represents a member of an enumeration in its facts."""
    c = prog.cls(enum)
    for st in c.node.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == member:
            return (enum, member)
    raise AnalysisError(f"{enum}.{member} does not exist")


def first_call(table: dict, path: tuple):
    """Results of the methods of the object at a path."""
    inner = results_of(table)

    def hook(it, name, recv, args, kwargs, st):
        return inner(it, name, recv, args, kwargs, st) if recv is not None and recv.path == path else None
    return hook


def results_of(table: dict):
    def hook(it, name, recv, args, kwargs, st):
        if name in table:
            return [(table[name], st)]
        return None
    return hook
