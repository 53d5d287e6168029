"""T01-T03: operations that rebuild query elements with some of their parts replaced."""
from __future__ import annotations

from .common import *
from .qal import NOT_CONTENT, adapter, bears, bears_expr, is_family, resolve_method
from .visitors import callbacks

# Options that the constructor derives or that the rebuilt object may take from elsewhere: (class, parameter) -> reason
DERIVED = {
    ("Relation", "provided_columns"), ("RelNode", "parent_node"),
}

SINGLE = {("ExplicitFromClause", "joins")}  # the constructor only accepts a single join
# the columns of VALUES lists are renamed selectively
SELECTIVE = {("ValuesWithQuery", "columns"), ("ValuesTableSource", "columns")}


class Rebuild:
    """Compares the object that an operation returns with the object it was given."""

    def __init__(self, ctx: Ctx, rule: str, bearing, mapping, alias=(), lossy=None):
        self.ctx, self.rule, self.bearing, self.mapping = ctx, rule, bearing, set(mapping)
        self.alias = dict(alias)
        self.records = {"BaseProjection", "OrderByExpression", "WithQuery", "ValuesWithQuery"}
        self.exempt_apply: set = set()
        self.partial_ok: set = set(SELECTIVE)
        self.single = False

    def applied(self, v: V) -> bool:
        return any(p[0] in self.mapping for p in v.src)

    def heads_ok(self, v: V, root: tuple, allowed: set) -> Optional[str]:
        """Content of another component in the place of this one."""
        n = len(root)
        heads = {p[n] for p in v.src if len(p) > n and p[:n] == root}
        heads = {h for h in heads if not h.startswith("!")}
        if heads and not heads & allowed:
            return "/".join(sorted(heads))
        return None

    def needs(self, cls: ClassInfo, p: str) -> bool:
        d = self.ctx.content(cls)[p]
        return bool(self.ctx.leaf_paths(d["ty"], ("x",), self.bearing))

    def paths(self, cls: ClassInfo, root: tuple, p: str):
        d = self.ctx.content(cls)[p]
        out = []
        for g in self.ctx.own_fields(cls, p):
            out.append((g, self.ctx.leaf_paths(d["ty"], root + (g,), self.bearing) or [root + (g,)]))
        for g in self.ctx.joint_fields(cls, p):
            out.append((g, [root + (g, "*")]))
        return out

    def fields(self, cls: ClassInfo, p: str) -> list[str]:
        return [g for g, v in self.ctx.content(cls)[p]["fields"].items() if "hash" not in v.calls]

    def unprocessed(self, it, a: V, s, cls, p, root) -> bool:
        """Parts of a component that can contain something of interest, but that have not been processed."""
        sh = a.shape
        if sh is not None and sh[0] == "seq" and sh[1]:
            return any(self.unprocessed(it, it.mat(x, s), s, cls, p, root) for x in sh[1])
        if a.elem is not None and it.mat(a.elem, s).shape is not None and it.mat(a.elem, s).shape[0] == "seq":
            return self.unprocessed(it, it.mat(a.elem, s), s, cls, p, root)
        if a.path is not None and s.nullish(a.path):
            return False
        if is_const(a) or self.applied(a) or not any(q[:len(root)] == root for q in a.src):
            return False
        need = [q for g, ps in self.paths(cls, root, p) for q in ps]
        if not any(q[:len(n)] == n or n[:len(q)] == q for n in need for q in a.src):
            return False
        return not (a.path is not None and any(q[0] in self.mapping for q in s.tested))

    def records_in(self, it, cls: ClassInfo, root: tuple):
        """Checks the records (e.g. projections) that are created from the records of the element."""
        out = []
        fields = {g: p for p in self.ctx.content(cls) for g in self.fields(cls, p)}
        for e, facts, tested in it.log:
            if e.cls is None or e.cls.name not in self.records or e.m is None or e.cls.name == cls.name:
                continue
            s = St(facts=facts, tested=tested)
            srcs = {q for a in e.m.values() for q in a.src if q[:len(root)] == root and "*" in q[len(root) + 1:len(root) + 3]}
            for g, p in fields.items():
                r = next((q[:q.index("*") + 1] for q in sorted(srcs) if q[len(root)] == g), None)
                if r is None:
                    continue
                c = e.cls
                ts = [k for k in (self.ctx.prog.class_of_qual(x) for x in facts.get(("T", r), ())) if k is not None]
                if len(ts) == 1:
                    c = ts[0]
                if not (c.is_subclass(e.cls) or e.cls.is_subclass(c)):
                    continue
                v = V(shape=("ctor", e.cls, e.m))
                if c is not e.cls and c.name in self.records:
                    out.append((f"{p}.{c.name}", f"in '{p}': {c.name} becomes a {e.cls.name}"))
                    continue
                for q, msg in self.check(it, v, s, e.cls, r):
                    out.append((f"{p}.{e.cls.name}.{q}" if q else f"{p}.{e.cls.name}", f"in '{p}': {e.cls.name} {msg}"))
        return out

    def check(self, it, v: V, s, cls: ClassInfo, root: tuple) -> list[tuple[str, str]]:
        """-> [(component, problem)]"""
        ctx = self.ctx
        if v.path is not None and v.path[0] in self.mapping:
            return []  # the whole element is replaced
        if v.path == root:
            if any(self.needs(cls, p) for p in ctx.content(cls)) and not any(q[0] in self.mapping for q in s.tested):
                return [("", "is returned without processing its parts")]
            return []
        if is_const(v, None):
            return [] if s.nullish(root) else [("", "is lost")]
        sh = v.shape
        if sh is None or sh[0] != "ctor":
            if not v.src:
                return []
            if (sh is not None and sh[0] == "seq") or (v.path is not None and v.path[:len(root)] == root):
                return [("", "is replaced by some of its parts")]
            out = []
            if not (covered(v, root) or any(q[:len(root)] == root for q in v.must)):
                if any(q[:len(root)] == root for q in v.src) or not self.applied(v):
                    return []  # not precise enough
                out.append(("", "is lost"))
            return out
        k = sh[1]
        if not (cls.is_subclass(k) or k.is_subclass(cls)):
            return [("", f"becomes a {k.name}")] if self.same_family(cls, k) else []
        if k is not cls and not set(ctx.content(cls)) <= set(ctx.content(k)):
            if adapter(ctx, cls):
                cls = k
            else:
                return [("", f"becomes a {k.name}")]
        args = sh[2]
        if "*" in args or "**" in args:
            return []
        out = []
        for p, d in ctx.content(cls).items():
            if any((x.name, p) in DERIVED for x in cls.mro()):
                continue
            flds = self.fields(cls, p)
            if not flds:
                continue
            null = all(s.nullish(root + (g,)) for g in flds)
            if p not in args:
                if p in ctx.content(k) and not null and not self.default_fits(ctx, k, p, flds, root, s):
                    out.append((p, f"loses its '{p}'"))
                continue
            a = it.mat(args[p], s)
            wrong = self.heads_ok(a, root, set(flds))
            if wrong:
                out.append((p, f"gets its '{wrong}' as '{p}'"))
                continue
            if is_const(a):
                if not null and not self.const_fits(a, flds, root, s) and not self.control(cls, root, s):
                    out.append((p, f"gets a fixed value for its '{p}'"))
                continue
            if a.shape is not None and a.shape[0] == "enum":
                if not any(s.facts.get(("e", root + (g,), (a.shape[1].name, a.shape[2]))) is True for g in flds):
                    out.append((p, f"gets a fixed value for its '{p}'"))
                continue
            alts = self.paths(cls, root, p)
            if not alts:
                alts = [(g, [root + (g,)]) for g in flds]
            if null:
                continue
            self.single = (cls.name, p) in SINGLE
            if not any(self.sat(it, a, s, ps) for g, ps in alts):
                if (not a.src and not self.empty(a)) or ((cls.name, p) in self.partial_ok and self.partly(a, alts)):
                    continue
                out.append((p, f"loses its '{p}'" if not self.partly(a, alts) else f"loses a part of its '{p}'"))
                continue
            if self.needs(cls, p) and (cls.name, p) not in self.exempt_apply and self.unprocessed(it, a, s, cls, p, root):
                out.append((p, f"keeps its '{p}' unprocessed"))
        return out

    def sat(self, it, a, s, ps):
        from .qal import satisfied
        ok = True
        for q in ps:
            if satisfied(it, a, s, [q]):
                continue
            # components with a single value for some kinds of the element
            if "*" in q and covered(a, tuple("0" if x == "*" else x for x in q)) and (self.single or self.kind_known(s, q)):
                continue
            # the alternatives of a union type
            if len(ps) > 1 and any(o != q and o[:len(q)] == q and covered(a, o) for o in ps):
                continue
            ok = False
        return ok

    def empty(self, a: V) -> bool:
        """A collection to which nothing is added."""
        return not a.src and not a.calls and a.shape is not None and a.shape[0] == "seq" and not a.shape[1]

    def kind_known(self, s, q) -> bool:
        return any(k[0] == "e" and v is True and isinstance(k[2], tuple) and k[1][:-1] == q[:len(k[1]) - 1] for k, v in s.facts.items())

    def partly(self, a, alts):
        return any(q[:len(p)] == p or p[:len(q)] == q for g, ps in alts for p in ps for q in a.src)

    def same_family(self, a: ClassInfo, b: ClassInfo) -> bool:
        return any(x in b.mro() for x in a.mro()) or (a.name.endswith("Query") and b.name.endswith("Query"))

    def default_fits(self, ctx, k, p, flds, root, s) -> bool:
        """The parameter is not given, but its default is the value known on this path."""
        init = k.find("__init__")
        if init is None:
            return False
        a = init.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        dv.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        d = dv.get(p)
        if isinstance(d, ast.Constant):
            return self.const_fits(const(d.value), flds, root, s)
        return False

    def control(self, cls, root, s) -> bool:
        """A status field that the constructor computes has been tested (e.g. the kind of a DISTINCT)."""
        known = {g for d in self.ctx.content(cls).values() for g in d["fields"]}
        return any(k[0] == "e" and v is True and len(k[1]) > len(root) and k[1][:len(root)] == root and k[1][len(root)] not in known
                   for k, v in s.facts.items())

    def const_fits(self, a, flds, root, s) -> bool:
        c = a.shape[1]
        for g in flds:
            q = root + (g,)
            if s.facts.get(("e", q, c if not isinstance(c, list) else None)) is True:
                return True
            if not c and s.nullish(q):
                return True
            if c is True and s.facts.get(("t", q)) is True:
                return True
            if c is False and s.facts.get(("t", q)) is False:
                return True
        return False


def run_dispatch(ctx: Ctx, rb: Rebuild, f: FuncInfo, param: str, classes, label: str, opaque=(), extra_args=None, facts=None, inline=None):
    """Run f once for each class that the element `param` can have."""
    rep = ctx.rep
    for c in classes:
        it = ctx.interp(inline=inline or ctx.self_hook(roots=(param,)), opaque=opaque)
        it.exact_types = True
        args = {param: it.self_value(c, param)}
        args.update(extra_args or {})
        try:
            outs = it.run(f, args, facts={("T", (param,)): frozenset({c.qual}), ("t", (param,)): True, ("n", (param,)): False, **(facts or {})})
        except Budget:
            rep.skip(rb.rule, f"{label}({c.name})")
            continue
        rets = [(it.mat(v, s), s) for k, v, s in outs if k == "return"]
        argument_types(ctx, rb, it, f, c, label)
        if not rets:
            rep.fail(rb.rule, f"{label}({c.name})", f"{f.qual} does not handle {c.name}: it always raises", f.loc())
            continue
        for p in ctx.content(c):
            rep.ok(rb.rule, f"{label}({c.name}).{p}")
        for v, s in rets:
            for p, msg in rb.check(it, v, s, c, (param,)):
                rep.fail(rb.rule, f"{label}({c.name}).{p}", f"{f.qual}: {c.name} {msg}", f.loc())
        for p, msg in rb.records_in(it, c, (param,)):
            rep.fail(rb.rule, f"{label}({c.name}).{p}", f"{f.qual}: {c.name} {msg}", f.loc())


def argument_types(ctx: Ctx, rb: Rebuild, it, f: FuncInfo, c: ClassInfo, label: str):
    """Components are only handed to operations that accept all kinds of values that the component can have."""
    for e, facts, _ in it.log:
        if e.fi is None or e.fi.module is not f.module or e.func is not f or e.fi.outer is not None or e.fi.kind != "function":
            continue
        names = e.fi.all_params()
        for a, v in zip(names, e.args):
            t = ctx.prog.ty(e.fi.module, a.annotation)
            if v.path is not None and facts.get(("n", v.path)) is True:
                continue
            have = facts.get(("T", v.path)) if v.path is not None and ("T", v.path) in facts else v.ty.names
            if t.names is None or have is None or v.path is None or v.path[0].startswith("@"):
                continue
            if any(ctx.prog.class_of_qual(n) is None and n != "None" for n in t.names):
                continue
            if any(q[0] == "e" and x is True and q[1][0] == v.path[0] and isinstance(q[2], tuple) for q, x in facts.items()):
                continue  # the kind of the component follows from the kind of the element
            for h in have - {"None"}:
                k = ctx.prog.class_of_qual(h)
                ok = any((ctx.prog.class_of_qual(n) is not None and k is not None and k.is_subclass(ctx.prog.class_of_qual(n))) for n in t.names)
                if not ok and (k is not None or h in SEQ):
                    rb.ctx.rep.fail(rb.rule, f"{label}({c.name}):{e.name}:{h.split('.')[-1]}",
                                    f"{f.qual}: for a {c.name}, '{'.'.join(v.path[1:])}' is handed to {e.name}, which does not handle values of type {h.split('.')[-1]}",
                                    f"{f.module.rel}:{e.node.lineno}")


def live(ctx: Ctx, family: str, skip=()):
    base = ctx.prog.cls(family)
    # classes of other modules decorate an element for its layout
    return [c for c in ctx.family(family) if c.name not in skip and not adapter(ctx, c) and c.module is base.module]


PRED_SKIP = ()


def families(ctx: Ctx):
    preds = live(ctx, "AbstractPredicate")
    exprs = [c for c in live(ctx, "SqlExpression") if c not in preds]
    clauses = live(ctx, "BaseClause")
    sources = live(ctx, "TableSource")
    queries = live(ctx, "SqlQuery") + live(ctx, "SetQuery")
    return exprs, preds, clauses, sources, queries


# ---------------------------------------------------------------------------------------------------------------------

TM = "postbound.transform"


def private(ctx: Ctx, name: str) -> Optional[FuncInfo]:
    return ctx.prog.find_func(TM, name)


def helpers_of(ctx: Ctx, roots, module=TM) -> list[FuncInfo]:
    """The private functions of the module that the public ones (transitively) use."""
    seen, work = {}, list(roots)
    while work:
        f = work.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                g = ctx.prog.lookup(f.module.name, n.id)
                if isinstance(g, FuncInfo) and g.module is f.module and g.cls is None and g.qual not in seen and g not in roots:
                    seen[g.qual] = g
                    work.append(g)
    return list(seen.values())


def by_element(ctx: Ctx, fs, fams) -> list[tuple[FuncInfo, str, list[ClassInfo]]]:
    """Functions that take an element of one of the families as their first parameter: (function, parameter, classes)."""
    out = []
    roots = {"SqlExpression": fams[0] + fams[1], "AbstractPredicate": fams[1], "BaseClause": fams[2], "TableSource": fams[3],
             "SqlQuery": fams[4], "SetQuery": fams[4]}
    for f in fs:
        ps = f.all_params()
        if not ps or f.cls is not None:
            continue
        names = set(ctx.prog.param_ty(f, ps[0].annotation).names or ())
        cs = [c for c in (ctx.prog.class_of_qual(q) for q in names) if c is not None]
        for r, classes in roots.items():
            if any(c.name == r for c in cs):
                out.append((f, ps[0].arg, classes))
                break
    return out


def check_T01(ctx: Ctx):
    b = bears(ctx, ("ColumnReference", "BoundColumnReference"), "columns", "itercolumns")
    fams = families(ctx)
    roots = [ctx.prog.func(TM, n) for n in ("rename_columns_in_query", "rename_columns_in_clause", "rename_columns_in_predicate",
                                            "rename_columns_in_expression")]
    helpers = [f for f in helpers_of(ctx, roots) if f not in roots]
    todo = by_element(ctx, roots + helpers, fams)
    for f, param, classes in todo:
        mapping = [a.arg for a in f.all_params()[1:]]
        if not mapping or len(deprecated(f)):
            continue
        rb = Rebuild(ctx, "rename-columns", b, mapping)
        run_dispatch(ctx, rb, f, param, classes, f.name, opaque=tuple(h.name for h, _, _ in todo))
    ctx.rep.require("rename-columns", 100)


def deprecated(f: FuncInfo):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and ast.unparse(n.func) == "warnings.warn" and "deprecated" in ast.unparse(n)]


def check_T03(ctx: Ctx):
    b = bears(ctx, {c.name for c in ctx.prog.subclasses(ctx.prog.cls("SqlExpression"))} | {"SqlExpression"}, "iterexpressions")
    fams = families(ctx)
    root = ctx.prog.func(TM, "replace_expressions")
    helpers = helpers_of(ctx, [root])
    todo = by_element(ctx, list(dict.fromkeys([root] + helpers)), fams)
    for f, param, classes in todo:
        mapping = [a.arg for a in f.all_params()[1:]]
        if not mapping:
            continue
        rb = Rebuild(ctx, "replace-expressions", b, mapping)
        run_dispatch(ctx, rb, f, param, classes, f.name, opaque=tuple(h.name for h, _, _ in todo))
    ctx.rep.require("replace-expressions", 60)
    # predicates
    pb = is_family(ctx, "AbstractPredicate")
    root = ctx.prog.func(TM, "replace_predicate")
    helpers = helpers_of(ctx, [root])
    for f in helpers:
        ps = f.all_params()
        if not f.name.startswith('_') or not ps or ps[0].arg == "query":
            continue
        for p, ptype, cs in [(ps[0].arg, ctx.prog.ty(f.module, ps[0].annotation), [ctx.prog.cls("CompoundPredicate")])]:
            if not any(n.endswith(".AbstractPredicate") for n in ptype.names or ()):
                continue
            rb = Rebuild(ctx, "replace-predicate", pb, [a.arg for a in ps[1:]])
            run_dispatch(ctx, rb, f, p, cs, f.name, opaque=(f.name,))
    replaced_clauses(ctx, root)


def replaced_clauses(ctx: Ctx, f: FuncInfo):
    """Both conditions of a query are offered to the replacement and end up in the query that is returned."""
    rep, rule = ctx.rep, "replace-predicate"
    q = f.all_params()[0].arg
    others = [a.arg for a in f.all_params()[1:3]]
    it = ctx.interp(opaque=("_perform_predicate_replacement",))
    cls = ctx.prog.cls("SqlQuery")
    for attr, part in (("where_clause", "predicate"), ("having_clause", "condition")):
        rep.ok(rule, f"{f.name}.{attr}")
        g = norm(attr)
        for k, v, s in it.run(f, {q: pathv((q,), Ty(frozenset({cls.qual})))}, facts={("t", (q, g)): True, ("n", (q, g)): False}):
            if k != "return":
                continue
            v = it.mat(v, s)
            if v.path == (q,) or not v.src:
                if s.facts.get(("t", (q, g))) is True:
                    rep.fail(rule, f"{f.name}.{attr}", f"{f.qual} does not process the {attr} of the query", f.loc())
                continue
            if not any(p[:2] == (q, g) for p in v.src):
                rep.fail(rule, f"{f.name}.{attr}", f"{f.qual} does not process the {attr} of the query", f.loc())
            for o in others:
                if (o,) not in v.src:
                    rep.fail(rule, f"{f.name}.{attr}:{o}", f"{f.qual} does not use '{o}'", f.loc())


def renamer_class(ctx: Ctx, root: FuncInfo) -> Optional[ClassInfo]:
    base = ctx.prog.cls("ClauseVisitor")
    for f in [root] + helpers_of(ctx, [root]):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                c = ctx.prog.lookup(f.module.name, n.func.id)
                if isinstance(c, ClassInfo) and c.is_subclass(base):
                    return c
    return None


def check_T02(ctx: Ctx):
    from .visitors import callbacks
    rep, rule = ctx.rep, "rename-table"
    root = ctx.prog.func(TM, "rename_table")
    vis = renamer_class(ctx, root)
    if vis is None:
        raise AnalysisError("rename_table does not use a visitor")
    b = bears(ctx, ("TableReference", "ColumnReference", "BoundColumnReference"), "tables")
    b.through_table = True
    cbs: dict = {}
    for base in vis.mro():
        if base.name in ("ClauseVisitor", "PredicateVisitor", "SqlExpressionVisitor"):
            cbs.update(callbacks(ctx, base))
    kinds = {"not": "Not", "or": "Or", "and": "And"}
    n = 0
    for name, c in cbs.items():
        f = vis.find(name)
        if f is None or f.abstract or name == "visit_predicate_expr":
            continue
        ps = [a.arg for a in f.all_params()]
        rb = Rebuild(ctx, rule, b, [ps[0]])
        rb.exempt_apply = {("ValuesWithQuery", "columns"), ("ValuesTableSource", "columns")}
        # renaming several tables to the same target collapses them in the FROM clause
        rb.partial_ok |= {("ImplicitFromClause", "tables"), ("From", "items")}
        extra = {}
        facts = {}
        word = name.split("_")[1]
        if c.name == "CompoundPredicate" and word in kinds:
            op = ctx.prog.cls("CompoundOperator")
            facts[("e", (ps[1], "operation"), (op.name, kinds[word]))] = True
            if len(ps) > 2:
                extra[ps[2]] = pathv((ps[1], "children"), ctx.content(c)["children"]["ty"])
        classes = [x for x in [c] + ctx.prog.subclasses(c) if not adapter(ctx, x) and x.module is c.module and not x.abstract_methods()]
        classes = [x for x in classes if not any(d is not c and x.is_subclass(d) and n2 != name for n2, d in cbs.items() if d.is_subclass(c))]
        it_opaque = tuple(g.name for g in vis.methods.values() if g.name.startswith("_rename"))
        for x in classes:
            run_one(ctx, rb, f, ps[1], x, name, it_opaque, extra, facts)
            n += 1
    for f in vis.methods.values():
        ps = f.all_params()
        if len(ps) != 2 or f.name.startswith("visit_") or f.name.startswith("__"):
            continue
        t = ctx.prog.param_ty(f, ps[1].annotation)
        if any(q.endswith(".TableSource") for q in t.names or ()):
            rb = Rebuild(ctx, rule, b, [ps[0].arg])
            rb.exempt_apply = {("ValuesTableSource", "columns")}
            for x in live(ctx, "TableSource"):
                run_one(ctx, rb, f, ps[1].arg, x, f.name, tuple(g.name for g in vis.methods.values() if g.name.startswith("_rename")), {}, {})
    rep.require(rule, 70)


def run_one(ctx, rb, f, param, c, label, opaque, extra, facts):
    run_dispatch(ctx, rb, f, param, [c], label, opaque=opaque, extra_args=extra, facts=facts, inline=ctx.self_hook(roots=(param,)))
