"""Q07: the formatted text of a query mentions all content of each of its clauses, whatever the formatting options are."""
from __future__ import annotations

from .common import *
from .qal import NOT_CONTENT, adapter
from .rebuild import Rebuild, bears, by_element, families, helpers_of, run_dispatch
from .text import BY_KIND, KEYWORDS, PRESUME, absent, scalar_only

MOD = "postbound.qal._formatter"
FLAVORS = ("vanilla", "postgres")
# the names of the simple directions are not part of LIMIT clauses
SPELLED = {**BY_KIND, ("Limit", "fetch_direction"): "fetch_direction"}


def tup(r) -> tuple:
    return (r,) if isinstance(r, str) else r


class Formatting:
    """The paths of format_quick() for a query with the given clauses."""

    def __init__(self, ctx: Ctx, parts: dict, facts: dict, lists: Optional[dict] = None, query: str = "SqlQuery", caps=None, recursion: int = 0):
        self.ctx, self.parts, self.lists = ctx, parts, lists or {}
        self.f = ctx.prog.func(MOD, "format_quick")
        it = ctx.interp(**{"cap": 64, "call_cap": 32, "max_steps": 400000, **(caps or {})})
        self.it = it
        roots = {r for r in parts if isinstance(r, str)} | {"query"}
        it.inline_hook = lambda it, g, recv: True if recv is not None and recv.path is not None and len(recv.path) == 1 and recv.path[0] in roots and not g.name.startswith("__") else None
        q = it.self_value(ctx.prog.cls(query), "query")
        self.q = q
        it.result_hook = self.result
        it.results = self.size
        it.quantify = it.exact_lists = True
        it.recursion = recursion
        it.arg_hook = lambda it, g, args: False if g is self.f else None
        parts = {tup(r): c for r, c in parts.items()}
        fs = {("T", r): frozenset({c.qual}) for r, c in parts.items()}
        fs.update({("T", q.path): frozenset(q.ty.names), ("t", q.path): True, ("n", ("custom_formatter",)): True, ("t", ("custom_formatter",)): False})
        for r in parts:
            fs[("n", r)] = False
        p = self.f.all_params()[0].arg
        fs.update(facts)
        self.outs = [(it.mat(v, s), s) for k, v, s in it.run(self.f, {p: q}, facts=fs) if k == "return"]

    @staticmethod
    def loc(ctx: Ctx) -> str:
        return ctx.prog.func(MOD, "format_quick").loc()

    def value(self, r: str) -> V:
        c = self.parts[r] if r in self.parts else self.parts[tup(r)]
        return pathv(tup(r), Ty(frozenset({c.qual})))

    def seq(self, names) -> V:
        vs = [self.value(r) for r in names]
        return V(frozenset(q for v in vs for q in v.src), frozenset(q for v in vs for q in v.must), frozenset(q for v in vs for q in v.whole),
                 None, Ty(frozenset({"list"})), ("seq", vs) if vs else ("seq", [], True))

    def size(self, it, name: str, g, args, kwargs, st):
        if name == "len" and len(args) == 1 and (xs := it._exact_items(args[0], st)) is not None:
            return [(const(len(xs)), st)]
        return None

    def result(self, it, g: FuncInfo, args):
        if g.name == "replace_expressions" and args:
            return args[0]  # decided by T03
        if g.cls is None:
            return None
        k = self.lists.get(g.name)
        if k is None and args and args[0].path is not None and len(args[0].path) == 1:
            k = self.lists.get(f"{args[0].path[0]}.{g.name}")
        if k is not None:
            return self.seq(k) if isinstance(k, list) else k if isinstance(k, V) else self.value(k)
        return None


def fields(ctx: Ctx, k: ClassInfo, p: str) -> list[str]:
    return [g for g, v in ctx.content(k)[p]["fields"].items() if "hash" not in v.calls]


def assumed(ctx: Ctx, c: ClassInfo, root: str) -> list[tuple]:
    """The combinations of options for which the text of an element has to be complete: (parameters it applies to, facts)."""
    names = [x.name for x in c.mro()]
    out: dict = {}
    for (n, p), how in PRESUME.items():
        if n in names and p in ctx.content(c):
            fs = {}
            for q, h in how:
                for g in fields(ctx, c, q):
                    x = (*tup(root), g)
                    some, none = h in ("some", "true"), h in ("none",)
                    fs[("n", x)] = none
                    if h != "some":
                        fs[("t", x)] = some
            out[p] = fs
    return out


def listed(ty: Ty) -> bool:
    return bool(ty.names) and any(n in SEQ for n in ty.names)


def complete(ctx: Ctx, rule: str, label: str, c: ClassInfo, root, outs, only=None):
    """Each component of the element is part of the text on each path, unless it is absent there."""
    rep, root = ctx.rep, tup(root)
    names = [x.name for x in c.mro()]
    for p, d in ctx.content(c).items():
        if only is not None and p not in only:
            continue
        if any((x, p) in NOT_CONTENT for x in names) and (not any(x == "WithQuery" for x in names) or p != "materialized"):
            continue
        flds = fields(ctx, c, p)
        if not flds:
            continue
        kind = next(((x, p) for x in names if (x, p) in SPELLED), None)
        other = SPELLED[kind] if kind else None
        if kind and other is None:
            continue
        kw = scalar_only(ctx, d["ty"])
        ofl = fields(ctx, c, other) if other else []
        rep.ok(rule, f"{label}.{p}")
        for v, s in outs:
            if any(covered(v, (*root, g, "*") if listed(d["ty"]) else (*root, g)) for g in flds):
                continue
            if any(absent(s, (*root, g), d["ty"]) or (kw and ((*root, g) in s.tested or any(q[0] == "e" and q[1] == (*root, g) for q in s.facts))) for g in flds):
                continue
            if any((*root, g) in s.tested for g in ofl):
                continue
            rep.fail(rule, f"{label}.{p}", f"format_quick: the text of a {c.name} ({label}) omits '{p}' on some path", Formatting.loc(ctx))
            break


def check_Q07(ctx: Ctx):
    rep = ctx.rep
    prettified(ctx)
    rep.require("expression", 40)
    set_queries(ctx)
    rep.require("set-query", 6)
    inlined_hints(ctx)
    conditions(ctx)
    rep.require("condition", 10)
    distinct(ctx)
    keywords(ctx)
    rep.require("keyword", 20)
    clauses(ctx)
    rep.require("clause", 20)
    sources(ctx)
    rep.require("source", 40)
    ctes(ctx)
    rep.require("cte", 20)
    rep.require("nested", 3)


def clauses(ctx: Ctx):
    """Each kind of clause for each flavor."""
    for c in ctx.family("BaseClause"):
        if c.name in ("UnionClause", "IntersectClause", "ExceptClause", "ImplicitFromClause", "ExplicitFromClause", "From",
                      "CommonTableExpression") or adapter(ctx, c):
            continue  # see set_queries(), sources() and ctes()
        special = assumed(ctx, c, "clause")
        for fl in FLAVORS:
            for p in [None, *special]:
                try:
                    facts = {("e", ("flavor",), fl): True, **(special[p] if p else {})}
                    if c.name == "Hint":
                        facts.update({("t", ("inline_hint_block",)): False})  # see inlined_hints()
                    r = Formatting(ctx, {"clause": c}, facts, {"clauses": ["clause"]})
                except Budget:
                    ctx.rep.skip("clause", f"{c.name}:{fl}")
                    continue
                only = {p} if p else set(ctx.content(c)) - set(special)
                complete(ctx, "clause", f"{c.name}:{fl}", c, "clause", r.outs, only)


def conditions(ctx: Ctx):
    """The parts of a condition that is spread over several lines."""
    w = ctx.prog.cls("Where")
    path = ("clause", fields(ctx, w, next(iter(ctx.content(w))))[0])
    for c in ctx.family("AbstractPredicate"):
        if adapter(ctx, c) or c.name in UNSUPPORTED:
            continue
        r = Formatting(ctx, {"clause": w, path: c}, {}, {"clauses": ["clause"]})
        complete(ctx, "condition", f"Where:{c.name}", c, path, r.outs)


def distinct(ctx: Ctx):
    """DISTINCT is printed exactly if it is requested, including its expressions."""
    rep = ctx.rep
    c, proj = ctx.prog.cls("Select"), ctx.prog.cls("BaseProjection")
    col = next(x for x in ctx.family("SqlExpression") if x.name == "ColumnExpression")
    for n in (1, 2, 3, 4):
        for on in (None, 0, 1, 2):
            names, ons = [f"t{i}" for i in range(n)], [f"on{i}" for i in range(on or 0)]
            label = f"Select:{n}:{on}"
            r = Formatting(ctx, {"clause": c, **{t: proj for t in names}, **{o: col for o in ons}}, {},
                           {"clauses": ["clause"], "targets": names, "distinct_on": ons, "is_distinct": const(on is not None)})
            rep.ok("distinct", label)
            for v, s in r.outs:
                if ("clause",) in v.whole:
                    continue
                if any(isinstance(x, str) and "DISTINCT" in x for x in v.strs) is not (on is not None):
                    rep.fail("distinct", label, f"format_quick: DISTINCT is {'missing in' if on is not None else 'added to'} the text of a projection", Formatting.loc(ctx))
                for x in names + ons:
                    if not covered(v, (x,)):
                        rep.fail("distinct", f"{label}:{x}", f"format_quick: the text omits {'an expression of DISTINCT ON' if x in ons else 'a target'}", Formatting.loc(ctx))


def sources(ctx: Ctx):
    """Each kind of table source, alone, in a list, and as operand of a join."""
    kinds = [c for c in ctx.family("TableSource") if not adapter(ctx, c)]
    joins = [c for c in kinds if c.name == "JoinTableSource"]
    simple = [c for c in kinds if c.name in ("DirectTableSource", "SubqueryTableSource")]
    exp, gen = ctx.prog.cls("ExplicitFromClause"), ctx.prog.cls("From")
    imp, direct = ctx.prog.cls("ImplicitFromClause"), ctx.prog.cls("DirectTableSource")
    for n in (1, 2, 3, 4, 5):
        names = [f"t{i}" for i in range(n)]
        one(ctx, f"Implicit{n}", {"clause": imp, **{t: direct for t in names}}, {"items": names}, names)
    for c in kinds:
        one(ctx, c.name, {"clause": gen, "t0": c}, {"items": ["t0"]}, ["t0"])
        one(ctx, f"{c.name},{c.name}", {"clause": gen, "t0": c, "t1": c, "t2": c}, {"items": ["t0", "t1", "t2"]}, ["t0", "t1", "t2"])
    for j in joins:
        for a in simple + joins:
            for b in simple + joins:
                l, r = operands(ctx, j)
                one(ctx, f"{a.name}/{b.name}", {"clause": exp, "join": j, l: a, r: b}, {"root": "join"}, ["join", l, r])


def operands(ctx: Ctx, j: ClassInfo) -> tuple:
    return tuple(("join", fields(ctx, j, p)[0]) for p in list(ctx.content(j))[:2])


def one(ctx: Ctx, label: str, parts: dict, lists: dict, need: list):
    for extra in [None] + [p for r in need for p in assumed(ctx, parts[r], r)]:
        facts = {}
        for r in need:
            a = assumed(ctx, parts[r], r)
            if extra in a:
                facts.update(a[extra])
        try:
            r = Formatting(ctx, parts, facts, {"clauses": ["clause"], **lists}, recursion=1 if "join" in parts else 0)
        except Budget:
            ctx.rep.skip("source", label)
            return
        nested(ctx, "source", r)
        for root in need:
            a = assumed(ctx, parts[root], root)
            c = parts[root]
            only = ({extra} if extra in a else set()) if extra else set(ctx.content(c)) - set(a)
            if "join" in need and root == "join":
                only -= set(list(ctx.content(c))[:2])  # the operands are judged themselves
            complete(ctx, "source", f"{label}:{'.'.join(tup(root))}", c, root, r.outs, only)


def ctes(ctx: Ctx):
    cte = ctx.prog.cls("CommonTableExpression")
    kinds = [c for c in ctx.prog.concrete_subclasses(ctx.prog.cls("WithQuery"))]
    for n in (1, 2, 3):
        for i in range(n):
            for c in kinds:
                rest = next(k for k in kinds if k.name == "WithQuery")
                parts = {"clause": cte, **{f"w{j}": c if i == j else rest for j in range(n)}}
                try:
                    r = Formatting(ctx, parts, {}, {"clauses": ["clause"], "queries": [f"w{j}" for j in range(n)]})
                except Budget:
                    ctx.rep.skip("cte", c.name)
                    continue
                nested(ctx, "cte", r)
                complete(ctx, "cte", f"{c.name}:{i}of{n}", c, f"w{i}", r.outs)
                complete(ctx, "cte", f"CommonTableExpression:{c.name}:{i}of{n}", cte, "clause", r.outs, {"recursive"})


def prettified(ctx: Ctx):
    """The replacement of an expression for the layout has all components of the original."""
    f = ctx.prog.func(MOD, "format_quick")
    todo = [(g, p, cs) for g, p, cs in by_element(ctx, helpers_of(ctx, [f]), families(ctx)) if returns(ctx, g, "SqlExpression")]
    b = bears(ctx, {c.name for c in ctx.prog.subclasses(ctx.prog.cls("SqlExpression"))} | {"SqlExpression"}, "iterexpressions")
    for g, p, cs in todo:
        flavored = any(a.arg == "flavor" for a in g.all_params())
        for fl in FLAVORS if flavored else (None,):
            rb = Layout(ctx, "expression", b, [g.name])
            rb.kept, rb.none = set(), set()
            label = g.name + (f":{fl}" if fl else "")
            run_dispatch(ctx, rb, g, p, [c for c in cs if c.name not in UNSUPPORTED], label,
                         opaque=tuple(h.name for h, _, _ in todo), facts={("e", ("flavor",), fl): True} if fl else None)
            for c, q in sorted(rb.none - rb.kept, key=lambda x: (x[0].name, x[1])):
                ctx.rep.fail("expression", f"{label}({c.name}).{q}", f"{g.qual}: {c.name} loses its '{q}'", g.loc())


# filter wrappers for the policies of optimizers, they never occur within queries
UNSUPPORTED = ("SimpleFilter", "SimpleJoin")


class Layout(Rebuild):
    """Nested parts may keep their layout, adapters replace the elements they wrap."""

    def needs(self, cls, p) -> bool:
        return False

    def check(self, it, v, s, cls, root):
        if v.shape is not None and v.shape[0] == "ctor" and adapter(self.ctx, v.shape[1]) and v.shape[1].is_subclass(cls):
            if not set(self.ctx.content(cls)) <= set(self.ctx.content(v.shape[1])):
                return [] if covered(v, root) or any(a.path == root for a in v.shape[2].values() if isinstance(a, V)) else [("", "is lost")]
        out = super().check(it, v, s, cls, root)
        if cls.name == "BetweenPredicate" and v.shape is not None and v.shape[0] == "ctor" and (a := v.shape[2].get("interval")) is not None:
            a = it.mat(a, s)
            if a.shape is not None and a.shape[0] == "seq" and len(a.shape[1]) == 2:
                ends = [{q for q in it.mat(x, s).src if q[:len(root)] == root} for x in a.shape[1]]
                if any("interval_start" in q for q in ends[1]) or any("interval_end" in q for q in ends[0]):
                    out.append(("interval", "swaps the bounds of its 'interval'"))
        # None may stand for an empty list of new parts (the emptiness of a list under construction is not known)
        bad = {p for p, m in out}
        self.kept |= {(cls, p) for p in self.ctx.content(cls) if p not in bad and v.shape is not None and v.shape[0] == "ctor" and p in v.shape[2] and not is_const(v.shape[2][p], None)}
        none = {p for p, m in out if v.shape[0] == "ctor" and p in v.shape[2] and is_const(v.shape[2][p], None)}
        self.none |= {(cls, p) for p in none}
        return [(p, m) for p, m in out if p not in none]


def returns(ctx: Ctx, g: FuncInfo, name: str) -> bool:
    t = ctx.prog.ty(g.module, g.node.returns)
    return any(n.endswith("." + name) for n in t.names or ())


def set_queries(ctx: Ctx):
    """The operands, the operator and all clauses of a set query."""
    c = ctx.prog.cls("SetQuery")
    for fl in FLAVORS:
        r = Formatting(ctx, {}, {("e", ("flavor",), fl): True}, {}, query="SetQuery")
        nested(ctx, "set-query", r)
        complete(ctx, "set-query", f"SetQuery:{fl}", c, "query", r.outs, set(ctx.content(c)) - {"limit_clause"})
        for v, s in r.outs:
            got = [p for x in pieces(v) for p in ("left_query", "right_query") if any(("query", g) in x.src for g in fields(ctx, c, p))]
            if got and got != ["left_query", "right_query"]:
                ctx.rep.fail("set-query", "operands", f"format_quick: the operands of a set query are printed in the order {', '.join(got)}", Formatting.loc(ctx))


        lim, path = ctx.prog.cls("Limit"), ("query", fields(ctx, c, "limit_clause")[0])
        facts = {("e", ("flavor",), fl): True, ("t", path): True, ("n", path): False}
        complete(ctx, "set-query", f"SetQuery:{fl}:Limit", lim, path, Formatting(ctx, {path: lim}, facts, {}, query="SetQuery").outs, {"limit", "offset"})


def pieces(v: V) -> list:
    if v.shape is not None and v.shape[0] in ("fmt", "seq"):
        return [x for p in v.shape[1] for x in pieces(p)]
    if v.shape is not None and v.shape[0] == "join" and len(v.shape) > 2 and isinstance(v.shape[2], V):
        return pieces(v.shape[2])
    return [v]


def inlined_hints(ctx: Ctx):
    """Hints are part of the text, wherever they are placed."""
    h, sel = ctx.prog.cls("Hint"), ctx.prog.cls("Select")
    for inline in (True, False):
        r = Formatting(ctx, {"hint": h, "clause": sel}, {("t", ("inline_hint_block",)): inline}, {"clauses": ["hint", "clause"]})
        complete(ctx, "hints", f"Hint:inline={inline}", h, "hint", r.outs)
        complete(ctx, "hints", f"Select:inline={inline}", sel, "clause", r.outs)


WORDS = {"vanilla": r"\bFETCH\b", "postgres": r"\bLIMIT\b"}


def spelled(ctx: Ctx, label: str, roots, outs, rx: str, must: bool, what: str):
    import re
    ctx.rep.ok("keyword", f"{label}:{rx}:{must}")
    for v, s in outs:
        if any(tup(r) in v.whole for r in roots):
            continue  # printed by the element itself, see Q06
        if any(isinstance(x, str) and re.search(rx, x) for x in v.strs) is not must:
            ctx.rep.fail("keyword", label, f"format_quick: the text {'lacks' if must else 'contains'} {rx!r} for {what}", Formatting.loc(ctx))


def option(ctx: Ctx, c: ClassInfo, root: str, p: Optional[str], val) -> dict:
    fs = {}
    for g in fields(ctx, c, p) if p is not None else ():
        q = (*tup(root), g)
        fs[("n", q)] = val is None
        fs[("t", q)] = bool(val)
        if val is not None:
            fs[("e", q, val)] = True
    return fs


def keywords(ctx: Ctx):
    cte, gen, lim = ctx.prog.cls("CommonTableExpression"), ctx.prog.cls("From"), ctx.prog.cls("Limit")
    plain = ctx.prog.cls("WithQuery")
    for cname, p, val, rx, must in KEYWORDS:
        c = ctx.prog.cls(cname)
        what = f"{cname}.{p}={val}" if p else cname
        if cname == "CommonTableExpression":
            for k in ctx.prog.concrete_subclasses(plain):
                for n in (1, 2):
                    parts = {"clause": c, **{f"w{i}": k for i in range(n)}}
                    r = Formatting(ctx, parts, option(ctx, c, "clause", p, val), {"clauses": ["clause"], "queries": [f"w{i}" for i in range(n)]})
                    spelled(ctx, f"{what}:{k.name}:{n}", ["clause"], r.outs, rx, must, what)
        elif c.is_subclass(plain):
            for n in (1, 2, 3):
                for i in range(n):
                    parts = {"clause": cte, **{f"w{j}": c if i == j else plain for j in range(n)}}
                    fs = {}
                    for j in range(n):
                        fs.update(option(ctx, parts[f"w{j}"], f"w{j}", "materialized", val if j == i else None))
                    r = Formatting(ctx, parts, fs, {"clauses": ["clause"], "queries": [f"w{j}" for j in range(n)]})
                    spelled(ctx, f"{what}:{i}of{n}", [f"w{i}", "clause"], r.outs, rx, must, what)
        elif cname == "SubqueryTableSource":
            r = Formatting(ctx, {"clause": gen, "t0": c}, option(ctx, c, "t0", p, val), {"clauses": ["clause"], "items": ["t0"]})
            spelled(ctx, what, ["t0", "clause"], r.outs, rx, must, what)
        elif cname in ("GroupBy", "Where"):
            r = Formatting(ctx, {"clause": c}, option(ctx, c, "clause", p, val), {"clauses": ["clause"]})
            spelled(ctx, what, ["clause"], r.outs, rx, must, what)
    # limits are spelled for the database system, whatever kind of query they belong to
    for fl, rx in WORDS.items():
        for cname, root in (("SqlQuery", "clause"), ("SetQuery", None)):
            q = ctx.prog.cls(cname)
            path = (root,) if root else ("query", fields(ctx, q, "limit_clause")[0])
            fs = {("e", ("flavor",), fl): True, ("t", path): True, ("n", path): False}
            for p, val in (("limit", 1), ("fetch_direction", "first")):
                for g in fields(ctx, lim, p):
                    fs.update({("n", (*path, g)): False, ("t", (*path, g)): True, ("e", (*path, g), val): True})
            r = Formatting(ctx, {path: lim}, fs, {"clauses": [path]} if root else {}, query=cname)
            ctx.rep.ok("keyword", f"Limit:{cname}:{fl}")
            import re
            for v, s in r.outs:
                if path in v.whole and fl == "vanilla":
                    continue
                if not any(isinstance(x, str) and re.search(rx, x) for x in v.strs):
                    ctx.rep.fail("keyword", f"Limit:{cname}:{fl}", f"format_quick: the limit of a {cname} is not spelled for the {fl} flavor", Formatting.loc(ctx))
                    break


def nested(ctx: Ctx, label: str, r: Formatting):
    """Nested queries are formatted for the same database system and without a delimiter."""
    rep = ctx.rep
    for e, facts, _ in r.it.log:
        if e.fi is None or e.fi.module is not r.f.module or e.func is None or e.func.module is not r.f.module:
            continue
        names = [a.arg for a in e.fi.all_params()]
        if "flavor" not in names or e.star is not None or e.dstar is not None:
            continue
        got = {**dict(zip(names, e.args)), **e.kwargs}
        if (k := f"{label}:{e.func.name}:{e.fi.name}") not in rep.obligations.get("nested", ()):
            rep.ok("nested", k)
        loc = f"{e.func.module.rel}:{e.node.lineno}"
        fl, semi = got.get("flavor"), got.get("trailing_semicolon")
        if fl is None or not (covered(fl, ("flavor",)) or is_const(fl) and facts.get(("e", ("flavor",), fl.shape[1])) is True):
            rep.fail("nested", f"{e.func.name}:{e.fi.name}:flavor", f"{e.func.qual}: {e.fi.name} is not called for the requested flavor", loc)
        if e.fi is r.f and (semi is None or not is_const(semi, False)):
            rep.fail("nested", f"{e.func.name}:delimiter", f"{e.func.qual}: a nested query is formatted with a delimiter", loc)
