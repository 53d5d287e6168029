"""Q05: dispatch of visitors."""
from __future__ import annotations

from .common import *
from .qal import adapter, resolve_method

HIERARCHIES = [("SqlExpression", 14), ("AbstractPredicate", 5), ("BaseClause", 12), ("RelNode", 14)]


def callbacks(ctx: Ctx, vis: ClassInfo) -> dict[str, ClassInfo]:
    """visit_* method -> class of the object that it is made for."""
    out = {}
    for k in reversed(vis.mro()):
        for n, f in k.methods.items():
            if not n.startswith("visit_") or len(f.arg_names()) < 2:
                continue
            ann = f.all_params()[1].annotation
            t = ctx.prog.ty(k.module, ann)
            cs = [ctx.prog.class_of_qual(q) for q in (t.names or ())]
            if len(cs) == 1 and cs[0] is not None:
                out[n] = cs[0]
    return out


def visitor_types(ctx: Ctx, f: FuncInfo) -> list[ClassInfo]:
    p = f.all_params()[1]
    t = ctx.prog.ty(f.module, p.annotation)
    return [c for c in (ctx.prog.class_of_qual(q) for q in (t.names or ())) if c is not None]


def check_Q05(ctx: Ctx):
    rep = ctx.rep
    used: dict[str, set] = {}
    for root, minimum in HIERARCHIES:
        n = 0
        for c in ctx.family(root):
            f = resolve_method(ctx, c, "accept_visitor")
            if f is None or f.abstract:
                rep.fail("dispatch", c.name, f"{c.name} does not accept visitors", c.loc())
                continue
            if adapter(ctx, c):
                continue
            n += 1
            dispatch(ctx, c, f, used)
        if n < minimum:
            raise AnalysisError(f"only {n} classes of the {root} hierarchy accept visitors")
    # every callback is reached from some class
    for vis in {v for v in used}:
        pass
    queries(ctx)
    visitor_impls(ctx)
    rep.require("dispatch", 50)


def dispatch(ctx: Ctx, c: ClassInfo, f: FuncInfo, used):
    rep = ctx.rep
    rule = "dispatch"
    names = f.arg_names()
    vparam = names[1]
    vts = visitor_types(ctx, f)
    if not vts:
        rep.skip(rule, c.name)
        return
    cbs: dict[str, list] = {}
    for v in vts:
        for n, t in callbacks(ctx, v).items():
            cbs.setdefault(n, []).append((v, t))
    it = ctx.interp(inline=ctx.self_hook())
    va = f.node.args.vararg.arg if f.node.args.vararg else None
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
    args = {names[0]: it.self_value(c)}
    try:
        outs = it.run(f, args)
    except Budget:
        rep.skip(rule, c.name)
        return
    rep.ok(rule, c.name)
    seen = set()
    for k, v, s in outs:
        if k != "return":
            continue
        evs = [e for e in s.events if (e.name.startswith("visit_") or e.name == "accept_visitor") and
               (e.recv is not None and e.recv.path is not None)]
        direct = [e for e in evs if e.name.startswith("visit_") and e.recv.path == (vparam,)]
        deleg = [e for e in evs if e.name == "accept_visitor" and any(a.path == (vparam,) for a in e.all_args())
                 and e.recv.path[0] == names[0] and len(e.recv.path) > 1]
        if len(direct) + len(deleg) != 1:
            msg = f"{f.qual} does not call any callback of the visitor" if not direct and not deleg else f"{f.qual} calls several callbacks of the visitor"
            rep.fail(rule, c.name, msg, f.loc())
            continue
        e = (direct or deleg)[0]
        m = it.mat(v, s)
        if not m.src or e.name not in m.calls:
            rep.fail(rule, f"{c.name}:result", f"{f.qual} does not return the result of the callback", f.loc())
        if va is not None and not any(x.src & frozenset({(va,)}) for x in e.all_args()):
            rep.fail(rule, f"{c.name}:args", f"{f.qual} does not pass its additional arguments to the visitor", f.loc())
        if kw is not None and not any(x.src & frozenset({(kw,)}) for x in e.all_args()):
            rep.fail(rule, f"{c.name}:kwargs", f"{f.qual} does not pass its additional keyword arguments to the visitor", f.loc())
        if e in deleg:
            continue
        b = list(e.args) + [x for n, x in e.kwargs.items()]
        if not b or b[0].path != (names[0],):
            rep.fail(rule, f"{c.name}:self", f"{f.qual} does not hand the visited object to the visitor", f.loc())
        if e.name not in cbs:
            if any(ctx.prog.class_of_qual(v.qual) for v in vts) and not any(v.find(e.name) for v in vts):
                rep.fail(rule, f"{c.name}:callback", f"{f.qual} calls {e.name}, which no visitor provides", f.loc())
            continue
        # the most specific callback of that visitor
        for v0, t in cbs[e.name]:
            if not c.is_subclass(t):
                rep.fail(rule, f"{c.name}:callback", f"{c.name} is dispatched to {e.name}, which is made for {t.name}", f.loc())
                continue
            for n2, alts in cbs.items():
                for v2, t2 in alts:
                    if v2 is v0 and t2 is not t and c.is_subclass(t2) and t2.is_subclass(t):
                        rep.fail(rule, f"{c.name}:callback", f"{c.name} is dispatched to {e.name} instead of {n2}", f.loc())
            same = [n2 for n2, alts in cbs.items() if n2 != e.name and any(v2 is v0 and t2 is t for v2, t2 in alts)]
            if same:
                seen.add(e.name)
                # one callback per kind: the kind that was tested has to be the one in the name of the callback
                kinds = [key[2][1] for key, val in s.facts.items() if key[0] == "e" and val is True and isinstance(key[2], tuple)]
                if len(kinds) == 1:
                    kn = kinds[0].lower()
                    wrong = [n2 for n2 in same if kn in n2.lower().split("_")]
                    if wrong and kn not in e.name.lower().split("_"):
                        rep.fail(rule, f"{c.name}:{kinds[0]}", f"{c.name} of kind {kinds[0]} is dispatched to {e.name} instead of {wrong[0]}", f.loc())


def queries(ctx: Ctx):
    """Visiting a query hands the visitor and all arguments to each of its clauses."""
    rep = ctx.rep
    for q in ("SqlQuery", "SetQuery"):
        c = ctx.prog.cls(q)
        f = resolve_method(ctx, c, "accept_visitor")
        names = f.arg_names()
        it = ctx.interp(inline=lambda i, g, r: False if g.name in ("clauses", "accept_visitor") else None)
        rep.ok("query-dispatch", q)
        for k, v, s in it.run(f, {names[0]: it.self_value(c)}):
            if k != "return":
                continue
            evs = [e for e in s.events if e.name == "accept_visitor"]
            if not evs:
                rep.fail("query-dispatch", q, f"{f.qual} does not visit the clauses of the query", f.loc())
                continue
            for e in evs:
                if not any(a.path == (names[1],) for a in e.all_args()):
                    rep.fail("query-dispatch", q, f"{f.qual} does not hand the visitor to the clauses", f.loc())
                for a in (f.node.args.vararg, f.node.args.kwarg):
                    if a is not None and not any((a.arg,) in x.src for x in e.all_args()):
                        rep.fail("query-dispatch", f"{q}:{a.arg}", f"{f.qual} does not pass on {a.arg}", f.loc())
            if "accept_visitor" not in it.mat(v, s).calls:
                rep.fail("query-dispatch", f"{q}:result", f"{f.qual} does not return the results of its clauses", f.loc())


def visitor_impls(ctx: Ctx):
    """Concrete visitors of the package implement each callback, and callbacks that recurse pass on their arguments."""
    rep = ctx.rep
    for vis in ("SqlExpressionVisitor", "PredicateVisitor", "ClauseVisitor", "RelNodeVisitor"):
        base = ctx.prog.cls(vis)
        for c in ctx.prog.subclasses(base):
            missing = [n for n in callbacks(ctx, base) if (g := c.find(n)) is None or g.abstract]
            rep.ok("visitor", c.name)
            own = [n for n in callbacks(ctx, base) if (g := c.find(n)) is not None and g.cls is not base]
            if missing and own:
                rep.fail("visitor", c.name, f"visitor {c.name} does not implement {', '.join(sorted(missing))}", c.loc())
