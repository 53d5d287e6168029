"""W01: workloads."""
from __future__ import annotations

import ast
import itertools

from .effects import effects, container_change
from .flow import *

DICTS = (".util.dicts", ".util._dicts")


def check_W01(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    cls = prog.cls("Workload")
    mod = cls.module
    name, root = prop_head(ctx, cls, "name") or "name", "root"
    derived(ctx, cls, name, root)
    selections(ctx, cls)
    callbacks(ctx, cls)
    slices(ctx, cls)
    orders(ctx, cls)
    pairs(ctx, mod)
    combined(ctx, cls)
    readers(ctx, mod)
    stale(ctx, mod)
    rep.require("derived", 15)
    rep.require("selection", 4)
    rep.require("order", 2)


def _public(cls):
    return [f for f in cls.methods.values() if not f.name.startswith("_") or f.name.startswith("__") and f.name.endswith("__")]


def inl(it, g, r):
    if g.module.name.endswith(DICTS):
        return True
    return None if g.cls is not None and g.name.startswith("_") or g.outer is not None else (g.name.startswith("_") or False)


def derived(ctx, cls, name, root):
    """Derived workloads keep the name and the root and consist of the queries of the original; the original is not changed."""
    rep = ctx.rep
    eff = effects(ctx)
    _initial(ctx, cls, name, root)
    for f in _public(cls):
        if f.kind == "static" or f.name == "__init__":
            continue
        run = Run(ctx, f, cls, inline=inl)
        made = run.constructed("Workload")
        if not made and run.ok and f.name in {"with_labels", "with_prefix", "filter_by", "first", "last", "pick_random", "relabel", "map", "transform", "shuffle", "ordered", "__sub__", "__and__", "__add__", "__or__"}:
            rep.fail("derived", f"{f.name}:none", f"{f.qual} never creates a workload", f.loc())
        if made and f.name in ("__and__", "__sub__"):
            made = made + Run(ctx, f, cls, facts={("T", (f.all_params()[1].arg,)): frozenset({"list"})}, inline=inl).constructed("Workload")
        if f.name not in ("first", "last", "head", "__init__"):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
                    rep.fail("derived", f"{f.name}:part", f"{f.qual} only uses some queries of the original", f.loc())
        if not made:
            continue
        me = f.all_params()[0].arg
        sliced = {x.id for y in ast.walk(f.node) if isinstance(y, ast.Slice) for x in ast.walk(y) if isinstance(x, ast.Name)}
        uses_all_params(ctx, "parameters", run, f.name, ignore=sliced)
        # the original must not change
        s = eff.sum.get(f)
        for (loc, how), m in (s.muts.items() if s is not None else ()):
            if loc and loc[0] == me and not f.name.startswith("__i"):
                rep.fail("derived", f"{f.name}:original", f"{f.qual} changes the original workload ({'.'.join(loc)}: {how})", f.loc())
        for e, _ in made:
            rep.ok("derived", f.name)
            for p, attr in (("name", name), ("root", root)):
                v = e.m.get(p)
                heads = {norm(x[1]) for x in (v.src if v is not None else ()) if len(x) > 1 and x[0] == me}
                if heads != {attr}:
                    rep.fail("derived", f"{f.name}:{p}", f"{f.qual} creates a workload with another {p}", f.loc())
            q = e.m.get("queries")
            if q is None or not any(x[:1] == (me,) for x in q.src):
                rep.fail("derived", f"{f.name}:queries", f"{f.qual} creates a workload without the queries of the original", f.loc())
        for o in run.returns:
            if o.v is not None and o.v.path == (me,) and not f.name.startswith("__i"):
                rep.fail("derived", f"{f.name}:self", f"{f.qual} returns the original workload", f.loc())


def _initial(ctx, cls, name, root):
    """The constructor stores its arguments."""
    f, rep = cls.find("__init__"), ctx.rep
    run = Run(ctx, f, cls, inline=inl)
    params = {a.arg for a in f.all_params()[1:]}
    for o in run.outs:
        stored = {}
        for e in o.events:
            if e.name == "@store" and e.recv is not None and e.recv.path == ("self",) and e.m["attr"].shape is not None:
                stored.setdefault(norm(e.m["attr"].shape[1]), []).append(e.m.get(0))
        for p, attr in (("name", name), ("root", root)):
            v = stored.get(attr, [None])[-1]
            rep.ok("initial", p)
            if v is None or not any(x[0] == p for x in v.src):
                rep.fail("initial", p, f"{f.qual} does not store the {p}", f.loc())
        q = f.all_params()[1].arg
        lab = ordering(ctx, cls)[0]
        if lab is not None:
            rep.ok("initial", "labels")
            if not any(v is not None and {"natsorted", "sorted", "natsort_keygen", "os_sorted", "humansorted"} & set(v.calls) for v in stored.get(lab, ())):
                rep.fail("initial", "labels", f"{f.qual} does not establish the natural order of the labels", f.loc())
        rep.ok("initial", q)
        if not any(e.name == "__init__" and any(v is not None and v.path == (q,) for v in (e.m or {}).values()) for e in o.events) and \
                not any(v is not None and any(x[0] == q for x in v.src) for vs in stored.values() for v in vs):
            rep.fail("initial", q, f"{f.qual} does not store the queries", f.loc())
    for m in ("shuffle",):
        f = cls.find(m)
        if f is None:
            continue
        run = Run(ctx, f, cls, inline=inl)
        for e, _, _ in run.it.log:
            if e.name.split(".")[-1] == "sample":
                k = e.m.get("k") or e.m.get(1)
                rep.ok("complete", m)
                if k is None or "len" not in k.calls:
                    rep.fail("complete", m, f"{f.qual} does not contain all queries", f.loc())
    f = cls.find("pick_random")
    if f is not None:
        run = Run(ctx, f, cls, inline=inl)
        n = f.all_params()[1].arg
        for e, facts, tested in run.it.log:
            if e.name.split(".")[-1] == "sample":
                k = e.m.get("k") or e.m.get(1)
                rep.ok("complete", f.name)
                if k is None or not any(x[0] == n for x in k.src) and not (n,) in tested:
                    rep.fail("complete", f.name, f"{f.qual} does not pick the requested number of queries", f.loc())
                elif "len" not in k.calls and not any(x[0] == n for x in tested):
                    rep.fail("complete", f"{f.name}:less", f"{f.qual} fails for workloads with fewer queries", f.loc())
                elif "max" in k.calls:
                    rep.fail("complete", f"{f.name}:less", f"{f.qual} picks more queries than requested", f.loc())


# method -> outcome of the test -> are the queries kept?
KEEP = {"with_labels": {True: True, False: False}, "__and__": {True: True, False: False}, "__sub__": {True: False, False: True},
        "with_prefix": {True: True, False: False}, "filter_by": {True: True, False: False}}


def selections(ctx, cls):
    """Selected queries are exactly those which satisfy the condition."""
    rep = ctx.rep
    kinds = {"with_labels": (None,), "__and__": (None, "Workload"), "__sub__": (None, "Workload"), "with_prefix": (None,), "filter_by": (None,)}
    for m, variants in kinds.items():
        f = cls.find(m)
        if f is None or f.cls is not cls:
            continue
        params = [a.arg for a in f.all_params()]
        for kind in variants:
            got = {}
            asked = []
            for truth in (True, False):
                def member(it, a, b, st, truth=truth):
                    if any(p[0] == params[0] for p in a.src) and any(p[0] in params[1:] for p in b.src):
                        asked.append(a)
                        return truth
                    return True if not a.src and "dir" in b.calls else None

                def results(it, n, recv, args, kwargs, st, truth=truth):
                    if n in ("startswith", "@callback") and m in ("with_prefix", "filter_by"):
                        asked.append(recv)
                        if n == "startswith":
                            rep.ok("selection", f"{m}:prefix")
                            if not (recv is not None and any(p[0] == params[0] for p in recv.src)) or not (args and any(p[0] == params[1] for p in args[0].src)):
                                rep.fail("selection", f"{m}:prefix", f"{f.qual} does not compare the labels with the prefix", f.loc())
                        return [(const(truth), st)]
                    return None

                facts = {("T", (params[1],)): frozenset({"Workload" and ctx.prog.cls("Workload").qual})} if kind else \
                    {("T", (params[1],)): frozenset({"list"})}
                run = Run(ctx, f, cls, facts=facts if m in ("__and__", "__sub__") else None, quantify=True, inline=inl, member=member, results=results)
                vals = [e.m.get("queries") for e, _ in run.constructed("Workload")]
                got[truth] = None if not run.ok or not vals else any(v is not None and any(p[0] == params[0] for p in v.src) for v in vals)
            key = f"{m}:{kind or 'labels'}"
            if None not in got.values() and not asked and not any(vals_src(run, params)):
                rep.fail("selection", key, f"{f.qual} does not use a condition to select the queries", f.loc())
                continue
            if None in got.values() or not asked:
                rep.skip("selection", key)
                continue
            rep.ok("selection", key)
            for truth, kept in got.items():
                if kept != KEEP[m][truth]:
                    rep.fail("selection", key, f"{f.qual} {'contains' if kept else 'drops'} queries whose label "
                             f"{'satisfies' if truth else 'does not satisfy'} the condition", f.loc())


def vals_src(run, params):
    """Do the selected queries depend on the arguments?"""
    for e, _ in run.constructed("Workload"):
        v = e.m.get("queries")
        yield v is None or any(x[0] in params[1:] for x in v.src)


def callbacks(ctx, cls):
    """Functions of the caller receive the label and the query of the same entry, and their results end up in the right place."""
    rep = ctx.rep
    for m, want in {"filter_by": ("k", "v"), "relabel": ("k", "v"), "transform": ("k", "v"), "map": ("v",)}.items():
        f = cls.find(m)
        if f is None or f.cls is not cls:
            continue
        run = Run(ctx, f, cls, inline=inl)
        evs = [e for e, _, _ in run.it.log if e.name == "@callback" and e.recv is not None and e.recv.path == (f.all_params()[1].arg,)]
        if not evs:
            rep.skip("callback", m)
            continue
        for e in evs:
            got = []
            for i in range(len(want)):
                v = e.m.get(i)
                steps = {x[2] for x in (v.src if v is not None else ()) if len(x) > 2}
                got.append("k" if steps == {"*k"} else "v" if steps == {"*"} else "?")
            rep.ok("callback", m)
            if "?" in got:
                rep.skip("callback", m)
            elif tuple(got) != want:
                rep.fail("callback", m, f"{f.qual} passes {got} (instead of {list(want)}) to the function of the caller", f.loc())
            if m in ("map", "transform"):
                if f.node.args.vararg is not None and e.star is None:
                    rep.fail("callback", f"{m}:args", f"{f.qual} does not pass on the additional arguments", f.loc())
                if f.node.args.kwarg is not None and e.dstar is None:
                    rep.fail("callback", f"{m}:kwargs", f"{f.qual} does not pass on the additional keyword arguments", f.loc())
        for n in ast.walk(f.node):
            if isinstance(n, ast.DictComp):
                inkey = any(isinstance(x, ast.Call) and ast.unparse(x.func) == f.all_params()[1].arg for x in ast.walk(n.key))
                inval = any(isinstance(x, ast.Call) and ast.unparse(x.func) == f.all_params()[1].arg for x in ast.walk(n.value))
                rep.ok("callback", f"{m}:place")
                if m == "relabel" and (inval or not inkey) or m == "map" and (inkey or not inval):
                    rep.fail("callback", f"{m}:place", f"{f.qual} uses the result of the function for the wrong part of the entries", f.loc())


def slices(ctx, cls):
    """first() and last() select the leading and trailing entries."""
    rep = ctx.rep
    for m in ("first", "last"):
        f = cls.find(m)
        if f is None or f.cls is not cls:
            continue
        n = f.all_params()[1].arg
        parents = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
        subs = [x for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice)]
        for x in subs:
            for size in (0, 1, 3):
                idx = _slice(x.slice, {n: size})
                if idx is None:
                    rep.skip("slice", m)
                    continue
                if size == 0 and _guarded(f, x, n, parents):
                    continue
                rep.ok("slice", f"{m}:{size}")
                full = list(range(7))
                want = full[:size] if m == "first" else full[len(full) - size:]
                if full[idx] != want:
                    rep.fail("slice", f"{m}:{size}", f"{f.qual} selects the positions {full[idx]} of 7 queries for n = {size}", f.loc())
    f = cls.find("head")
    if f is not None and f.cls is cls:
        idx = {ast.unparse(x.slice) for s in f.node.body for x in ast.walk(s) if isinstance(x, ast.Subscript) and not (isinstance(x.value, ast.Name) and x.value.id[:1].isupper())
               and not (isinstance(x.value, ast.Name) and x.value.id in ("tuple", "list", "dict"))}
        rep.ok("slice", "head")
        if len(idx) > 1 or idx and idx != {"0"}:
            rep.fail("slice", "head", f"{f.qual} accesses the positions {sorted(idx)}", f.loc())


def _slice(s: ast.Slice, env):
    try:
        parts = [None if p is None else _int(p, env) for p in (s.lower, s.upper, s.step)]
    except ValueError:
        return None
    return slice(*parts)


def _int(e, env):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -_int(e.operand, env)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = _int(e.left, env), _int(e.right, env)
        return a + b if isinstance(e.op, ast.Add) else a - b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        return 7
    raise ValueError


def _guarded(f, x, n, parents) -> bool:
    """Is n tested before a slice is evaluated?"""
    cur = x
    while cur in parents:
        p = parents[cur]
        if isinstance(p, (ast.If, ast.IfExp)) and cur is not p.test and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(p.test)):
            return True
        cur = p
    for st in f.node.body:
        if any(y is x for y in ast.walk(st)):
            break
        if isinstance(st, ast.If) and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(st.test)) and isinstance(st.body[-1], (ast.Return, ast.Raise)):
            return True
    return False


def ordering(ctx, cls):
    """The attributes which contain the ordered labels and queries."""
    heads = []
    for m in ("labels", "queries"):
        run = Run(ctx, cls.find(m), cls)
        hs = {norm(p[1]) for o in run.returns if o.v is not None for p in o.v.src if len(p) > 1 and p[0] == "self"}
        heads.append(next(iter(hs)) if len(hs) == 1 else None)
    return heads


def orders(ctx, cls):
    """The order of the queries always follows from the order of the labels."""
    rep = ctx.rep
    lab, que = ordering(ctx, cls)
    if lab is None or que is None or lab == que:
        rep.skip("order", "Workload")
        return
    f = cls.find("entries")
    run = Run(ctx, f, cls)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "zip" and len(n.args) == 2:
            at = [{norm(x.attr) for x in ast.walk(a) if isinstance(x, ast.Attribute)} for a in n.args]
            if at[0] & {que, "queries"} and at[1] & {lab, "labels"}:
                rep.fail("order", "entries:pair", f"{f.qual} exchanges labels and queries", f.loc())
    for o in run.returns:
        rep.ok("order", "entries")
        hs = {norm(p[1]) for p in o.v.src if len(p) > 1 and p[0] == "self"}
        if not (hs == {lab, que} or hs <= {lab, "data"} and lab in hs or hs == {"data"}):
            rep.fail("order", "entries", f"{f.qual} combines {sorted(hs)}", f.loc())
    for f in cls.methods.values():
        run = Run(ctx, f, cls, inline=lambda it, g, r: g.cls is cls and g.name.startswith("_") and g.name != "__init__" or None)
        if f.name.startswith("_") and f.name != "__init__":
            continue
        for o in run.returns:
            stores = [(i, e.recv.path, norm(e.m["attr"].shape[1]), e) for i, e in enumerate(o.events) if e.name == "@store" and e.recv is not None and e.recv.path is not None
                      and e.m["attr"].shape is not None and isinstance(e.m["attr"].shape[1], str)]
            for i, root, attr, e in stores:
                if attr != lab:
                    continue
                rep.ok("order", f.name)
                later = [x for j, r, a, x in stores if j > i and r == root and a == que]
                final = [x for x in later if _ordered_by(x, lab)]
                empty = root == ("self",) and f.name == "__init__"
                if not final:
                    rep.fail("order", f.name, f"{f.qual} changes the order of the labels without changing the order of the queries", f.loc())
                last = later[-1] if later else None
                if last is not None and not _ordered_by(last, lab):
                    rep.fail("order", f.name, f"{f.qual} stores queries in another order than the labels", f.loc())
                v = e.m.get(0)
                if v is not None and f.name != "__init__":
                    if "choices" in v.calls:
                        rep.fail("order", f"{f.name}:labels", f"{f.qual} may contain labels repeatedly", f.loc())
    for f in cls.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "choices":
                rep.fail("order", f"{f.name}:labels", f"{f.qual} draws labels repeatedly", f.loc())


def _ordered_by(e: Event, lab: str) -> bool:
    """Are the stored queries determined by iterating over the labels?"""
    f, node = e.func.node, e.node
    value = next((n.value for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) and node in (n.targets if isinstance(n, ast.Assign) else [n.target])), None)
    if value is None:
        return True
    names = {norm(x.attr) for x in ast.walk(value) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(value) if isinstance(x, ast.Name)}
    local = {t.id: n.value for n in ast.walk(f) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    for n in list(names):
        if n in local:
            names |= {norm(x.attr) for x in ast.walk(local[n]) if isinstance(x, ast.Attribute)}
    for n in ast.walk(f):
        if isinstance(n, ast.For):
            names |= {norm(x.attr) for x in ast.walk(n.iter) if isinstance(x, ast.Attribute)}
    return lab in names or "labels" in names


def pairs(ctx, mod):
    """Labels and queries that are combined belong to the same entry."""
    rep = ctx.rep
    for f in ctx.prog.functions:
        if f.module is not mod:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.DictComp):
                targets = [{x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)} for g in n.generators]
                every = set().union(*targets)
                inkey = {x.id for x in ast.walk(n.key) if isinstance(x, ast.Name)} & every
                inval = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & every
                rep.ok("pairs", f.qual.split("workloads.")[-1])
                if inkey and not inval:
                    rep.fail("pairs", f.qual.split("workloads.")[-1], f"{f.qual} maps different labels to the same value", f.loc())
                if inval and not inkey:
                    rep.fail("pairs", f.qual.split("workloads.")[-1], f"{f.qual} maps different queries to the same label", f.loc())
                if len(n.generators) == 1 and isinstance(n.value, ast.Subscript) and inkey:
                    idx = {x.id for x in ast.walk(n.value.slice) if isinstance(x, ast.Name)} & every
                    if idx != inkey:
                        rep.fail("pairs", f.qual.split("workloads.")[-1], f"{f.qual} looks up the query of another label", f.loc())
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "zip":
                kinds = []
                for a in n.args:
                    at = {norm(x.attr) for x in ast.walk(a) if isinstance(x, ast.Attribute)}
                    srt = any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("sorted", "natsorted", "reversed", "shuffle", "sample") for x in ast.walk(a))
                    data = bool(at & {"keys", "values", "data"}) and not at & {"sorted_labels", "sorted_queries", "labels", "queries", "entries"}
                    kinds.append("data" if data else "changed" if srt else "ordered" if at & {"sorted_labels", "sorted_queries", "labels", "queries"} else "?")
                rep.ok("pairs", f"{f.qual.split('workloads.')[-1]}:zip")
                known = {k for k in kinds if k != "?"}
                if len(known) > 1 or "changed" in known:
                    rep.fail("pairs", f"{f.qual.split('workloads.')[-1]}:zip", f"{f.qual} combines labels and queries of different orders", f.loc())


def combined(ctx, cls):
    """The operators keep the queries of the left workload."""
    rep = ctx.rep
    for m in ("__add__", "__or__"):
        f = cls.find(m)
        if f is None or f.cls is not cls:
            continue
        other = f.all_params()[1].arg
        run = Run(ctx, f, cls, inline=inl)
        for e, _ in run.constructed("Workload"):
            v = e.m.get("queries")
            rep.ok("combined", m)
            if v is None or not any(p[0] == other for p in v.src) or not any(p[0] == "self" for p in v.src):
                rep.fail("combined", m, f"{f.qual} does not combine the queries of both workloads", f.loc())
        for n in ast.walk(f.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd):
                rep.fail("combined", m, f"{f.qual} computes an intersection", f.loc())


def readers(ctx, mod):
    """Reading functions pass all options on and use the label prefix."""
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("Workload")
    for f in prog.functions:
        if f.module is not mod or f.outer is not None or f.name.startswith("_") or f.cls is not None and f.kind != "static":
            continue
        label = f.qual.split("workloads.")[-1]
        if f.cls is not None and f.cls is not cls:
            continue
        run = Run(ctx, f, None, inline=lambda it, g, r: g.module is mod and g.name.startswith("_") and not g.name.startswith("__") and not _downloads(g))
        if not run.ok:
            rep.skip("readers", label)
            continue
        uses_all_params(ctx, "readers", run, label, ignore=("verbose",))
        inner = lambda e: e.fi is not None and (e.fi.module is mod or e.fi.name == "parse_query") and e.fi is not None and not e.fi.name.startswith("_")
        changed = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        _passed(ctx, run, inner, label)
        forwards(ctx, "readers", run, inner, label, ignore={"name", "query_label_prefix", "label_prefix", "verbose", "recurse_subdirectories"} | changed)
        for e, _, _ in run.it.log:
            if e.name == "open" or e.name.endswith(".open"):
                rep.ok("readers", f"{label}:open")
                for p in ("file_encoding", "encoding"):
                    if p in {a.arg for a in f.all_params()}:
                        v = e.m.get("encoding")
                        if v is None or not any(x[0] == p for x in v.src):
                            rep.fail("readers", f"{label}:encoding", f"{f.qual} does not read files with the requested encoding", f.loc())
        made = [e for e, _ in run.constructed("Workload")]
        for p in ("name", "root"):
            want = {"name": {"name"}, "root": {"path", "root_dir", "root", "workload_root", "filename"}}[p]
            have = want & {a.arg for a in f.all_params()}
            if not have or not made:
                continue
            rep.ok("readers", f"{label}:{p}")
            given = [any(x[0] in have for x in e.m[p].src) if p in e.m else False for e in made]
            if not any(given) or p == "root" and not all(given):
                rep.fail("readers", f"{label}:{p}", f"{f.qual} creates a workload without its {p}", f.loc())
        for e in made:
            v = e.m.get("queries")
            for p in ("label_prefix", "query_label_prefix"):
                if p in {a.arg for a in f.all_params()}:
                    rep.ok("readers", f"{label}:prefix")
                    if v is None or not any(x[0] == p for x in v.src):
                        rep.fail("readers", f"{label}:prefix", f"{f.qual} does not use the label prefix", f.loc())
    fetched(ctx, mod)


def _passed(ctx, run, inner, label):
    """Options that are completed before they are passed on, and the options of recursive calls."""
    f, rep = run.f, ctx.rep
    mine = {a.arg for a in f.all_params()} - {"verbose"}
    given: dict = {}
    for e, facts, _ in run.it.log:
        if e.fi is None or e.fi.name == "__init__" or not (inner(e) or e.fi is f):
            continue
        for p in mine & {a.arg for a in e.fi.all_params()}:
            if e.fi is f and p == "name":
                continue
            v = arg(e, p)
            given.setdefault((e.fi.name, p), []).append(v is not None and (v.path == (p,) or any(x[0] == p for x in v.src)) or v is not None and is_const(v) and isinstance(v.shape[1], bool) and facts.get(("t", (p,))) is v.shape[1] or v is None and (e.dstar is not None or e.star is not None))
            if e.fi is f and p in ("query_label_prefix", "label_prefix"):
                rep.ok("nested", label)
                if v is None or not any(x[0] != p for x in v.src):
                    rep.fail("nested", f"{label}:{p}", f"{f.qual} uses the same labels for queries of different directories", f.loc())
    for (callee, p), oks in given.items():
        rep.ok("passed", f"{label}->{callee}:{p}")
        if not any(oks) and not (callee == f.name and p == f.all_params()[0].arg):
            rep.fail("passed", f"{label}->{callee}:{p}", f"{f.qual} does not use its option '{p}' for {callee}()", f.loc())
    enc = {"file_encoding", "encoding"} & mine
    for e, _, _ in run.it.log:
        if e.fi is not None and "workload_root" in {a.arg for a in e.fi.all_params()} and mine & {"path", "root_dir", "filename"}:
            v = arg(e, "workload_root")
            if v is None or not any(x[0] in ("path", "root_dir", "filename") for x in v.src):
                rep.fail("passed", f"{label}->{e.fi.name}:root", f"{f.qual} creates a workload without its root", f.loc())
    src_file = next((p for p in ("path", "root_dir", "filename") if p in mine), None)
    parsed = [arg(e, e.fi.all_params()[0].arg) for e, _, _ in run.it.log if e.fi is not None and e.fi.name == "parse_query"]
    for v in parsed:
        rep.ok("contents", label)
        for p in enc:
            if v is None or not any(x[0] == p for x in v.src):
                rep.fail("contents", f"{label}:{p}", f"{f.qual} does not read files with the requested encoding", f.loc())
        if src_file and (v is None or not any(x[0] == src_file for x in v.src)):
            rep.fail("contents", f"{label}:{src_file}", f"{f.qual} does not parse the contents of the files", f.loc())
    items = [e for e, _, _ in run.it.log if e.name == "@setitem" and e.m.get(1) is not None and "parse_query" in e.m[1].calls]
    for e in items:
        rep.ok("contents", f"{label}:label")
        if src_file and not any(x[0] == src_file for x in e.m[0].src):
            rep.fail("contents", f"{label}:label", f"{f.qual} uses the same label for different files", f.loc())
    if parsed and src_file and not any(e.name == "parse_query" for e, _, _ in run.it.log):
        rep.skip("contents", label)
    if any(isinstance(n, ast.Name) and n.id == "open" for n in ast.walk(f.node)) and not parsed and run.ok:
        rep.fail("contents", f"{label}:parse", f"{f.qual} does not parse the queries", f.loc())
    if any(e.fi is f for e, _, _ in run.it.log):
        made = [e.m.get("queries") for e, _ in run.constructed("Workload")]
        rep.ok("nested", f"{label}:queries")
        if not any(v is not None and f.name in v.calls for v in made):
            rep.fail("nested", f"{label}:queries", f"{f.qual} ignores the queries of nested directories", f.loc())


def _downloads(g: FuncInfo) -> bool:
    return any(isinstance(n, ast.Name) and n.id in ("urllib", "zipfile", "shutil") for n in ast.walk(g.node))


NAMED = {"job": ("job", "default"), "job-light": ("job-light", None), "job-complex": ("job-complex", None), "stats": ("stats", None), "stack": ("stack", None), "ssb": ("ssb", None)}


def fetched(ctx, mod):
    """Predefined workloads are read from their own folder."""
    rep, prog = ctx.rep, ctx.prog
    f = prog.find_func(mod.name, "fetch_workload")
    if f is None:
        return
    for n, (folder, _) in NAMED.items():
        run = Run(ctx, f, None, args={"name": const(n)}, inline=lambda it, g, r: g.module is mod and g.cls is None and not _downloads(g) and g.name != "read_workload")
        got = set()
        for o in run.returns:
            for e in o.events:
                v = e.m.get(0) if e.m else None
                if e.fi is not None and _downloads(e.fi) and v is not None and v.shape is not None and v.shape[0] == "const":
                    got.add(str(v.shape[1]).lower())
        rep.ok("fetched", n)
        if run.ok and not run.returns:
            rep.fail("fetched", n, f"{f.qual} does not provide the workload {n}", f.loc())
        elif got and got != {folder}:
            rep.fail("fetched", n, f"{f.qual} reads {sorted(got)} for the workload {n}", f.loc())


def stale(ctx, mod):
    """A value that is computed in a try block is not used after a handler which continues without it."""
    rep = ctx.rep
    for f in ctx.prog.functions:
        if f.module is not mod:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Try):
                continue
            names = {t.id for s in n.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
            block = _block_of(f.node, n)
            if block is None:
                continue
            rest = block[block.index(n) + 1:]
            used = {x.id for s in rest for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            for h in n.handlers:
                label = f.qual.split("workloads.")[-1]
                rep.ok("stale", label)
                if _leaves(h.body):
                    continue
                assigned = {t.id for s in h.body for y in ast.walk(s) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name)}
                for x in sorted((names & used) - assigned):
                    if any(isinstance(s, ast.If) and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(s.test)) for s in rest):
                        continue
                    rep.fail("stale", f"{label}:{x}", f"{f.qual} uses '{x}' after an error even though it has not been computed", f.loc())


def _block_of(root, node):
    for p in ast.walk(root):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and node in b:
                return b
    return None


def _leaves(body) -> bool:
    """Does a block always leave the surrounding block?"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return _leaves(s.body) and _leaves(s.orelse)
    if isinstance(s, ast.Match):
        return all(_leaves(c.body) for c in s.cases) and any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases)
    if isinstance(s, ast.With):
        return _leaves(s.body)
    return False
