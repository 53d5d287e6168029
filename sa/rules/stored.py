"""P03: stored JSON representations can be read back."""
from __future__ import annotations

from .common import *
from .qal import resolve_method
from .text import absent, own

# class -> (module of the reader, reader)
READERS = {
    "TableReference": "load_table_json", "ColumnReference": "load_column_json",
    "ScanOperatorAssignment": "read_operator_json", "JoinOperatorAssignment": "read_operator_json",
    "DirectionalJoinOperatorAssignment": "read_operator_json", "JoinTree": "read_jointree_json", "LogicalJoinTree": "read_jointree_json",
    "QueryPlan": "read_query_plan_json", "PhysicalOperatorAssignment": "read_operator_assignment_json", "PlanParameterization": "read_plan_params_json",
    "SortKey": "read_query_plan_json", "Subplan": "read_query_plan_json",
}
# keys that only describe the kind of an object
TAGS = {"type", "directional", "kind"}
# the attributes of these classes depend on the kind of the node
BY_NODE = {"JoinTree", "LogicalJoinTree"}


def reader(ctx: Ctx, name: str) -> FuncInfo:
    fs = [f for f in ctx.prog.functions if f.name == name and not f.overload and f.cls is None]
    if len(fs) != 1:
        raise AnalysisError(f"reader {name} not found")
    return fs[0]


def written(ctx: Ctx, c: ClassInfo) -> list:
    """[(JSON object, state)] of each path of the writer."""
    f = resolve_method(ctx, c, "__json__")
    if f is None:
        raise AnalysisError(f"{c.name} has no __json__")
    it = ctx.interp(inline=ctx.self_hook())
    return [(it.mat(v, s), s) for k, v, s in it.run(f, {f.arg_names()[0]: it.self_value(c)}) if k == "return"]


def key_of(k) -> Optional[str]:
    if isinstance(k, str):
        return k
    if isinstance(k, V) and k.shape is not None and k.shape[0] == "const" and isinstance(k.shape[1], str):
        return k.shape[1]
    return None


def entries(v: V) -> Optional[dict]:
    if v.shape is None or v.shape[0] != "dict" or not isinstance(v.shape[1], dict):
        return None
    out = {}
    for k, x in v.shape[1].items():
        name = key_of(k)
        if name is None:
            return None
        out[name] = x
    return out


def fields_in(v: V) -> set:
    return {q[1] for q in v.src if len(q) > 1 and q[0] == "self"}


def ensure_stored(ctx: Ctx, c: ClassInfo) -> dict:
    """Each constructor parameter is part of the JSON object. Returns parameter -> keys."""
    keys: dict = {}
    f = resolve_method(ctx, c, "__json__")
    for v, s in written(ctx, c):
        es = entries(v)
        if es is None:
            ctx.rep.skip("stored", c.name)
            continue
        for p, info in ctx.content(c).items():
            fs = set(own(ctx, c, p))
            if not fs:
                continue
            got = {k for k, x in es.items() if k not in TAGS and fields_in(x) & fs}
            keys.setdefault(p, set()).update(got)
            ctx.rep.ok("stored", f"{c.name}.{p}")
            if not got and c.name not in BY_NODE and not all(s.nullish(("self", g)) for g in fs):
                ctx.rep.fail("stored", f"{c.name}.{p}", f"the JSON representation of {c.name} lacks {p} on some path", f.loc())
    for p, ks in keys.items():
        if not ks and c.name in BY_NODE:
            ctx.rep.fail("stored", f"{c.name}.{p}", f"the JSON representation of {c.name} never contains {p}", f.loc())
    return keys


def chain(q: tuple) -> Optional[tuple]:
    """The keys along which a component of the JSON data is reached."""
    out = []
    for x in q[1:]:
        if x.startswith("['") and x.endswith("']"):
            out.append(x[2:-2])
        elif x.startswith("*"):
            out.append("*")
        elif x.endswith("()"):
            break
        else:
            break
    return tuple(out)


def run_reader(ctx: Ctx, f: FuncInfo):
    it = ctx.interp(inline=ctx.self_hook())
    p = f.arg_names()[0]
    outs = it.run(f, {p: pathv((p,), Ty(frozenset({"dict"})))})
    return it, p, [(it.mat(v, s), s) for k, v, s in outs if k == "return"]


def chains_read(it, p: str, outs) -> set:
    out = set()

    def add(v, depth=0):
        if not isinstance(v, V) or depth > 4:
            return
        for q in v.src:
            if q[0] == p:
                c = chain(q)
                out.update(c[:i] for i in range(1, len(c) + 1))
        if v.shape is not None and v.shape[0] == "ctor":
            for x in v.shape[2].values():
                add(x, depth + 1)
    for v, s in outs:
        add(v)
        for e in s.events:
            for a in e.all_args():
                add(a)
            add(e.recv)
        for x in list(s.heap.values()) + list(s.attrs.values()):
            add(x)
        for q in s.tested:
            if q and q[0] == p:
                c = chain(q)
                out.update(c[:i] for i in range(1, len(c) + 1))
    return out


def keys_used(ctx: Ctx, f: FuncInfo, seen: set) -> set:
    """Constant keys that a function (and the library functions it calls) reads as part of a larger expression, or into a used variable."""
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    bound = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            bound[id(n.value)] = n.targets[0].id
    for n in ast.walk(f.node):
        k = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant):
            k = n.slice.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant):
            k = n.args[0].value
        if isinstance(k, str) and (id(n) not in bound or bound[id(n)] in loads):
            out.add(k)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            for g in ctx.prog.functions:
                if g.name == n.func.id and g.cls is None and g.module is f.module:
                    out |= keys_used(ctx, g, seen)
    return out


def check_P03(ctx: Ctx):
    rep = ctx.rep
    cache: dict = {}
    for cname, rname in READERS.items():
        c = ctx.prog.cls(cname)
        f = reader(ctx, rname)
        try:
            keys = ensure_stored(ctx, c)
            if rname not in cache:
                it, p, outs = run_reader(ctx, f)
                cache[rname] = (p, outs, chains_read(it, p, outs))
        except Budget:
            rep.skip("read", cname)
            continue
        p, outs, chains = cache[rname]
        consumed(ctx, c, f, keys, chains)
        placed(ctx, c, f, keys, p, outs)
        factories(ctx, c, f, keys, p, outs)
        components(ctx, c, f, chains)
        swapped(ctx, f, p, outs)
    excluded(ctx)
    rep.require("stored", 20)
    rep.require("read", 20)


def consumed(ctx: Ctx, c: ClassInfo, f: FuncInfo, keys: dict, chains: set):
    """Each stored key is read."""
    names = {x for ch in chains for x in ch}
    used = keys_used(ctx, f, set())
    for p, ks in keys.items():
        for k in ks:
            ctx.rep.ok("read", f"{c.name}.{p}:{k}")
            if k not in names | used:
                ctx.rep.fail("read", f"{c.name}.{p}:{k}", f"{f.name} does not read the key '{k}' that contains {p} of {c.name}", f.loc())


def components(ctx: Ctx, c: ClassInfo, f: FuncInfo, chains: set):
    """Each key of a component (an element of a list of objects) is read."""
    names = {x for ch in chains for x in ch}
    used = keys_used(ctx, f, set())
    for v, s in written(ctx, c):
        for k, x in (entries(v) or {}).items():
            for n in ast.walk(resolve_method(ctx, c, "__json__").node):
                if isinstance(n, ast.Dict) and len(n.keys) > 1:
                    for e in n.keys:
                        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value not in TAGS:
                            ctx.rep.ok("read", f"{c.name}:{e.value}")
                            if e.value not in names | used:
                                ctx.rep.fail("read", f"{c.name}:{e.value}", f"{f.name} does not read the key '{e.value}' of {c.name}", f.loc())
            break
        break


def swapped(ctx: Ctx, f: FuncInfo, root: str, outs):
    """Arguments are not taken from a key that is named like another parameter."""
    for v, s in outs:
        for e in s.events:
            fs = [e.fi] if e.fi is not None else [g for g in ctx.prog.functions if g.name == e.name and g.cls is not None and g.cls.name in READERS and g.kind in ("static", "classmethod")]
            if e.cls is not None and e.cls.find("__init__") is not None:
                fs = [e.cls.find("__init__")]
            for g in fs:
                names = [a for a in g.arg_names() if a not in ("self", "cls")]
                for p, a in list(zip(names, e.args)) + list(e.kwargs.items()):
                    for q in a.src:
                        if q[0] != root:
                            continue
                        ch = [x for x in chain(q) if x != "*"]
                        if ch and ch[-1] in names and ch[-1] != p and p in {x for y in READERS for x in ctx.content(ctx.prog.cls(y))} | set(names):
                            ctx.rep.fail("placed", f"{f.name}:{g.qual.split('.')[-2]}.{g.name}.{p}", f"{f.name} passes the stored '{ch[-1]}' as {p} of {g.qual}", f.loc())


def placed(ctx: Ctx, c: ClassInfo, f: FuncInfo, keys: dict, root: str, outs):
    """Each constructor parameter is taken from the key that it has been stored under."""
    for v, s in outs:
        for x in ctors(v):
            if x.shape[1] is not c:
                continue
            for p, y in x.shape[2].items():
                got = {ch[0] for q in y.src if q[0] == root for ch in [chain(q)] if ch}
                if p not in keys or not keys[p]:
                    continue
                ctx.rep.ok("placed", f"{c.name}.{p}")
                if y.shape is not None and y.shape[0] == "const" and not got and not all(s.nullish((root, f"['{k}']")) for k in keys[p]):
                    ctx.rep.fail("placed", f"{c.name}.{p}", f"{f.name} sets {p} of {c.name} to a constant, although a value may be stored as {', '.join(sorted(keys[p]))}", f.loc())
                wrong = got - keys[p]
                if wrong:
                    ctx.rep.fail("placed", f"{c.name}.{p}", f"{f.name} reads {p} of {c.name} from {', '.join(sorted(wrong))}, it is stored as {', '.join(sorted(keys[p]))}", f.loc())
            given = {k for p in x.shape[2] for k in keys.get(p, ())}
            for p, ks in keys.items():
                if not ks or p in x.shape[2] or p.startswith(".") or ks & given or c.name in BY_NODE:
                    continue
                if not all(s.nullish((root, f"['{k}']")) for k in ks):
                    ctx.rep.fail("placed", f"{c.name}.{p}", f"{f.name} does not restore {p} of {c.name}", f.loc())
            for y in x.shape[2].values():
                parts_placed(ctx, f, y, root)


def factories(ctx: Ctx, c: ClassInfo, f: FuncInfo, keys: dict, root: str, outs):
    """Factory methods of the class receive each stored component that they accept."""
    for v, s in outs:
        for e in s.events:
            if e.name not in c.methods or c.methods[e.name].kind not in ("static", "classmethod"):
                continue
            g = c.methods[e.name]
            names = [a for a in g.arg_names() if a != "cls"] if g.kind == "classmethod" else g.arg_names()
            given = dict(zip(names, e.args)) | e.kwargs
            for p, ks in keys.items():
                p = p.lstrip(".")
                if p not in names + [a.arg for a in g.node.args.kwonlyargs] or not ks:
                    continue
                ctx.rep.ok("placed", f"{c.name}.{g.name}.{p}")
                if (p not in given or given[p].shape == ("const", None)) and not all(s.nullish((root, f"['{k}']")) for k in ks):
                    ctx.rep.fail("placed", f"{c.name}.{g.name}.{p}", f"{f.name} does not hand the stored {p} on to {g.qual}", f.loc())


def parts_placed(ctx: Ctx, f: FuncInfo, v: V, root: str):
    """The containers of a query plan store each component under its own name."""
    for y in ctors(v):
        if y.shape[1].name not in ("PlanParams", "PlanEstimates", "PlanMeasures"):
            continue
        for p, z in y.shape[2].items():
            got = {ch[1] for q in z.src if q[0] == root for ch in [chain(q)] if len(ch) > 1}
            if "*" in got or p.startswith("*"):
                continue
            ctx.rep.ok("placed", f"{y.shape[1].name}.{p}")
            if got - {p}:
                ctx.rep.fail("placed", f"{y.shape[1].name}.{p}", f"{f.name} reads {p} of {y.shape[1].name} from {', '.join(sorted(got - {p}))}", f.loc())


def excluded(ctx: Ctx):
    """Keys that a reader does not hand on as additional attributes are read on their own."""
    for name in sorted(set(READERS.values())):
        f = reader(ctx, name)
        read = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
                read.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant):
                read.add(n.args[0].value)
        for n in ast.walk(f.node):
            if isinstance(n, ast.comprehension):
                for t in n.ifs:
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn) and isinstance(t.comparators[0], (ast.Set, ast.Tuple, ast.List)):
                        for e in t.comparators[0].elts:
                            if isinstance(e, ast.Constant):
                                ctx.rep.ok("excluded", f"{name}:{e.value}")
                                if read and e.value not in read:
                                    ctx.rep.fail("excluded", f"{name}:{e.value}", f"{name} drops the attribute {e.value}", f.loc())


def ctors(v: V, depth: int = 0):
    if v.shape is not None and v.shape[0] == "ctor":
        yield v
