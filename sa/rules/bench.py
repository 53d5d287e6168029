"""W01-W03: workloads and benchmarks."""
from __future__ import annotations

import ast
import itertools

from .flow import *

GROW = {"append": 1, "appendleft": 1, "insert": 1, "pop": -1, "popleft": -1}
BULK = {"extend", "@extend"}


# ------------------------------------------------------------------------------------------------ W02
def sample_classes(ctx: Ctx) -> dict:
    """The classes that collect the results of the executions of a query and their columns."""
    mod = ctx.prog.modules["postbound.bench"]
    out = {}
    for c in ctx.prog.classes:
        if c.module is not mod or c.find("__init__") is None or c.find("__init__").cls is not c:
            continue
        cols = set()
        for n in ast.walk(c.find("__init__").node):
            tgt = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            empty = tgt is not None and (isinstance(n.value, ast.List) and not n.value.elts or isinstance(n.value, ast.Call)
                                         and isinstance(n.value.func, ast.Name) and n.value.func.id == "list" and not n.value.args)
            if empty and isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self":
                cols.add(norm(tgt.attr))
        if len(cols) >= 4:
            out[c] = cols
    return out


def _count(node) -> str:
    """How many entries an expression adds."""
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
        a, b = (node.left, node.right) if isinstance(node.left, (ast.List, ast.Tuple)) else (node.right, node.left)
        if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 1:
            return ast.unparse(b)
    if isinstance(node, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in node.elts):
        return str(len(node.elts))
    if isinstance(node, (ast.ListComp, ast.GeneratorExp)) and len(node.generators) == 1 and not node.generators[0].ifs:
        it = node.generators[0].iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1:
            return ast.unparse(it.args[0])
    if isinstance(node, ast.Call) and isinstance(node.func, (ast.Name, ast.Attribute)) and ast.unparse(node.func).endswith("repeat") and len(node.args) == 2:
        return ast.unparse(node.args[1])
    return "?"


def _in_loop(e: Event) -> str:
    """The number of iterations of the loops around a call in its function."""
    loops = []
    for n in ast.walk(e.func.node):
        if isinstance(n, (ast.For, ast.While)) and any(x is e.node for s in n.body for x in ast.walk(s)):
            it = n.iter if isinstance(n, ast.For) else None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1:
                loops.append(ast.unparse(it.args[0]))
            else:
                loops.append("?")
    return "*".join(loops)


def growth(o: Outcome, root: str, cols: set) -> dict:
    """Column -> number of entries that a path adds to it."""
    out = {c: {} for c in cols}
    for e in o.events:
        p = e.recv.path if e.recv is not None else None
        if p is None or len(p) != 2 or p[0] != root or norm(p[1]) not in cols:
            continue
        per = _in_loop(e)
        if e.name in GROW:
            k, d = (per or "1"), GROW[e.name]
        elif e.name in BULK:
            node = e.node.value if isinstance(e.node, ast.AugAssign) else e.node.args[0] if e.node.args else None
            n = _count(node)
            k, d = ((per + "*" if per else "") + n if n != "1" else per or "1"), 1
            if n.isdigit() and not per:
                k, d = "1", int(n)
        elif e.name in ("clear", "remove"):
            k, d = "?", 1
        else:
            continue
        c = out[norm(p[1])]
        c[k] = c.get(k, 0) + d
    return {c: {k: n for k, n in g.items() if n} for c, g in out.items()}


def sample_inline(ctx, cls, keep=()):
    mod = cls.module

    def hook(it, f, recv):
        if f.module is not mod or f.name in keep:
            return False
        return f.cls is None or f.cls is cls
    return hook


def check_W02(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    samples = sample_classes(ctx)
    for cls, cols in samples.items():
        # the functions which record the outcome of one execution
        roots = {}
        for f in prog.functions:
            if f.module is not cls.module or f.cls is not None or f.outer is not None:
                continue
            for a in f.all_params():
                if a.annotation is not None and cls.qual in (prog.param_ty(f, a.annotation).names or ()):
                    roots[f] = a.arg
        called = {id(prog.find_func(cls.module.name, n.func.id)) for f in roots for n in ast.walk(f.node)
                  if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and prog.find_func(cls.module.name, n.func.id) is not f}
        modifiers = {g for g in cls.methods.values() if g.name != "__init__" and _modifies(g, cols)}
        seen: set = set()
        roles: dict[str, set] = {}
        for f, root in roots.items():
            if id(f) in called:
                continue
            quiet = {g.name for g in cls.methods.values() if not _touches(cls, g, cols, modifiers)}
            run = Run(ctx, f, None, args={root: cls}, inline=sample_inline(ctx, cls, quiet), results=_executions, cap=200, call_cap=200, arg_cap=50,
                      max_steps=400000)
            if not run.ok:
                rep.skip("aligned", f.name)
                continue
            seen |= run.it.visited
            outcomes(ctx, f, cls, cols, root, run, roles)
        for g in modifiers:
            if g.qual in seen:
                continue
            run = Run(ctx, g, cls, inline=sample_inline(ctx, cls), cap=200)
            me = g.all_params()[0].arg
            for o in run.returns:
                aligned(ctx, g, o, me, cols, g.name)
                a_failure(ctx, g, o, me, cols)
        tables(ctx, cls, cols, roles)
        records(ctx, cls, cols, roles)
        exports(ctx, cls)
    samples_made(ctx, samples)
    rep.require("aligned", 4)
    rep.require("columns", 10)


def _modifies(g: FuncInfo, cols) -> bool:
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and norm(n.attr) in cols:
            return any(isinstance(m, ast.AugAssign) and m.target is n or isinstance(m, ast.Attribute) and m.value is n and m.attr in GROW | {x: 0 for x in BULK | {"clear"}}
                       for m in ast.walk(g.node)) or _modifies_any(g, cols)
    return False


def _modifies_any(g: FuncInfo, cols) -> bool:
    for m in ast.walk(g.node):
        if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Attribute) and norm(m.target.attr) in cols:
            return True
        if isinstance(m, ast.Attribute) and m.attr in (*GROW, *BULK, "clear") and isinstance(m.value, ast.Attribute) and norm(m.value.attr) in cols:
            return True
    return False


def _touches(cls, g, cols, modifiers) -> bool:
    """Does a method of the sample class modify the columns, possibly through another method?"""
    work, seen = [g], set()
    while work:
        x = work.pop()
        if x.name in seen:
            continue
        seen.add(x.name)
        if x in modifiers:
            return True
        for n in ast.walk(x.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in cls.methods:
                work.append(cls.methods[n.attr])
    return False


def _executions(it, name, recv, args, kwargs, st):
    if name in ("execute_query", "execute_with_timeout"):
        v = pathv((f"@@{name}",))
        return [(v.with_(calls=frozenset({name})), st.copy())]
    return None


def aligned(ctx, f, o: Outcome, root, cols, label) -> Optional[dict]:
    g = growth(o, root, cols)
    if any("?" in k for c in g.values() for k in c):
        ctx.rep.skip("aligned", label)
        return None
    ctx.rep.ok("aligned", label)
    kinds = {tuple(sorted(x.items())) for x in g.values()}
    if len(kinds) > 1:
        common = max(kinds, key=lambda k: sum(tuple(sorted(x.items())) == k for x in g.values()))
        for c, x in sorted(g.items()):
            if tuple(sorted(x.items())) != common:
                ctx.rep.fail("aligned", f"{f.name}:{c}", f"a path of {f.qual} adds {_entries(x)} to the column {c}, but "
                             f"{_entries(dict(common))} to the other ones ({_status(o, root)})", f.loc())
        return None
    return dict(next(iter(kinds)))


def _entries(g: dict) -> str:
    if not g:
        return "no entry"
    return ", ".join(f"{n} entries" if k == "1" and n != 1 else "1 entry" if k == "1" else f"{k} entries" for k, n in g.items())


def _adds(o: Outcome, root: str, cols) -> dict[str, list[V]]:
    """Column -> values that are added."""
    out: dict[str, list] = {}
    for e in o.events:
        p = e.recv.path if e.recv is not None else None
        if p is not None and len(p) == 2 and p[0] == root and norm(p[1]) in cols and (e.name in BULK or e.name in GROW and GROW[e.name] > 0):
            out.setdefault(norm(p[1]), []).append(e.m.get(1 if e.name == "insert" else 0))
    return out


STATUS = ("ok", "timeout", "execution-error", "optimization-error")


def _consts(v: Optional[V], o: Outcome) -> set:
    if v is None:
        return set()
    out = set()
    if v.shape is not None and v.shape[0] == "const":
        out.add(v.shape[1])
    if v.shape is not None and v.shape[0] == "seq":
        for x in v.shape[1]:
            out |= _consts(o.it.mat(x, o.s), o)
    if v.elem is not None:
        out |= _consts(o.it.mat(v.elem, o.s), o)
    return {x for x in out if isinstance(x, str) or x is None} | {x for x in v.strs if x in STATUS}


def _status(o, root) -> str:
    for e in o.events:
        if e.recv is not None and e.recv.path is not None and len(e.recv.path) == 2 and e.recv.path[0] == root:
            s = [x for x in _consts(e.m.get(0), o) if x in STATUS]
            if s:
                return f"status {s[0]}"
    return "no status"


def outcomes(ctx, f, cls, cols, root, run: Run, roles):
    rep = ctx.rep
    kinds: dict[str, list] = {}
    for o in run.returns:
        g = aligned(ctx, f, o, root, cols, f.name)
        if g is None:
            continue
        total = sum(g.values())
        rep.ok("one-row", f.name)
        if total not in (0, 1):
            rep.fail("one-row", f"{f.name}:{total}", f"{f.qual} adds {_entries(g)} to each column for one execution", f.loc())
        adds = _adds(o, root, cols)
        status = {c: s for c, vs in adds.items() for v in vs for s in _consts(v, o) if s in STATUS}
        if total == 1:
            if len(set(status.values())) != 1:
                rep.fail("status", f.name, f"a path of {f.qual} records an execution without a unique status ({sorted(set(status.values()))})", f.loc())
                continue
            kinds.setdefault(next(iter(status.values())), []).append((o, adds, next(iter(status))))
        elif total == 0:
            kinds.setdefault("none", []).append((o, adds, None))
    if not kinds:
        return
    for want in ("ok", "timeout", "execution-error"):
        rep.ok("status", f"{f.name}:{want}")
        if want not in kinds:
            rep.fail("status", f"{f.name}:{want}", f"{f.qual} never records the status {want}", f.loc())
    mark = {"result": {"execute_query", "execute_with_timeout"}, "time": {"perf_counter_ns", "perf_counter", "last_query_runtime", "time", "monotonic"},
            "config": {"describe"}, "timestamp": {"now"}}

    def has(v, r):
        return v is not None and bool(v.calls & mark[r] or steps_of(v) & mark[r] or any(p[0].lstrip("@") in mark[r] for p in v.src))

    for status, paths in kinds.items():
        for o, adds, col in paths:
            if col is not None:
                roles.setdefault("status", set()).add(col)
            failed = any(x[0].startswith("exc:") for e in o.events for v in (e.m or {}).values() if isinstance(v, V) for x in v.src)
            none = o.s.facts.get(("n", ("@@execute_with_timeout",)))
            timed = any(e.name == "execute_with_timeout" for e in o.events)
            if status == "ok":
                rep.ok("outcome", f"{f.name}:ok")
                if failed:
                    rep.fail("outcome", f"{f.name}:ok:failed", f"{f.qual} records a failed execution as successful", f.loc())
                if timed and none is not False:
                    rep.fail("outcome", f"{f.name}:ok:timeout", f"{f.qual} may record a cancelled execution as successful", f.loc())
                for c, vs in adds.items():
                    for r in ("result", "time", "config", "timestamp"):
                        if any(has(v, r) for v in vs):
                            # results are also part of the state that the run times are measured in
                            roles.setdefault(r, set()).add(c)
            elif status == "timeout":
                rep.ok("outcome", f"{f.name}:timeout")
                if timed and none is False and not failed:
                    rep.fail("outcome", f"{f.name}:timeout:ok", f"{f.qual} records a completed execution as a timeout", f.loc())
                if failed:
                    rep.fail("outcome", f"{f.name}:timeout:failed", f"{f.qual} records a failed execution as a timeout", f.loc())
            elif status == "execution-error":
                rep.ok("outcome", f"{f.name}:error")
                if not failed:
                    rep.fail("outcome", f"{f.name}:error", f"{f.qual} records an execution error without an error", f.loc())
                for c, vs in adds.items():
                    if any(x[0].startswith("exc:") for v in vs if v is not None for x in v.src):
                        roles.setdefault("reason", set()).add(c)
            elif status != "none":
                rep.fail("outcome", f"{f.name}:{status}", f"{f.qual} records the execution of a query as {status}", f.loc())
    for r in ("result", "time", "config", "timestamp", "reason", "status"):
        rep.ok("roles", f"{f.name}:{r}")
        if len(roles.get(r, ())) != 1:
            rep.fail("roles", f"{f.name}:{r}", f"the {r} of an execution ends up in the columns {sorted(map(str, roles.get(r, ())))} in {f.qual}", f.loc())
    if any(len(roles.get(r, ())) != 1 for r in roles):
        return
    col = {r: next(iter(c)) for r, c in roles.items()}
    for status, paths in kinds.items():
        for o, adds, _ in paths:
            last = {c: vs[-1] for c, vs in adds.items() if vs}
            if status in ("ok", "timeout", "execution-error"):
                for r in ("timestamp", "config"):
                    rep.ok("recorded", f"{status}:{r}")
                    if r in col and not has(last.get(col[r]), r):
                        rep.fail("recorded", f"{status}:{r}", f"{f.qual} does not record the {r} for the status {status}", f.loc())
            if status in ("timeout", "execution-error"):
                rep.ok("recorded", f"{status}:result")
                if "result" in col and not is_const(last.get(col["result"], V()), None):
                    rep.fail("recorded", f"{status}:result", f"{f.qual} records a result set for the status {status}", f.loc())
            if status == "timeout":
                rep.ok("recorded", "timeout:time")
                if "time" in col and not from_(last.get(col["time"]), "timeout"):
                    rep.fail("recorded", "timeout:time", f"{f.qual} does not record the timeout as execution time", f.loc())
            if status == "execution-error":
                rep.ok("recorded", "error:time")
                if "time" in col and has(last.get(col["time"]), "time"):
                    rep.fail("recorded", "error:time", f"{f.qual} records an execution time for a failed query", f.loc())
    # what has been recorded is also written and reported
    for o in run.returns:
        adds = _adds(o, root, cols)
        g = growth(o, root, cols)
        if not all(sum(x.values()) == 1 for x in g.values()):
            continue
        out = [p for p in {k[1] for k in o.s.facts if k[0] == "t"} if p[-1:] == ("output",)]
        for p in out:
            rep.ok("progress", f.name)
            wrote = any(e.recv is not None and e.recv.path == (root,) and any(from_(v, "output") for v in e.m.values()) for e in o.events)
            if o.s.facts[("t", p)] is True and not wrote:
                rep.fail("progress", f"{f.name}", f"a path of {f.qual} does not write a recorded execution to the progressive output", f.loc())


def a_failure(ctx, g, o: Outcome, root, cols):
    """Failed optimizations fill the rows of all repetitions."""
    adds = _adds(o, root, cols)
    status = {s for vs in adds.values() for v in vs for s in _consts(v, o) if s in STATUS}
    if not status:
        return
    ctx.rep.ok("status", f"{g.name}:optimization-error")
    if status != {"optimization-error"}:
        ctx.rep.fail("status", g.name, f"{g.qual} records a failed optimization as {sorted(status)}", g.loc())
    gr = growth(o, root, cols)
    per = {tuple(x) for x in gr.values()}
    if per and all(p == ("1",) for p in per):
        ctx.rep.fail("repetitions", g.name, f"{g.qual} only adds one row for a failed optimization, independent of the number of repetitions", g.loc())
    else:
        ctx.rep.ok("repetitions", g.name)


PUBLIC = {"status": "status", "query_result": "result", "exec_time": "time", "failure_reason": "reason", "db_config": "config", "timestamp": "timestamp"}
SCALARS = {"label": {"label"}, "query": {"query"}, "query_preparation": {"query_prep", "query_preparation"}, "optimization_time": {"optimization_time"},
           "optimization_pipeline": {"optimization_pipeline", "pipeline"}, "optimized_query": {"optimized_query"},
           "workload_repetition": {"current_workload_rep", "workload_rep", "workload_repetition"}}


def _tabular(f: FuncInfo) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr == "DataFrame" for n in ast.walk(f.node))


def tables(ctx, cls, cols, roles):
    """The columns of the data frames contain what their name says."""
    rep = ctx.rep
    col = {r: next(iter(c)) for r, c in roles.items() if len(c) == 1}
    for f in cls.methods.values():
        if not _tabular(f):
            continue
        run = Run(ctx, f, cls, inline=sample_inline(ctx, cls))
        forms = []
        for e, _, _ in run.it.log:
            if not e.name.endswith("DataFrame") or 0 not in (e.m or {}):
                continue
            sh = e.m[0].shape
            if sh is None or sh[0] != "dict":
                rep.skip("columns", f.name)
                continue
            forms.append((e, sh[1]))
        names = [set(d) for _, d in forms]
        for k in sorted(set.intersection(*names) if names else (), key=str):
            ops = [{c for c in d[k].calls if not c.startswith("op") and c not in ("len", "range", "num_executions", "list")} for _, d in forms]
            if any(x != ops[0] for x in ops):
                rep.fail("columns", f"{f.name}:{k}:conversion", f"the output forms of {f.qual} convert the column {k} differently", f.loc())
        for d in (n for n in ast.walk(f.node) if isinstance(n, ast.Dict) and len(n.keys) > 6):
            for k, v in zip(d.keys, d.values):
                if isinstance(v, ast.ListComp) and any(g.ifs for g in v.generators):
                    rep.fail("columns", f"{f.name}:{ast.unparse(k)}:all", f"{f.qual} leaves entries out of the column {ast.unparse(k)}", f.loc())
                for x in ast.walk(v):
                    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and (x.slice.lower is not None or x.slice.upper is not None):
                        rep.fail("columns", f"{f.name}:{ast.unparse(k)}:all", f"{f.qual} leaves entries out of the column {ast.unparse(k)}", f.loc())
        for (e, d), own in zip(forms, names):
            for k in sorted(map(str, set().union(*names) - own)):
                rep.fail("columns", f"{f.name}:{k}", f"{f.qual} does not create the column {k} in all output forms", f.loc())
            last = None
            for k, v in d.items():
                key = k[1] if isinstance(k, tuple) else k
                key = key if isinstance(key, str) else str(key)
                key = key.strip("'\"")
                rep.ok("columns", f"{f.name}:{key}")
                heads = {norm(p[1]) for p in v.src if len(p) > 1 and p[0] == "self"}
                if key in PUBLIC and PUBLIC[key] in col:
                    want = col[PUBLIC[key]]
                    if want not in heads or heads & (cols - {want}):
                        rep.fail("columns", f"{f.name}:{key}", f"the column {key} is not filled from {want} in {f.qual}", f.loc())
                    at = {p[2] for p in v.src if len(p) > 2 and norm(p[1]) == want} - {"*"}
                    if at and at != {"-1"}:
                        rep.fail("last", f"{f.name}:{key}", f"the column {key} is not filled with the last entry of {want} in {f.qual}", f.loc())
                    part = bool(at)
                    if last is not None and last != part:
                        rep.fail("columns", f"{f.name}:{key}:length", f"the column {key} contains a different number of rows in {f.qual}", f.loc())
                    last = part
                elif key in SCALARS:
                    if heads & cols or not heads & SCALARS[key]:
                        rep.fail("columns", f"{f.name}:{key}", f"the column {key} is filled from {sorted(heads)} in {f.qual}", f.loc())
        numbering(ctx, f)


def numbering(ctx, f: FuncInfo):
    """The indexes of the last row are those of the last entry in the full table."""
    rep = ctx.rep
    dicts = [n for n in ast.walk(f.node) if isinstance(n, ast.Dict) and len(n.keys) > 6]
    locs = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            locs[n.targets[0].id] = n.value
    got: dict = {}
    for d in dicts:
        for k, v in zip(d.keys, d.values):
            if not (isinstance(k, ast.Constant) and k.value in ("exec_index", "query_repetition")):
                continue
            for n in (1, 4):
                r = _arith_last(v, n, locs)
                got.setdefault((k.value, n), []).append(r)
    for (k, n), vals in got.items():
        if len(vals) < 2 or any(v is None for v in vals):
            continue
        rep.ok("numbering", f"{f.name}:{k}")
        if len(set(vals)) > 1:
            rep.fail("numbering", f"{f.name}:{k}", f"the output forms of {f.qual} disagree on the {k} of the last row", f.loc())
        if k == "query_repetition" and set(vals) != {n}:
            rep.fail("numbering", f"{f.name}:{k}", f"repetition {n} gets the {k} {vals[0]} in {f.qual}", f.loc())


def _arith_last(v, n, locs):
    """The value of the last element of a list display or comprehension over range(n)."""
    env = {}
    if isinstance(v, ast.List) and len(v.elts) == 1:
        return _arith(v.elts[0], n, env, locs)
    if isinstance(v, ast.ListComp) and len(v.generators) == 1:
        g = v.generators[0]
        if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "range" and isinstance(g.target, ast.Name):
            args = [_arith(a, n, env, locs) for a in g.iter.args]
            if all(isinstance(a, int) for a in args) and args:
                r = range(*args)
                if len(r):
                    return _arith(v.elt, n, {g.target.id: r[-1]}, locs)
    return None


def _arith(e, n, env, locs, depth=0):
    if depth > 6:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        if e.id in locs:
            return _arith(locs[e.id], n, env, locs, depth + 1)
        return None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return 1000 + sum(map(ord, e.attr)) % 97
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        return n
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "num_executions":
        return n
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        a, b = _arith(e.left, n, env, locs, depth + 1), _arith(e.right, n, env, locs, depth + 1)
        if a is None or b is None:
            return None
        return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
    return None


def records(ctx, cls, cols, roles):
    """The result objects of the executions contain what their fields say, all from the same execution."""
    rep, prog = ctx.rep, ctx.prog
    col = {r: next(iter(c)) for r, c in roles.items() if len(c) == 1}
    want = {"status": "status", "query_result": "result", "execution_time": "time"}
    for f in cls.methods.values():
        run = Run(ctx, f, cls, inline=sample_inline(ctx, cls))
        for e, _ in run.constructed("ExecutionResult"):
            at = set()
            for p, r in want.items():
                v = e.m.get(p)
                if r not in col:
                    continue
                rep.ok("records", f"{f.name}:{p}")
                heads = {norm(x[1]) for x in (v.src if v is not None else ()) if len(x) > 1 and x[0] == "self"} & cols
                if heads != {col[r]}:
                    rep.fail("records", f"{f.name}:{p}", f"{f.qual} creates results whose {p} comes from {sorted(heads) or 'elsewhere'}", f.loc())
                at |= {x[2] == "-1" for x in (v.src if v is not None else ()) if len(x) > 2 and x[0] == "self" and norm(x[1]) in cols}
            if len(at) > 1:
                rep.fail("records", f"{f.name}:index", f"{f.qual} creates results from different executions", f.loc())
            for p in ("query", "optimization_time"):
                rep.ok("records", f"{f.name}:{p}")
                if not from_(e.m.get(p), p):
                    rep.fail("records", f"{f.name}:{p}", f"{f.qual} creates results whose {p} is not the one of the query", f.loc())
            _same_index(ctx, f, cols)
        if "status" in col and any(True for _ in run.constructed("ExecutionResult")) and any("*" in p for o in run.returns if o.v is not None for p in o.v.src):
            for s in STATUS:
                rep.ok("records", f"{f.name}:{s}")
                some = (col["status"], "_" + col["status"])
                facts = {("e", ("self", n, "*"), s): True for n in some}
                one = Run(ctx, f, cls, facts=facts, inline=sample_inline(ctx, cls))
                made = any(True for _ in one.constructed("ExecutionResult"))
                if made != (s == "ok"):
                    rep.fail("records", f"{f.name}:{s}", f"{f.qual} {'contains' if made else 'drops'} executions with the status {s}", f.loc())
                if made and not any(o.v is not None and "ExecutionResult" in o.v.calls for o in one.returns):
                    rep.fail("records", f"{f.name}:collect", f"{f.qual} does not return the results", f.loc())


def _same_index(ctx, f: FuncInfo, cols):
    """Per result object, all columns are accessed with the same index."""
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Call) and ast.unparse(n.func).endswith("ExecutionResult")):
            continue
        idx = {ast.unparse(x.slice) for k in [*n.args, *[k.value for k in n.keywords]] for x in ast.walk(k)
               if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and norm(x.value.attr) in cols}
        ctx.rep.ok("records", f"{f.name}:index")
        if len(idx) > 1:
            ctx.rep.fail("records", f"{f.name}:index", f"{f.qual} combines the entries {sorted(idx)} of different executions", f.loc())


WRITERS = {"to_csv": {".csv"}, "to_parquet": {".parquet"}, "to_hdf": {".hdf", ".hdf5", ".h5"}, "to_json": {".json"}}


def exports(ctx, cls):
    """Progressive outputs append to existing files, contain all columns and use the options of the caller."""
    rep = ctx.rep
    calls = {f: {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} for f in cls.methods.values()}
    reach = {f for f in calls if calls[f] & set(WRITERS)}
    while True:
        more = {f for f in calls if f not in reach and calls[f] & {g.name for g in reach}}
        if not more:
            break
        reach |= more
    entries = [f for f in reach if not any(f.name in calls[g] for g in reach if g is not f)]
    for f in entries:
        run = Run(ctx, f, cls, inline=lambda it, g, r: g.name != "to_df" and (g.cls is cls or None), cap=100, call_cap=100, max_steps=200000)
        if not run.ok:
            rep.skip("exports", f.name)
            continue
        done = set()
        for o in run.returns:
            kind = {k[2] for k, t in o.s.facts.items() if k[0] == "e" and t is True and k[1][-1:] == ("suffix",)}
            evs = [e for e in o.events if e.name.split(".")[-1] in WRITERS]
            if not evs:
                if kind:
                    rep.fail("exports", f"{f.name}:{'/'.join(sorted(kind))}", f"a path of {f.qual} does not write {'/'.join(sorted(kind))} files", f.loc())
                continue
            rep.ok("exports", f"{f.name}:{'/'.join(sorted(kind))}")
            e, name = evs[0], evs[0].name.split(".")[-1]
            if len(evs) != 1:
                rep.fail("exports", f"{f.name}:calls", f"a path of {f.qual} writes the results {len(evs)} times", f.loc())
            if kind and not kind <= WRITERS[name]:
                rep.fail("exports", f"{f.name}:{name}", f"{f.qual} uses {name} for {sorted(kind)}", f.loc())
            done |= kind
            data = e.recv
            rows = [x for x in o.events if x.name == "to_df"]
            if rows and data is not None and "to_df" in data.calls and not data.calls & {"tail", "iloc", "@slice"} and not any(
                    is_const(v, True) for x in rows for v in [*x.args, *x.kwargs.values()]) and all(not x.args and not x.kwargs for x in rows) and not any(
                    isinstance(n, ast.Attribute) and n.attr in ("tail", "iloc", "loc") for g in reach for n in ast.walk(g.node)):
                rep.fail("exports", f"{f.name}:{name}:rows", f"{f.qual} writes the rows of earlier executions again", f.loc())
            if data is None or not data.calls & {"to_df", "DataFrame"}:
                rep.fail("exports", f"{f.name}:{name}:data", f"{f.qual} does not write the results of the query", f.loc())
            opts = [a.arg for a in f.all_params() if a.annotation is not None and "dict" in ast.unparse(a.annotation)]
            for p in opts:
                if e.dstar is None or not any(x[0] == p for x in o.it.mat(e.dstar, o.s).src):
                    rep.fail("exports", f"{f.name}:{name}:{p}", f"{f.qual} does not pass {p} to {name}", f.loc())
            exists = [t for (k, *p), t in o.s.facts.items() if k == "t" and p and any(str(x).startswith(("is_file", "exists")) for x in p[0])]
            if not exists:
                rep.fail("exports", f"{f.name}:{name}:exists", f"{f.qual} does not consider an existing file for {name}", f.loc())
                continue
            append = "mode" in e.m and is_const(e.m["mode"], "a")
            joined = data is not None and "concat" in data.calls
            if exists[0]:
                if not (append or joined and any(c.startswith("read_") for c in data.calls)):
                    rep.fail("exports", f"{f.name}:{name}:append", f"{f.qual} replaces the results of an existing file in {name}", f.loc())
                if name == "to_csv" and append and "header" not in e.m:
                    rep.fail("exports", f"{f.name}:{name}:header", f"{f.qual} repeats the header when it appends to an existing file", f.loc())
            else:
                if "header" in e.m and is_const(e.m["header"], False):
                    rep.fail("exports", f"{f.name}:{name}:header", f"{f.qual} creates files without a header", f.loc())
                if not any(x.name.split(".")[-1] in ("mkdir", "makedirs") for x in o.events):
                    rep.fail("exports", f"{f.name}:{name}:folder", f"{f.qual} does not create missing folders for {name}", f.loc())
            for x in o.events:
                if x.name.split(".")[-1] == "mkdir" and not ("exist_ok" in x.m and "parents" in x.m):
                    rep.fail("exports", f"{f.name}:folder", f"{f.qual} cannot create folders which exist already or are nested", f.loc())
        for w, kinds in WRITERS.items():
            for k in sorted(kinds - done):
                if done:
                    rep.fail("exports", f"{f.name}:{k}", f"{f.qual} does not write {k} files", f.loc())


def samples_made(ctx, samples):
    """Each sample is created for the query and label that is executed."""
    rep, prog = ctx.rep, ctx.prog
    names = {c.name for c in samples}
    for f in prog.functions:
        if f.module.name != "postbound.bench" or not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(f.node)):
            continue
        run = Run(ctx, f, f.cls, inline=lambda it, g, r: False)
        for e, _ in run.constructed(*names):
            for p, v in e.m.items():
                if p in {a.arg for a in f.all_params()}:
                    rep.ok("samples", f"{f.name}:{p}")
                    if not any(x[0] == p for x in v.src):
                        rep.fail("samples", f"{f.name}:{p}", f"{f.qual} creates samples with another {p}", f.loc())


# ------------------------------------------------------------------------------------------------ W03
REPORTS = {"write_progressive", "to_df", "__str__", "__repr__"}


def ename(e: Event) -> str:
    """The name of a called function, even if it is looked up dynamically."""
    if e.name == "@callback" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute):
        return e.node.func.attr
    return e.name.split(".")[-1]


def _at(it: Interp, e: Event, i, k=None) -> Optional[V]:
    v = e.m.get(k) if k is not None and k in e.m else e.m.get(i)
    return v if v is not None else arg(e, k) if k is not None else None


def bench_inline(samples):
    def hook(it, g, r):
        if not g.module.name.endswith(".bench"):
            return False if g.module.name.endswith((".workloads", "._pipelines", "._stages")) else None
        if g.cls in samples:
            return not _tabular(g) and not _reports(g) and g.name not in REPORTS and not any(
                isinstance(n, ast.Name) and n.id == "ExecutionResult" for n in ast.walk(g.node))
        # progress reports do not contribute to the results
        return g.cls is None and not _reports(g) or g.cls is not None and any(_makes(g2, samples) for g2 in g.cls.methods.values())
    return hook


def _reports(g: FuncInfo) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr in ("logger", "getLogger", "to_json_dump") or isinstance(n, ast.Name) and n.id in ("print", "get_logger", "open")
               for n in ast.walk(g.node)) or any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value == "w" for n in ast.walk(g.node))


def _makes(g: FuncInfo, samples) -> bool:
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in {c.name for c in samples} for n in ast.walk(g.node))


def check_W03(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    f = prog.func("postbound.bench", "execute_workload")
    samples = sample_classes(ctx)
    hook = bench_inline(samples)

    def bench(target: str, facts=None, **args):
        cls = prog.cls(target)
        a = {"on": cls, **args}
        fx = {("T", ("on",)): frozenset({cls.qual}), **(facts or {})}
        r = Run(ctx, f, None, args=a, facts=fx, inline=hook, cap=24, max_steps=600000, max_depth=12, results=_executions)
        if not r.ok:
            rep.skip("benchmark", f"{target}:{sorted(args)}")
        return r

    db, pipe = "Database", "OptimizationPipeline"
    measured(ctx, f, bench, db, pipe)
    options(ctx, f, bench, db)
    policies(ctx, f, bench, db, pipe, samples)
    training(ctx, f, bench, pipe)
    counters(ctx, f, bench, db, samples)
    handlers(ctx, samples)
    preparation(ctx)
    stages(ctx)
    collected(ctx)
    rep.require("measured", 4)
    rep.require("policy", 6)
    rep.require("preparation", 8)


def _executed(run: Run, name: str):
    return [(e, fa) for e, fa, _ in run.it.log if ename(e) == name]


def measured(ctx, f, bench, db, pipe):
    """The measured query is the optimized and prepared one, executed with the given timeout and without a cache."""
    rep = ctx.rep
    for target, timeout, prep in itertools.product((db, pipe), (None, 60), (False, True)):
        fx = {("t", ("query_preparation",)): prep, ("n", ("query_preparation",)): not prep}
        args = {"timeout": const(timeout) if timeout is None else pathv(("timeout",))}
        if timeout is not None:
            fx[("t", ("timeout",))] = True
            fx[("n", ("timeout",))] = False
        if not prep:
            args["query_preparation"] = const(None)
        else:
            args["query_preparation"] = ctx.prog.cls("QueryPreparation")
            fx[("T", ("query_preparation",))] = frozenset({ctx.prog.cls("QueryPreparation").qual})
        run = bench(target, fx, **args)
        what = f"{target}:{'timeout' if timeout else 'no timeout'}:{'preparation' if prep else 'no preparation'}"
        if not run.ok:
            continue
        evs = _executed(run, "execute_with_timeout" if timeout else "execute_query")
        rep.ok("measured", what)
        if not evs:
            rep.fail("measured", what, f"no query is executed for {what} in {f.qual}", f.loc())
            continue
        if timeout and _executed(run, "execute_query"):
            rep.fail("measured", what + ":limit", f"queries are executed without the timeout for {what} in {f.qual}", f.loc())
        for e, _ in evs:
            q = _at(run.it, e, 0, "query")
            calls = q.calls if q is not None else frozenset()
            if q is None or not any(p[0] == "queries" for p in q.src):
                rep.fail("measured", what + ":query", f"{f.qual} does not execute the queries of the workload for {what}", f.loc())
                continue
            if (target == pipe) != ("optimize_query" in calls):
                rep.fail("measured", what + ":optimized", f"{f.qual} {'does not execute the optimized query' if target == pipe else 'optimizes the query'} for {what}", f.loc())
            if prep != ("prepare_query" in calls):
                rep.fail("measured", what + ":prepared", f"{f.qual} does not respect the query preparation for {what}", f.loc())
            if timeout:
                t = _at(run.it, e, 1, "timeout")
                if t is None or t.path != ("timeout",):
                    rep.fail("measured", what + ":timeout", f"{f.qual} executes queries with another timeout", f.loc())
            elif not ("cache_enabled" in e.m and is_const(e.m["cache_enabled"], False)):
                rep.fail("measured", what + ":cache", f"{f.qual} may measure cached results", f.loc())
            r = e.recv
            if e.name != "@callback" and (r is None or not any(p[0] == "on" for p in r.src)):
                rep.fail("measured", what + ":system", f"{f.qual} executes queries on another system", f.loc())
            if target == pipe and r is not None and "target_database" not in r.calls | {x.removesuffix("()") for p in r.src for x in p}:
                rep.fail("measured", what + ":system", f"{f.qual} does not execute queries on the target of the pipeline", f.loc())
        for e, _ in _executed(run, "prepare_query"):
            on = _at(run.it, e, "on", "on")
            if on is None or not any(p[0] == "on" for p in on.src):
                rep.fail("measured", what + ":prepare", f"{f.qual} does not prepare the database for the execution", f.loc())
        if target == pipe:
            recorders = {g.name for c in sample_classes(ctx) for g in c.methods.values() if g.name != "__init__" and "optimized_query" in {x.arg for x in g.all_params()}}
            rep.ok("measured", what + ":recorded")
            if recorders and not any(e.fi is not None and e.fi.name in recorders or ename(e) in recorders for e, _, _ in run.it.log):
                rep.fail("measured", what + ":recorded", f"{f.qual} does not record the result of the optimization", f.loc())
            for e, _ in _executed(run, "optimization_results"):
                for p, marks in {"optimized_query": {"optimize_query"}, "optimization_time": {"perf_counter_ns", "perf_counter", "time", "monotonic"}}.items():
                    v = arg(e, p)
                    rep.ok("measured", f"{what}:{p}")
                    if v is None or not v.calls & marks:
                        rep.fail("measured", f"{what}:{p}", f"{f.qual} records another {p}", f.loc())


def counters(ctx, f, bench, db, samples):
    """The numbers that identify the repetitions advance."""
    rep = ctx.rep
    run = None
    for c in ctx.prog.classes:
        init = c.find("__init__")
        if c.module.name != "postbound.bench" or c in samples or init is None or not any(_makes(g, samples) for g in c.methods.values()):
            continue
        start = {t.attr for n in ast.walk(init.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and type(n.value.value) is int
                 for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute)}
        names = {x.name for x in samples}
        used = {a.attr for g in c.methods.values() for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names
                for a in ast.walk(n) if isinstance(a, ast.Attribute)}
        for attr in sorted(start & used):
            label = f"{c.name}:{norm(attr)}"
            moving = [g for g in c.methods.values() if g is not init and any(
                isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute) and n.target.attr == attr
                or isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets) for n in ast.walk(g.node))]
            rep.ok("counters", label)
            if not moving:
                rep.fail("counters", label, f"{c.qual} never advances {attr}", init.loc())
                continue
            if run is None:
                run = bench(db)
            if run.ok and not any(e.fi in moving for e, _, _ in run.it.log):
                rep.fail("counters", f"{label}:used", f"{f.qual} never advances {attr} of {c.name}", f.loc())


def options(ctx, f, bench, db):
    """The remaining options reach the code that they control."""
    rep = ctx.rep

    def need(ok, key, msg):
        rep.ok("options", key)
        if not ok:
            rep.fail("options", key, msg, f.loc())

    run = bench(db)
    if run.ok:
        ranges = [e for e, _, _ in run.it.log if e.name == "@range"]
        for p in ("workload_repetitions", "per_query_repetitions"):
            need(any(v.path == (p,) for e in ranges for v in e.m.values()), p, f"{f.qual} does not repeat the executions according to {p}")
        made = [e for e, _ in run.constructed(*[c.name for c in sample_classes(ctx)])]
        for e in made:
            v = next((x for k, x in e.m.items() if "reps" in k), None)
            if v is not None:
                need(any(p == ("per_query_repetitions",) for p in v.src), "rows", f"{f.qual} reserves rows independent of per_query_repetitions")
            for p in ("query", "label"):
                v = e.m.get(p)
                need(v is not None and any(x[0] == "queries" for x in v.src) and not any(x[0] == "name" for x in v.src), f"sample:{p}", f"{f.qual} records results under another {p}")
            q, lb = e.m.get("query"), e.m.get("label")
            if q is not None and lb is not None and q.path is not None and q.path == lb.path:
                need(False, "sample:label", f"{f.qual} records results under another label")
            v = e.m.get("query_prep")
            if v is not None:
                need(any(x[0] == "query_preparation" for x in v.src), "sample:query_prep", f"{f.qual} does not record the query preparation")
    for kind in (True, False):
        run = bench(db, shuffled=const(kind))
        got = _executed(run, "execute_query")
        if run.ok and got:
            need(all(("shuffle" in _at(run.it, e, 0, "query").calls) == kind for e, _ in got), f"shuffled={kind}",
                 f"{f.qual} {'does not shuffle' if kind else 'shuffles'} the workload for shuffled={kind}")
            runs = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "shuffle"]
            for n in runs:
                loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While)) and any(y is n for y in ast.walk(x))]
                need(bool(loops), "shuffled:each", f"{f.qual} does not shuffle the workload before each repetition")
    out = {("t", ("progressive_output",)): True, ("n", ("progressive_output",)): False, ("t", ("output_args",)): True, ("n", ("output_args",)): False}
    run = bench(db, out)
    if run.ok:
        evs = _executed(run, "write_progressive")
        need(bool(evs), "progressive_output", f"{f.qual} never writes progressive output")
        for e, _ in evs:
            a = [x for x in e.m.values()]
            need(any(any(p[0] == "progressive_output" for p in x.src) for x in a), "progressive_output", f"{f.qual} writes progressive output to another file")
            need(any(any(p[0] == "output_args" for p in x.src) for x in a), "output_args", f"{f.qual} does not pass on the output_args")
            first = e.m.get(0)
            if first is not None and e.fi is not None:
                need(any(p[0] == "progressive_output" for p in first.src), "progressive_output", f"{f.qual} mixes up the output options")
    for p in ("exec_callback", "repetition_callback"):
        run = bench(db, {("t", (p,)): True, ("n", (p,)): False})
        if not run.ok:
            continue
        evs = [e for e, _, _ in run.it.log if e.name == "@callback" and e.recv is not None and e.recv.path == (p,)]
        evs += [e for e, _, _ in run.it.log if e.name == "@callback" and isinstance(e.node, ast.Call) and not evs and p in ast.unparse(e.node.func)]
        need(bool(evs), p, f"{f.qual} never calls the {p}")
        for e in evs:
            if p == "exec_callback":
                v = e.m.get(0)
                need(v is not None and bool({"last_result", "ExecutionResult"} & (steps_of(v) | v.calls)), p, f"{f.qual} does not pass the result to the {p}")
            else:
                n = _first_rep(f, e.node)
                need(n in (None, 1), p, f"{f.qual} starts the numbering of repetitions at {n}")
    run = bench(db, {("t", ("logger",)): True})


def _first_rep(f: FuncInfo, call):
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and any(x is call for x in ast.walk(n)) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) \
                and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and call.args:
            start = n.iter.args[0].value if len(n.iter.args) > 1 and isinstance(n.iter.args[0], ast.Constant) else 0
            return _arith(call.args[0], 0, {n.target.id: start}, {})
    return None


def policies(ctx, f, bench, db, pipe, samples):
    """Each kind of failure is recorded, reported or ignored as requested."""
    rep = ctx.rep
    recorders = {g.name for c, cols in samples.items() for g in c.methods.values() if g.name != "__init__" and _modifies_any(g, cols)
                 and any(s in ast.unparse(g.node) for s in ("'optimization-error'",))}
    for policy in ("log", "ignore", "raise"):
        run = bench(pipe, {("t", ("progressive_output",)): True, ("n", ("progressive_output",)): False}, error_action=const(policy))
        if not run.ok:
            continue
        rep.ok("policy", f"optimization:{policy}")
        dropped = [e for e, _, _ in run.it.log if e.name == "pop" and e.recv is not None and any("sample" in x for p in (e.recv.path or ()) for x in [p])
                   or e.name in _droppers(ctx, samples)]
        noted = [e for e, _, _ in run.it.log if e.name in recorders]
        if policy == "log" and dropped:
            rep.fail("policy", "optimization:log", f"{f.qual} drops failed optimizations although they should be logged", f.loc())
        if policy == "log" and not noted:
            rep.fail("policy", "optimization:log", f"{f.qual} does not record failed optimizations", f.loc())
        if policy == "ignore" and noted and not dropped:
            rep.fail("policy", "optimization:ignore", f"{f.qual} records failed optimizations although they should be ignored", f.loc())
        for e, fa, _ in run.it.log:
            if e.name in ("execute_query",) and any(ename(x) == "" for x in ()):
                pass
    # a failed optimization is not executed
    run = bench(pipe, error_action=const("log"))
    for c in samples:
        for n in ("failed_optimization",):
            if run.ok and c.find(n) is not None:
                checked = [fa for e, fa in _executed(run, "execute_query") if any(k[0] == "t" and k[1][-1:] == (n + "()",) and t for k, t in fa.items())]
                rep.ok("policy", "optimization:skip")
                if checked:
                    rep.fail("policy", "optimization:skip", f"{f.qual} executes queries whose optimization failed", f.loc())


def _droppers(ctx, samples) -> set:
    """Methods that remove the last sample."""
    out = set()
    for c in ctx.prog.classes:
        if c.module.name == "postbound.bench" and c not in samples and any(_makes(g, samples) for g in c.methods.values()):
            for g in c.methods.values():
                if any(isinstance(n, ast.Attribute) and n.attr == "pop" for n in ast.walk(g.node)):
                    out.add(g.name)
    return out


def handlers(ctx, samples):
    """All functions that distinguish the failure policies implement each of them and reject other ones."""
    rep, prog = ctx.rep, ctx.prog
    want = {"log", "raise", "ignore"}
    for f in prog.functions:
        if f.module.name != "postbound.bench" or f.cls is not None:
            continue
        used = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)} & want
        if len(used) < 2 or f.name == "execute_workload":
            continue
        quiet = {g.name for c in samples for g in c.methods.values()}
        for policy in sorted(want) + ["other"]:
            conts = [a.arg for a in f.all_params()]
            facts = {}
            for a in conts:
                for n in ("error_action",):
                    facts |= {("e", (a, n), p): p == policy for p in want}
                    facts |= {("e", (n,), p): p == policy for p in want} if a == n else {}
            run = Run(ctx, f, None, facts=facts, args={a.arg: c for c in samples for a in f.all_params() if a.annotation is not None and c.qual in (prog.param_ty(f, a.annotation).names or ())},
                      inline=lambda it, g, r: g.module is f.module and g.cls is None, results=_executions, cap=100, call_cap=100, max_steps=400000)
            if not run.ok:
                rep.skip("policy", f"{f.name}:{policy}")
                continue
            failed = [o for o in run.outs if any(e.name.startswith("_Failed") or e.cls is not None and "Failed" in e.cls.name for e in o.events)
                      or any(e.name in ("optimization_failure", "add_exec_failure") for e in o.events)
                      or any(k[0] == "t" and k[1][-1:] == ("failed_optimization()",) and t for k, t in o.s.facts.items())]
            rep.ok("policy", f"{f.name}:{policy}")
            raised = [o for o in run.outs if o.kind == "raise"]
            if policy == "raise" and not any(o.v is not None and (any(p[0].startswith("exc:") for p in o.v.src) or "failed_optimization" in o.v.calls | steps_of(o.v)) for o in raised):
                rep.fail("policy", f"{f.name}:raise", f"{f.qual} does not raise the errors of failed queries", f.loc())
            if policy in ("log", "ignore") and any(o.v is not None and (any(p[0].startswith("exc:") for p in o.v.src) or "failed_optimization" in o.v.calls | steps_of(o.v)) for o in raised):
                rep.fail("policy", f"{f.name}:{policy}", f"{f.qual} raises the errors of failed queries although the policy is {policy}", f.loc())
            if policy == "raise" and any(o.kind == "return" for o in failed if not _looped(f)):
                rep.fail("policy", f"{f.name}:raise:return", f"a path of {f.qual} does not raise the error of a failed query", f.loc())
            if policy == "other" and not raised:
                rep.fail("policy", f"{f.name}:other", f"{f.qual} accepts unknown failure policies", f.loc())
            rows = [any(e.name == "add_exec_failure" for e in o.events) for o in failed if o.kind == "return"]
            if policy == "log" and not _looped(f) and rows and not all(rows):
                rep.fail("policy", f"{f.name}:log:row", f"a path of {f.qual} does not record a failed query", f.loc())
            if policy == "ignore" and any(rows):
                rep.fail("policy", f"{f.name}:ignore:row", f"a path of {f.qual} records a failed query although the policy is ignore", f.loc())


def _looped(f: FuncInfo) -> bool:
    return any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node))


TRAINING = {"requires_data_training": "train_on_database", "requires_workload_training": "train_on_workload", "requires_sample_training": "train_on_samples",
            "requires_online_training": "learn_from_feedback"}


def training(ctx, f, bench, pipe):
    """Training happens exactly if the pipeline asks for it."""
    rep = ctx.rep
    for need, call in TRAINING.items():
        for want in (True, False):
            facts = {("t", ("on", need + "()")): want}
            if want and call == "train_on_samples":
                facts |= {("t", ("training_data",)): True, ("n", ("training_data",)): False}
            run = bench(pipe, facts)
            if not run.ok:
                continue
            evs = _executed(run, call)
            rep.ok("training", f"{call}:{want}")
            if bool(evs) != want:
                rep.fail("training", f"{call}:{want}", f"{f.qual} {'does not call' if want else 'calls'} {call} if {need}() is {want}", f.loc())
            for e, _ in evs:
                for p in ("database", "queries", "samples", "query", "exec_time"):
                    v = arg(e, p)
                    if v is None:
                        continue
                    src = {x[0] for x in v.src}
                    ok = {"database": "on" in src, "queries": "queries" in src, "samples": "training_data" in src, "query": "queries" in src,
                          "exec_time": bool({"execution_time", "exec_time"} & (steps_of(v) | {c.lstrip(".") for c in v.calls}))}[p]
                    rep.ok("training", f"{call}:{p}")
                    if not ok:
                        rep.fail("training", f"{call}:{p}", f"{f.qual} passes another {p} to {call}", f.loc())


def preparation(ctx):
    """Query preparations apply the requested transformations."""
    rep, prog = ctx.rep, ctx.prog
    cls = prog.cls("QueryPreparation")
    f = cls.find("prepare_query")
    init = cls.find("__init__")
    proj = {"none": None, "star": "as_star_query", "*": "as_star_query", "count_star": "as_count_star_query", "count(*)": "as_count_star_query"}
    outp = {"default": None, "explain": "as_explain", "analyze": "as_explain_analyze", "explain_analyze": "as_explain_analyze"}
    every = {x for x in (*proj.values(), *outp.values()) if x}

    def attr(p):
        """The attribute that stores an option."""
        run = Run(ctx, init, cls, args={x: const(None) for x in ("explain", "analyze", "count_star")}, facts={("e", ("output",), "explain"): False, ("t", ("prewarm",)): True})
        names = set()
        for o in run.returns:
            for (root, n), v in o.s.attrs.items():
                if root == ("self",) and any(x[0] == p for x in o.it.mat(v, o.s).src):
                    names.add(n)
        return names

    names = {p: attr(p) for p in ("projection", "output", "prewarm", "preparatory_statements")}
    for p, n in names.items():
        rep.ok("preparation", f"store:{p}")
        if len(n) != 1:
            rep.fail("preparation", f"store:{p}", f"{init.qual} stores the option {p} in {sorted(n) or 'no attribute'}", init.loc())
            return
    col = {p: next(iter(n)) for p, n in names.items()}

    def at(p):
        return ("self", norm(col[p]))

    for a, b in itertools.product(proj, outp):
        if b != "default" and a not in ("none", "star", "count_star"):
            continue
        pre = {("t", at("prewarm")): False, ("t", at("preparatory_statements")): False}
        run = Run(ctx, f, cls, attrs={(("self",), col["projection"]): const(a), (("self",), col["output"]): const(b)}, facts=pre, args={"on": const(None)}, inline=lambda it, g, r: g.cls is cls)
        want = {x for x in (proj[a], outp[b]) if x}
        if not run.ok or not run.returns:
            if run.ok:
                rep.ok("preparation", f"{a}/{b}")
                rep.fail("preparation", f"{a}/{b}", f"{f.qual} rejects the projection {a} with the output {b}", f.loc())
            continue
        rep.ok("preparation", f"{a}/{b}")
        for o in run.returns:
            got = set(o.v.calls) & every if o.v is not None else set()
            if got != want:
                rep.fail("preparation", f"{a}/{b}", f"{f.qual} applies {sorted(got) or 'no transformation'} instead of {sorted(want) or 'none'} for the projection {a} and the output {b}", f.loc())
            if o.v is None or not any(p[0] == "query" for p in o.v.src):
                rep.fail("preparation", "result", f"{f.qual} does not return the query", f.loc())
    for p, call in (("prewarm", "prewarm_tables"), ("preparatory_statements", "execute_query")):
        for want in (True, False):
            db = prog.cls("Database")
            run = Run(ctx, f, cls, facts={("t", at(p)): want, ("n", ("on",)): False, ("t", ("on",)): True}, args={"on": db}, inline=lambda it, g, r: g.cls is cls)
            evs = [e for o in run.returns for e in o.events if ename(e) == call]
            rep.ok("preparation", f"{p}:{want}")
            if want and not evs or not want and evs and p == "prewarm":
                rep.fail("preparation", f"{p}:{want}", f"{f.qual} {'never performs' if want else 'performs'} {call} if {p} is {want}", f.loc())
            for e in evs:
                v = e.m.get(0)
                if p == "prewarm" and not (v is not None and any(x[0] == "query" for x in v.src)):
                    rep.fail("preparation", f"{p}:tables", f"{f.qual} does not prewarm the tables of the query", f.loc())
                if p == "preparatory_statements" and not (v is not None and any(x[:2] == at(p) for x in v.src)):
                    rep.fail("preparation", f"{p}:statement", f"{f.qual} executes other statements than the preparatory ones", f.loc())
                if e.recv is not None and not any(x[0] == "on" for x in e.recv.src):
                    rep.fail("preparation", f"{p}:system", f"{f.qual} prepares another system", f.loc())
    deprecated(ctx, cls, init, col)


def deprecated(ctx, cls, init, col):
    rep = ctx.rep
    have = {a.arg for a in init.all_params()}
    others = {x: const(None) for x in ("explain", "analyze", "count_star") if x in have}
    for p, stored, on in (("explain", "output", "explain"), ("analyze", "output", "analyze"), ("count_star", "projection", "count_star")):
        if p not in have:
            continue
        for want in (True, False):
            run = Run(ctx, init, cls, args={**others, p: const(want)})
            rep.ok("preparation", f"{p}={want}")
            for o in run.returns:
                v = o.attr(("self",), col[stored])
                good = v is not None and (is_const(v, on) if want else v.path == (stored,) or any(x[0] == stored for x in v.src))
                if not good:
                    rep.fail("preparation", f"{p}={want}", f"{init.qual} does not store the {stored} that is requested by {p}={want}", init.loc())
    for out, keep in (("explain", False), ("default", True), ("analyze", True)):
        run = Run(ctx, init, cls, args={**others, "output": const(out)}, facts={("t", ("prewarm",)): True})
        rep.ok("preparation", f"prewarm:{out}")
        for o in run.returns:
            v = o.attr(("self",), col["prewarm"])
            t = o.it.truth(v, o.s) if v is not None else None
            if v is None or t is not keep and not (keep and v.path == ("prewarm",)):
                rep.fail("preparation", f"prewarm:{out}", f"{init.qual} {'drops' if keep else 'keeps'} the prewarm option for the output {out}", init.loc())


def stages(ctx):
    """Each kind of stage can be benchmarked: it becomes part of a pipeline."""
    rep, prog = ctx.rep, ctx.prog
    base = prog.cls("OptimizationStage")
    # incremental steps need an initial plan and cannot be used on their own
    kinds = [c for c in prog.subclasses(base) if c.name != "IncrementalOptimizationStep" and c.module.name == "postbound._stages" and base in [b for b in c.bases if isinstance(b, ClassInfo)]]
    for f in prog.functions:
        if f.module.name != "postbound.bench" or f.cls is not None:
            continue
        ps = [a.arg for a in f.all_params() if a.annotation is not None and base.qual in (prog.param_ty(f, a.annotation).names or ()) and f.name != "execute_workload"]
        if len(ps) != 1:
            continue
        for c in kinds:
            members = frozenset(x.qual for x in prog.concrete_subclasses(c)) or frozenset({c.qual})
            run = Run(ctx, f, None, args={ps[0]: c}, facts={("T", (ps[0],)): members}, inline=lambda it, g, r: False)
            rep.ok("stages", f"{f.name}:{c.name}")
            rets = [o for o in run.returns]
            if not rets:
                rep.fail("stages", f"{f.name}:{c.name}", f"{f.qual} does not support stages of the kind {c.name}", f.loc())
            for o in rets:
                used = [e for e in o.events if e.recv is not None and e.cls is None and any(x.path == (ps[0],) for x in e.m.values())]
                if not used:
                    rep.fail("stages", f"{f.name}:{c.name}:use", f"{f.qual} creates a pipeline without the stage {c.name}", f.loc())
                if not any(e.name == "build" for e in o.events):
                    rep.fail("stages", f"{f.name}:{c.name}:build", f"{f.qual} does not build the pipeline for {c.name}", f.loc())


def collected(ctx):
    """Results are only combined if there are any."""
    rep, prog = ctx.rep, ctx.prog
    for f in prog.functions:
        if f.module.name != "postbound.bench" or f.cls is None:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "concat" for n in ast.walk(f.node)):
            continue
        run = Run(ctx, f, f.cls)
        for e, facts, _ in run.it.log:
            v = e.m.get(0) if e.m else None
            if e.name.split(".")[-1] != "concat" or v is None or v.shape is not None and v.shape[0] == "seq":
                continue
            heads = {p[:2] for p in v.src if len(p) >= 2 and p[0] == "self"}
            rep.ok("collected", f.name)
            if heads and not any(facts.get(("t", h)) is True for h in heads) and not any(k[0] == "t" and t is True and k[1][:2] in heads for k, t in facts.items()):
                rep.fail("collected", f.qual.split("bench.")[-1], f"{f.qual} fails if there are no results", f.loc())
