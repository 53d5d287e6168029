"""L05: training data keeps the assignment of its features to columns."""
from __future__ import annotations

from .common import *

TM = "postbound.train._train"


def assignments(f: FuncInfo, name: str) -> list[ast.expr]:
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            out.append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            out.append(n.value)
    return out


def resolve(f: FuncInfo, e: ast.expr, depth=0) -> tuple[FuncInfo, ast.expr]:
    """Follows names with a single definition and helper methods that only return an expression."""
    if depth > 4:
        return f, e
    if isinstance(e, ast.Name):
        a = assignments(f, e.id)
        if len(a) == 1:
            return resolve(f, a[0], depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and f.cls is not None:
        g = f.cls.find(e.func.attr)
        rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None] if g is not None else []
        if len(rets) == 1:
            return resolve(g, rets[0], depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1 and not e.keywords:
        return resolve(f, e.args[0], depth + 1)
    return f, e


def mentions_map(e: ast.expr) -> bool:
    return any(isinstance(n, ast.Attribute) and norm(n.attr) == "feature_map" for n in ast.walk(e))


def direction(f: FuncInfo, e: ast.expr) -> Optional[tuple[str, str]]:
    """The kinds of the keys and values of a mapping between features and columns."""
    f, e = resolve(f, e)
    if isinstance(e, ast.Attribute) and norm(e.attr) == "feature_map":
        return "feature", "column"
    if not isinstance(e, (ast.DictComp,)):
        return None
    env: dict[str, str] = {}
    for g in e.generators:
        _, it = resolve(f, g.iter)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and mentions_map(it.func.value):
            if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts):
                env[g.target.elts[0].id], env[g.target.elts[1].id] = "feature", "column"
        elif isinstance(g.target, ast.Name):
            values = any(isinstance(n, ast.Attribute) and n.attr == "values" for n in ast.walk(it))
            frame = any(isinstance(n, ast.Attribute) and n.attr == "columns" for n in ast.walk(it))
            env[g.target.id] = "column" if values else "both" if frame else "feature"

    def kind(x: ast.expr) -> Optional[str]:
        if isinstance(x, ast.Name):
            return env.get(x.id)
        if isinstance(x, ast.Subscript) and mentions_map(x.value) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and mentions_map(x.func.value):
            return "column"
        return None
    k, v = kind(e.key), kind(e.value)
    return (k, v) if k and v else None


def check_L05(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    data, repo, spec = (prog.cls(n, TM) for n in ("TrainingData", "TrainingDataRepository", "TrainingSpec"))
    calls = lambda v: v.calls if v is not None else frozenset()
    public = {"conform_to", "merge_with", "merge", "as_df", "satisfies", "retrieve_all", "retrieve_first", "retrieve_merged"}

    def run(c: ClassInfo, g: FuncInfo, facts=None):
        it = ctx.interp(inline=lambda it, h, r: False if h.name in public else None)
        args = {} if g.kind == "staticmethod" else {"self": it.self_value(c)} if g.kind != "classmethod" else {}
        outs = [(k, it.mat(v, s) if v is not None else v, s) for k, v, s in it.run(g, args, facts or {})]
        return it, outs

    # -- names of the columns ------------------------------------------------------------------------------------------
    for g in data.methods.values():
        it, outs = run(data, g)
        for e, _, _ in it.log:
            if e.name == "rename" and isinstance(e.node, ast.Call):
                cols = next((k.value for k in e.node.keywords if k.arg == "columns"), None)
                d = direction(e.func or g, cols) if cols is not None else None
                key = f"{g.name}:rename"
                if d is None:
                    rep.skip("columns", key)
                    continue
                rep.ok("columns", key)
                want = ("feature", "column") if e.recv is not None and calls(e.recv) & {"as_df", "rename"} else ("column", "feature")
                if d != want and d[0] != d[1]:
                    rep.fail("columns", key, f"{g.qual} renames {d[0]}s to {d[1]}s, but the frame has {want[0]}s", g.loc())
            if e.name == data.name and isinstance(e.node, ast.Call):
                fm = next((k.value for k in e.node.keywords if k.arg == "feature_map"), None)
                d = direction(e.func or g, fm) if fm is not None else None
                key = f"{g.name}:feature_map"
                frame = e.args[0] if e.args else e.kwargs.get("samples")
                if d is None or frame is None:
                    rep.skip("columns", key)
                    continue
                rep.ok("columns", key)
                renamed = bool(calls(frame) & {"as_df", "rename"})
                if d[0] not in ("feature", "both"):
                    rep.fail("columns", key, f"{g.qual} maps columns to features instead of features to columns", g.loc())
                elif "both" not in d and renamed != (d[1] == "feature") and "rename" not in calls(frame):
                    rep.fail("columns", key, f"{g.qual}: the feature map does not use the names of the columns of the samples", g.loc())
        # combined samples have the same columns
        for e, _, _ in it.log:
            if e.name.split(".")[-1] == "concat" and isinstance(e.node, ast.Call) and e.node.args:
                _, lst = resolve(g, e.node.args[0])
                if not isinstance(lst, (ast.List, ast.Tuple)):
                    continue
                kinds, own = [], set()
                for x in lst.elts:
                    _, y = resolve(g, x) if not (isinstance(x, ast.Call)) else (g, x)
                    names = {n.func.attr for n in ast.walk(y) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
                    roots = {n.id for n in ast.walk(y) if isinstance(n, ast.Name)}
                    if isinstance(x, ast.Name) and not assignments(g, x.id):
                        kinds = []
                        break
                    kinds.append("columns of self" if "rename" in names or not names & {"as_df"} and "self" in roots
                                 else "features" if "as_df" in names else "columns")
                    own |= roots
                key = f"{g.name}:concat"
                rep.ok("columns", key)
                if len(set(kinds)) > 1:
                    rep.fail("columns", key, f"{g.qual} combines samples whose columns are named differently ({', '.join(kinds)})", g.loc())
                if kinds and g.name == "merge_with" and not ({"self", "other"} <= own):
                    rep.fail("columns", f"{key}:parts", f"{g.qual} does not combine the samples of both data sets", g.loc())
    rep.require("columns", 3)

    # -- selecting features --------------------------------------------------------------------------------------------
    g = data.find("conform_to")
    it, outs = run(data, g)
    rep.ok("selection", g.qual)
    for e, _, _ in it.log:
        if e.name == data.name and isinstance(e.node, ast.Call):
            fm = next((k.value for k in e.node.keywords if k.arg == "feature_map"), None)
            h, x = resolve(e.func or g, fm) if fm is not None else (g, None)
            if isinstance(x, ast.DictComp):
                _, first = resolve(h, x.generators[0].iter)
                if mentions_map(first):
                    rep.fail("selection", "conform_to:order", f"{g.qual} does not order the features as required by the spec", g.loc())
    for k, v, s in outs:
        if k == "return":
            for part in ("samples", "source"):
                if not any(p[:2] == ("self", part) for p in v.src):
                    rep.fail("selection", f"conform_to:{part}", f"{g.qual} loses the {part}", g.loc())
    g = data.find("as_df")
    it, outs = run(data, g, {("n", ("requested_spec",)): False, ("t", ("requested_spec",)): True})
    rep.ok("selection", g.qual)
    for k, v, s in outs:
        if k == "return" and not any(p[:2] == ("requested_spec", "features") or p == ("requested_spec",) or p[:2] == ("requested_spec", "*") for p in v.src):
            rep.fail("selection", "as_df", f"{g.qual} does not select the requested features", g.loc())

    # -- unsuitable data is rejected -----------------------------------------------------------------------------------
    def polarity(g: FuncInfo, t: ast.expr) -> Optional[bool]:
        """True if the test holds for suitable data, False if it holds for unsuitable data."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            p = polarity(g, t.operand)
            return None if p is None else not p
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and t.args:
            return polarity(g, t.args[0])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute):
            if t.func.attr == "satisfies":
                return True
            if t.func.attr == "contains_violations":
                p = polarity(g, t.func.value)
                return None if p is None else not p
        if isinstance(t, ast.Attribute) and t.attr == "missing_features":
            p = polarity(g, t.value)
            return None if p is None else not p
        if isinstance(t, ast.Name):
            a = assignments(g, t.id)
            if len(a) == 1:
                return polarity(g, a[0])
        if isinstance(t, ast.NamedExpr):
            return polarity(g, t.value)
        return None

    for c, names in ((data, ("conform_to", "as_df", "merge_with")), (repo, ("retrieve_all", "retrieve_first"))):
        for name in names:
            g = c.find(name)
            if g is None:
                continue
            key = f"{c.name}.{name}"
            tested = False
            for n in ast.walk(g.node):
                if isinstance(n, ast.If) and (p := polarity(g, n.test)) is not None:
                    ends = lambda body: bool(body) and isinstance(body[-1], (ast.Raise, ast.Continue))
                    tested = True
                    if ends(n.body) and p or n.orelse and ends(n.orelse) and not p:
                        rep.fail("suitability", key, f"{g.qual} rejects the data that satisfy the requirements", g.loc())
                for t in getattr(n, "ifs", []) if isinstance(n, ast.comprehension) else []:
                    if (p := polarity(g, t)) is not None:
                        tested = True
                        if not p:
                            rep.fail("suitability", key, f"{g.qual} selects the data that do not satisfy the requirements", g.loc())
            it, _ = run(c, g)
            asked = [e for e, _, _ in it.log if e.name == "satisfies" and e.recv is not None]
            if not tested and not asked:
                if any(e.name in ("retrieve_all", "conform_to") for e, _, _ in it.log):
                    continue
                rep.fail("suitability", key, f"{g.qual} does not check the requirements", g.loc())
                continue
            rep.ok("suitability", key)
            for e in asked:
                want = ("other",) if name == "merge_with" else ("self",)
                arg = e.m.get(0) or e.m.get("other") or e.m.get("spec") if e.m else None
                if e.recv.src and not any(p[:1] == want for p in e.recv.src):
                    rep.fail("suitability", f"{key}:direction", f"{g.qual} checks the requirements in the wrong direction", g.loc())
    vio = prog.cls("SpecViolations", TM)
    for name, want in (("__bool__", {True: False, False: True}), ("contains_violations", {True: True, False: False})):
        g = vio.find(name)
        if g is None:
            continue
        for missing, w in want.items():
            path = ("self", "missing_features")
            it, outs = run(vio, g, {("t", path): missing, ("t", path + ("bool()",)): missing, ("t", path + ("len()",)): missing})
            vals = {it.truth(v, s) for k, v, s in outs if k == "return" and v is not None}
            if len(vals) == 1 and len(outs) == 1 and None not in vals:
                rep.ok("suitability", f"{vio.name}.{name}:{missing}")
                if vals != {w}:
                    rep.fail("suitability", f"{vio.name}.{name}", f"{g.qual} is {next(iter(vals))} if features are {'missing' if missing else 'complete'}", g.loc())
            else:
                rep.skip("suitability", f"{vio.name}.{name}:{missing}")
    g = spec.find("satisfies")
    p = g.all_params()[1].arg
    for n in ast.walk(g.node):
        left = n.left if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) else n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "difference" else None
        if left is not None:
            _, left = resolve(g, left)
            rep.ok("suitability", g.qual)
            if not any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(left)):
                rep.fail("suitability", "TrainingSpec.satisfies", f"{g.qual} reports features as missing that are not required", g.loc())

    g = spec.find("provides")
    p = g.all_params()[1].arg
    for n in ast.walk(g.node):
        sub = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("issubset", "issuperset") and n.args:
            sub = n.func.value if n.func.attr == "issubset" else n.args[0]
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.LtE, ast.GtE)):
            sub = n.left if isinstance(n.ops[0], ast.LtE) else n.comparators[0]
        if sub is not None:
            rep.ok("suitability", g.qual)
            if any(isinstance(x, ast.Name) and x.id == "self" for x in ast.walk(sub)) and not any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(sub)):
                rep.fail("suitability", "TrainingSpec.provides", f"{g.qual} asks whether all own features are given instead of whether all given ones are provided", g.loc())

    # -- merging -------------------------------------------------------------------------------------------------------
    g = data.find("merge")
    it, outs = run(data, g)
    rep.ok("merging", g.qual)
    conforming = any(e.name == "conform_to" for e, _, _ in it.log)
    for e, _, _ in it.log:
        if e.name == "merge_with" and e.m is not None:
            if conforming and not all("conform_to" in calls(x) for x in (e.m.get(0) or e.m.get("other"),) if x is not None) and "conform_to" not in calls(e.recv):
                rep.fail("merging", "merge:features", f"{g.qual} merges data sets before they are restricted to the required features", g.loc())
    for k, v, s in outs:
        if k == "return":
            if "conform_to" not in calls(v) and not conforming:
                rep.fail("merging", "merge:spec", f"{g.qual} does not restrict the result to the required features", g.loc())
            if not any(p[:1] == ("datasets",) for p in v.src):
                rep.fail("merging", "merge:datasets", f"{g.qual} ignores the data sets", g.loc())
    if not any(e.name in ("merge_with", "concat", "pd.concat") for e, _, _ in it.log) and not any(
            isinstance(n, ast.Attribute) and n.attr in ("merge_with", "concat") for n in ast.walk(g.node)):
        rep.fail("merging", "merge:parts", f"{g.qual} does not combine the data sets", g.loc())
    for name in ("retrieve_first", "retrieve_merged"):
        g = repo.find(name)
        it, outs = run(repo, g)
        rep.ok("merging", g.qual)
        for k, v, s in outs:
            if k == "return" and v is not None and not (v.shape is not None and v.shape[0] == "const") and not calls(v) & {"conform_to", "merge"}:
                rep.fail("merging", f"{name}:spec", f"{g.qual} returns data sets with other features than requested", g.loc())
        for e, _, _ in it.log:
            if e.name == "merge" and e.m is not None:
                if any(isinstance(n, ast.Slice) for a in [*e.node.args, *[k.value for k in e.node.keywords]] for n in ast.walk(a)):
                    rep.fail("merging", f"{name}:all", f"{g.qual} does not merge all matching data sets", g.loc())
    g = repo.find("register")
    it, outs = run(repo, g)
    rep.ok("merging", g.qual)
    p = g.all_params()[1].arg
    if not any(e.name in ("append", "add", "insert", "extend") and any((p,) in a.src for a in e.all_args()) for e, _, _ in it.log) and not any(
            o == ("self",) and any(q[:1] == (p,) for q in it.mat(x, s).src) for k, v, s in outs for (o, n), x in s.attrs.items()):
        rep.fail("merging", "register", f"{g.qual} does not store the data set", g.loc())

    # -- requirements consist of all features given --------------------------------------------------------------------
    fields = ctx.final_fields(spec)
    names = [a.arg for a in spec.find("__init__").all_params()[1:]] + ([spec.find("__init__").node.args.vararg.arg] if spec.find("__init__").node.args.vararg else [])
    for f in fields:
        rep.ok("specs", f)
        for n in dict.fromkeys(names):
            if not any(q[:1] == (n,) for q in fields[f].src):
                rep.fail("specs", f"{f}:{n}", f"{spec.name}: {f} does not contain the features given as {n}", spec.find("__init__").loc())
