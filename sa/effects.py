"""Effect and alias analysis: which operations modify (parts of) their inputs, which return their inputs, which are pure.

A forward may-alias analysis over the syntax tree of each function. A location is an access path that starts at a parameter
(or a module level variable); "*" is an element of a container, "x()" the memoized result of a method. Values for which no
location is known count as fresh. Summaries of all functions are computed until nothing changes.
"""
from __future__ import annotations

import ast
from dataclasses import dataclass, field
from typing import Optional

from .interp import Interp
from .model import ANY, ClassInfo, FuncInfo, Program, Ty, ty_union

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem", "appendleft", "popleft",
       "difference_update", "intersection_update", "symmetric_difference_update", "add_edge", "add_node", "add_nodes_from", "add_edges_from", "remove_node",
       "remove_edge", "remove_nodes_from", "remove_edges_from"}
ADDS = {"append", "add", "appendleft", "insert", "setdefault"}
CONT = {"list", "set", "dict", "deque", "MutableSequence"}
FROZEN = {"int", "str", "float", "bool", "tuple", "frozenset", "None", "Path"}
READS = {"get", "keys", "values", "items", "copy", "index", "count", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint",
         "symmetric_difference", "split", "join", "strip", "lstrip", "rstrip", "startswith", "endswith", "lower", "upper", "replace", "format", "removeprefix",
         "removesuffix", "title", "find", "rfind", "zfill", "isdigit", "splitlines", "casefold", "capitalize", "ljust", "rjust", "center", "encode", "decode",
         "most_common", "is_integer", "isnumeric", "isalpha", "partition", "rpartition"}
PURE_BUILTINS = {"len", "str", "int", "float", "bool", "list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "enumerate", "zip", "map", "filter", "any", "all",
                 "sum", "min", "max", "isinstance", "issubclass", "hash", "repr", "type", "abs", "round", "range", "id", "getattr", "hasattr", "callable", "super",
                 "ord", "chr", "format", "slice", "divmod", "pow", "bytes", "object", "vars", "dir", "iter"}
PURE_EXT = ("collections.", "math.", "itertools.", "operator.", "functools.", "re.", "json.dumps", "copy.", "numpy.", "typing.", "textwrap.", "dataclasses.")
SHALLOW = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "deque", "collections.deque", "filter", "enlist"}
MAXLEN = 5
MAXSET = 10


@dataclass(frozen=True)
class A:
    al: frozenset = frozenset()  # may be (part of) these locations
    el: frozenset = frozenset()  # a fresh container whose elements may be these locations
    sh: frozenset = frozenset()  # a fresh object whose attributes may be those of these locations
    ty: Ty = ANY


NONE = A()


def up(*vs: A) -> A:
    if not vs:
        return NONE
    ty = vs[0].ty
    for v in vs[1:]:
        ty = ty if v.ty == ty else (ty_union(ty, v.ty) if ty.names is not None and v.ty.names is not None else ANY)
    return A(cut(frozenset().union(*(v.al for v in vs))), cut(frozenset().union(*(v.el for v in vs))), cut(frozenset().union(*(v.sh for v in vs))), ty)


def ext(locs, step) -> frozenset:
    return frozenset(p + (step,) if len(p) < MAXLEN else p for p in locs)


def cut(locs) -> frozenset:
    """Widening: only the shortest of many locations are tracked."""
    if len(locs) <= MAXSET:
        return frozenset(locs)
    return frozenset(sorted(locs, key=lambda p: (len(p), p))[:MAXSET])


def is_hook(g: FuncInfo) -> bool:
    """A default implementation that does nothing (others may do something)."""
    body = [x for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
    if g.cls is None:
        return False
    return all(isinstance(x, ast.Raise) or isinstance(x, ast.Return) and (x.value is None or isinstance(x.value, (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Name)) or
                                              isinstance(x.value, ast.Call) and not x.value.args and not x.value.keywords) for x in body)


@dataclass
class Mut:
    loc: tuple
    how: str
    node: ast.AST
    ty: Ty
    cls: Optional[frozenset] = None  # classes of the object whose attribute is assigned
    via: Optional[FuncInfo] = None


@dataclass
class Summary:
    muts: dict = field(default_factory=dict)  # (loc, how) -> Mut
    ret: A = NONE
    pure: bool = True
    why: str = ""
    returns_value: bool = False
    raises: bool = False
    complete: bool = False

    def sig(self):
        return (frozenset(self.muts), self.ret, self.pure, self.raises)


# Objects that never change after construction.
IMMUTABLE = ("SqlExpression", "BaseClause", "TableSource", "SqlQuery", "SetQuery", "QueryPlan", "JoinTree", "TableReference", "ColumnReference", "Cardinality",
             "PlanParams", "PlanEstimates", "PlanMeasures", "Subplan", "SortKey", "WithQuery", "BaseProjection", "OrderByExpression", "QueryPredicates",
             "ScanOperatorAssignment", "JoinOperatorAssignment", "HintedQuery")


class Effects:
    def __init__(self, prog: Program) -> None:
        imm = {c for n in IMMUTABLE for c in prog.by_name.get(n, ())}
        self.immutable = {c for c in prog.classes if any(k in imm for k in c.mro())}
        self.prog = prog
        self.it = Interp(prog)
        self.sum: dict[FuncInfo, Summary] = {}
        self.funcs = [f for f in prog.functions if not isinstance(f.node, ast.Lambda)]
        self.by_method: dict[str, list[FuncInfo]] = {}
        for f in self.funcs:
            if f.cls is not None and f.outer is None:
                self.by_method.setdefault(f.name, []).append(f)
        self.call_targets: dict[ast.Call, list[FuncInfo]] = {}
        self.used: dict[FuncInfo, set] = {}
        todo = list(self.funcs)
        for _ in range(7):
            changed = set()
            for f in todo:
                self.used[f] = set()
                self.current = f
                s = Walk(self, f).run()
                if f not in self.sum or self.sum[f].sig() != s.sig():
                    changed.add(f)
                self.sum[f] = s
            todo = [f for f in self.funcs if self.used[f] & changed]
            if not todo:
                break

    def summary(self, f: FuncInfo) -> Summary:
        self.used[self.current].add(f)
        s = self.sum.get(f)
        if s is None:
            s = Summary()
        return s


class Walk:
    def __init__(self, eff: Effects, f: FuncInfo) -> None:
        self.e, self.f, self.prog = eff, f, eff.prog
        self.s = Summary()
        self.local_funcs: dict[str, FuncInfo] = {}

    # -- driver ------------------------------------------------------------------------------
    def run(self) -> Summary:
        f = self.f
        env: dict[str, A] = {}
        g = f.outer
        while g is not None:  # variables of enclosing functions
            for a in g.all_params():
                env.setdefault(a.arg, A(frozenset({("^" + a.arg,)}), ty=self.e.it._vararg_ty(g, a)))
            g = g.outer
        for i, a in enumerate(f.all_params()):
            ty = self.e.it._vararg_ty(f, a)
            if i == 0 and f.cls is not None and f.outer is None and f.kind in ("method", "property", "cached_property", "setter"):
                ty = Ty(frozenset({f.cls.qual}))
                self.self_name = a.arg
            va = f.node.args.vararg, f.node.args.kwarg
            if a in va:
                env[a.arg] = A(el=frozenset({(a.arg, "*")}), ty=ty)
            else:
                env[a.arg] = A(frozenset({(a.arg,)}), ty=ty)
        if f.is_generator():
            self.s.pure, self.s.why = self.s.pure, self.s.why
            self.s.returns_value = True
        self.block(f.node.body, env)
        if f.abstract or f.overload:
            self.s.pure, self.s.why = False, "abstract"
        if any("cache" in d.split(".")[-1] for d in self.deco()) and self.s.ret.al == frozenset() and f.cls is not None and f.kind in ("method", "property", "cached_property"):
            self.s.ret = A(frozenset({(f.arg_names()[0], f.name + "()")}), ty=self.s.ret.ty)
        self.s.complete = True
        return self.s

    def deco(self):
        from .model import deco_name
        return [deco_name(d) for d in self.f.node.decorator_list]

    def impure(self, why):
        if self.s.pure:
            self.s.pure, self.s.why = False, why

    def mut(self, v: A, how: str, node, cls=None, via=None, ty=None):
        ty = ty or v.ty
        for p in v.al:
            self.s.muts.setdefault((p, how), Mut(p, how, node, ty, cls, via))
            self.impure(f"modifies {'.'.join(p)}")

    # -- statements ----------------------------------------------------------------------------
    def block(self, stmts, env) -> dict:
        for st in stmts:
            env = self.stmt(st, env)
        return env

    def join(self, a: dict, b: dict) -> dict:
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                out[k] = a[k] if a[k] == b[k] else up(a[k], b[k])
            else:
                out[k] = a.get(k) or b.get(k)
        return out

    @staticmethod
    def leaves(stmts) -> bool:
        return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def stmt(self, n, env) -> dict:
        if isinstance(n, ast.Expr):
            self.ev(n.value, env)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value, env)
            for t in n.targets:
                self.assign(t, v, env, n.value)
        elif isinstance(n, ast.AnnAssign):
            v = self.ev(n.value, env) if n.value is not None else NONE
            t = self.prog.ty(self.f.module, n.annotation)
            if isinstance(n.target, ast.Name):
                if t.names is not None:
                    v = A(v.al, v.el, v.sh, t)
                env[n.target.id] = v
            elif n.value is not None:
                self.assign(n.target, v, env, n.value)
        elif isinstance(n, ast.AugAssign):
            self.aug(n, env)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                v = self.ev(n.value, env)
                if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    self.s.returns_value = True
                    self.s.ret = up(self.s.ret, v) if self.s.ret != NONE else v
        elif isinstance(n, ast.If):
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            a, b = self.block(n.body, e1), self.block(n.orelse, e2)
            if self.leaves(n.body):
                return b
            if self.leaves(n.orelse):
                return a
            return self.join(a, b)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.ev(n.iter, env)
            pre = dict(env)
            for _ in range(2):
                e = dict(pre)
                self.assign(n.target, self.elem(it, env), e, None)
                e = self.block(n.body, e)
                pre = self.join(pre, e)
            return self.block(n.orelse, pre)
        elif isinstance(n, ast.While):
            pre = dict(env)
            for _ in range(2):
                self.ev(n.test, pre)
                e = self.block(n.body, dict(pre))
                pre = self.join(pre, e)
            return self.block(n.orelse, pre)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                v = self.ev(it.context_expr, env)
                self.impure("with")
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, it.context_expr)
            return self.block(n.body, env)
        elif isinstance(n, ast.Try):
            a = self.block(n.body, dict(env))
            a = self.block(n.orelse, a)
            for h in n.handlers:
                e = self.join(env, a)
                if h.name:
                    e[h.name] = NONE
                b = self.block(h.body, dict(e))
                if not self.leaves(h.body):
                    a = self.join(a, b)
            return self.block(n.finalbody, a)
        elif isinstance(n, ast.Match):
            v = self.ev(n.subject, env)
            outs = [env]
            for c in n.cases:
                e = dict(env)
                self.pattern(c.pattern, v, e, n.subject)
                if c.guard is not None:
                    self.ev(c.guard, e)
                r = self.block(c.body, e)
                if not self.leaves(c.body):
                    outs.append(r)
            r = outs[0]
            for o in outs[1:]:
                r = self.join(r, o)
            return r
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.mut(self.ev(t.value, env), "del []", n)
                elif isinstance(t, ast.Attribute):
                    o = self.ev(t.value, env)
                    self.mut(o, f"del .{t.attr}", n, cls=o.ty.names)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in self.e.funcs:
                if x.node is n:
                    self.local_funcs[n.name] = x
            env[n.name] = NONE
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.ev_quiet(n.exc, env)
            self.s.raises = True
        elif isinstance(n, ast.Assert):
            self.ev(n.test, env)
            self.s.raises = True
        elif isinstance(n, ast.Global):
            self.impure("global")
        return env

    def narrow(self, t, env, truth):
        """isinstance tests refine the type of a variable."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, env, not truth)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and truth:
            for v in t.values:
                self.narrow(v, env, True)
            return
        if truth and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            r = self.prog.resolve_dotted(self.f.module.name, t.args[1]) if isinstance(t.args[1], (ast.Name, ast.Attribute)) else None
            name = t.args[0].id
            v = env.get(name)
            if v is None:
                return
            if isinstance(r, ClassInfo):
                env[name] = A(v.al, v.el, v.sh, Ty(frozenset({r.qual})))
            elif isinstance(t.args[1], ast.Name) and t.args[1].id in CONT | FROZEN:
                env[name] = A(v.al, v.el, v.sh, Ty(frozenset({t.args[1].id}), v.ty.elem, v.ty.val))

    def pattern(self, p, v: A, env, subject):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self.pattern(p.pattern, v, env, subject)
            if p.name:
                env[p.name] = v
        elif isinstance(p, ast.MatchOr):
            for q in p.patterns:
                self.pattern(q, v, env, subject)
        elif isinstance(p, ast.MatchClass):
            r = self.prog.resolve_dotted(self.f.module.name, p.cls)
            if isinstance(r, ClassInfo):
                w = A(v.al, v.el, v.sh, Ty(frozenset({r.qual})))
                if isinstance(subject, ast.Name):
                    env[subject.id] = w
                from .interp import match_args
                names = match_args(r) or []
                for i, q in enumerate(p.patterns):
                    self.pattern(q, self.attr(w, names[i], env) if i < len(names) else NONE, env, None)
                for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                    self.pattern(q, self.attr(w, k, env), env, None)
            else:
                for q in p.patterns + p.kwd_patterns:
                    self.pattern(q, NONE, env, None)
        elif isinstance(p, ast.MatchSequence):
            for i, q in enumerate(p.patterns):
                self.pattern(q, self.item(v, i), env, None)
        elif isinstance(p, ast.MatchStar):
            if p.name:
                env[p.name] = NONE
        elif isinstance(p, ast.MatchMapping):
            for q in p.patterns:
                self.pattern(q, self.elem(v, env), env, None)
            if p.rest:
                env[p.rest] = NONE

    def item(self, v: A, i: int) -> A:
        ty = v.ty.items[i] if v.ty.items and i < len(v.ty.items) else (v.ty.elem or ANY)
        return A(ext(v.al, "*") | v.el, ty=ty)

    def elem(self, v: A, env) -> A:
        ty = v.ty.elem or ANY
        if v.ty.names is not None and "dict" in v.ty.names:
            return A(ty=v.ty.elem or ANY)
        return A(ext(v.al, "*") | v.el, ty=ty)

    def assign(self, t, v: A, env, value):
        if isinstance(t, ast.Name):
            if v.ty.names is None and t.id in env and False:
                pass
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts):
                    self.assign(x, self.ev(y, dict(env)), env, y)
                return
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, self.item(v, i), env, None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.mut(o, f".{t.attr}=", t, cls=o.ty.names)
            if not o.al:
                self.store_impure(t, env)
            st = None
            for c in self.classes(o.ty):
                st = st or c.find_setter(t.attr)
            if st is not None:
                self.apply([st], o, [v], {}, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mut(o, "[]=", t)
            self.put(t.value, v, env)
            if not o.al:
                self.store_impure(t, env)

    def store_impure(self, t, env):
        b = t
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        if not (isinstance(b, ast.Name) and b.id in env):
            self.impure("store")

    def put(self, target, v: A, env):
        """`v` is stored in the container `target`."""
        if isinstance(target, ast.Name) and target.id in env and not env[target.id].al:
            o = env[target.id]
            env[target.id] = A(o.al, o.el | v.al, o.sh, o.ty)

    def aug(self, n, env):
        v = self.ev(n.value, env)
        if isinstance(n.target, ast.Name):
            o = env.get(n.target.id, NONE)
            if self.inplace(o.ty, v.ty, n.op):
                self.mut(o, f"{type(n.op).__name__}=", n)
                env[n.target.id] = A(o.al, o.el | v.el | ext(v.al, "*"), o.sh, o.ty)
            else:
                env[n.target.id] = A(ty=o.ty)
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value, env)
            self.mut(o, f".{n.target.attr}=", n, cls=o.ty.names)
            if not o.al:
                self.store_impure(n.target, env)
            a = self.attr(o, n.target.attr, env)
            if self.inplace(a.ty, v.ty, n.op):
                self.mut(a, f"{type(n.op).__name__}=", n)
        elif isinstance(n.target, ast.Subscript):
            o = self.ev(n.target.value, env)
            self.mut(o, "[]=", n)
            if not o.al:
                self.store_impure(n.target, env)

    @staticmethod
    def inplace(ty: Ty, vty: Ty, op) -> bool:
        names = (ty.names or frozenset()) - {"None"}
        if not names or not names <= CONT:
            return False
        return isinstance(op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor))

    # -- expressions ------------------------------------------------------------------------------
    def classes(self, ty: Ty) -> list[ClassInfo]:
        return [c for c in (self.prog.class_of_qual(n) for n in ty.names or ()) if c is not None]

    def attr(self, o: A, name: str, env) -> A:
        cs = self.classes(o.ty)
        out = None
        for c in cs:
            m = c.find(name)
            if m is not None and m.kind in ("property", "cached_property"):
                r = self.apply(self.overrides(m, c), o, [], {}, None)
                r = A(r.al, r.el, r.sh, self.e.it.ret_ty(m) if r.ty.names is None else r.ty)
            elif m is not None:
                r = NONE
            else:
                ty = self.e.it.field_ty(c, name)
                r = A(ext(o.al, name) | ext(o.sh, name), ty=ty)
            out = r if out is None else up(out, r)
        if out is None:
            out = A(ext(o.al, name) | ext(o.sh, name))
        return out

    def overrides(self, m: FuncInfo, c: ClassInfo) -> list[FuncInfo]:
        out = [m]
        for k in self.prog.subclasses(c):
            x = k.methods.get(m.name)
            if x is not None and x not in out:
                out.append(x)
        return [x for x in out if not x.abstract] or out

    def ev(self, n, env) -> A:
        if n is None:
            return NONE
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            r = self.prog.lookup(self.f.module.name, n.id)
            if isinstance(r, tuple) and r[0] == "const":
                v = r[1].consts[r[2]]
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(v, ast.Call):
                    return A(frozenset({("<" + r[1].name + ">", n.id)}))
            return NONE
        if isinstance(n, ast.Attribute):
            r = self.prog.resolve_dotted(self.f.module.name, n) if self.root_global(n, env) else None
            if r is not None:
                if isinstance(r, tuple) and r[0] == "const":
                    return A(frozenset({("<" + r[1].name + ">", n.attr)}))
                return NONE
            return self.attr(self.ev(n.value, env), n.attr, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Slice):
                return A(el=ext(o.al, "*") | o.el, ty=o.ty)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                return A(ext(o.al, "*"), ty=o.ty.val or ANY)  # a record: its other entries are something else
            if o.ty.names is not None and "dict" in o.ty.names:
                return A(ext(o.al, "*") | o.el, ty=o.ty.val or ANY)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and n.slice.value >= 0:
                return self.item(o, n.slice.value)
            return A(ext(o.al, "*") | o.el, ty=o.ty.elem or ANY)
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, True)
            self.narrow(n.test, e2, False)
            return up(self.ev(n.body, e1), self.ev(n.orelse, e2))
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(v, env) for v in n.values]
            return up(*vs)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            env[n.target.id] = v
            return v
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            el = frozenset()
            tys = []
            for x in n.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
                el |= (ext(v.al, "*") | v.el) if isinstance(x, ast.Starred) else v.al
                tys.append((v.ty.elem or ANY) if isinstance(x, ast.Starred) else v.ty)
            kind = {ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[type(n)]
            et = up(*(A(ty=t) for t in tys)).ty if tys else None
            return A(el=el, ty=Ty(frozenset({kind}), elem=et, items=tuple(tys) if kind == "tuple" and not any(isinstance(x, ast.Starred) for x in n.elts) else None))
        if isinstance(n, ast.Dict):
            el = frozenset()
            for k, v in zip(n.keys, n.values):
                if k is not None:
                    self.ev(k, env)
                w = self.ev(v, env)
                el |= w.al if k is not None else (ext(w.al, "*") | w.el)
            return A(el=el, ty=Ty(frozenset({"dict"})))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.assign(g.target, self.elem(it, e), e, None)
                for c in g.ifs:
                    self.ev(c, e)
                    self.narrow(c, e, True)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e)
                v = self.ev(n.value, e)
                return A(el=v.al, ty=Ty(frozenset({"dict"}), val=v.ty))
            v = self.ev(n.elt, e)
            kind = {ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "Iterable"}[type(n)]
            return A(el=v.al, ty=Ty(frozenset({kind}), elem=v.ty))
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            return A(el=ext(a.al, "*") | a.el | ext(b.al, "*") | b.el if isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)) else frozenset(),
                     ty=a.ty if a.ty.names is not None else b.ty)
        if isinstance(n, ast.Constant):
            from .interp import _const_ty
            return A(ty=_const_ty(n.value))
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.ev(n.value, env)
            self.s.returns_value = True
            self.s.ret = A(self.s.ret.al, self.s.ret.el | (v.al if isinstance(n, ast.Yield) else ext(v.al, "*") | v.el), ty=Ty(frozenset({"Iterable"})))
            return NONE
        if isinstance(n, ast.Lambda):
            return NONE
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NONE

    def ev_quiet(self, n, env):
        """An expression whose effects do not matter (the exception of a raise statement)."""
        pure, why = self.s.pure, self.s.why
        self.ev(n, env)
        self.s.pure, self.s.why = pure, why

    def root_global(self, n, env) -> bool:
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, ast.Name) and n.id not in env

    # -- calls ---------------------------------------------------------------------------------------
    def call(self, n: ast.Call, env) -> A:
        args = []
        for a in n.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, env)
            args.append(("*", v) if isinstance(a, ast.Starred) else v)
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        fn = n.func
        if isinstance(fn, ast.Name):
            if fn.id in self.local_funcs:
                return self.apply([self.local_funcs[fn.id]], None, args, kw, n)
            if fn.id in env:
                self.impure(f"calls {fn.id}")
                return NONE
            r = self.prog.lookup(self.f.module.name, fn.id)
            if isinstance(r, FuncInfo):
                return self.apply([r], None, args, kw, n)
            if isinstance(r, ClassInfo):
                return self.construct(r, args, kw, n)
            name = r[1] if isinstance(r, tuple) and r[0] == "ext" else fn.id
            return self.external(name, args, kw, n, known=r is None and fn.id in PURE_BUILTINS or name.startswith(PURE_EXT))
        if isinstance(fn, ast.Attribute):
            if self.root_global(fn, env):
                r = self.prog.resolve_dotted(self.f.module.name, fn)
                if isinstance(r, FuncInfo):
                    base = self.prog.resolve_dotted(self.f.module.name, fn.value)
                    if isinstance(base, ClassInfo) and r.kind == "method":
                        return self.apply([r], args[0] if args and not isinstance(args[0], tuple) else NONE, args[1:], kw, n)
                    return self.apply([r], NONE if r.kind == "classmethod" else None, args, kw, n)
                if isinstance(r, ClassInfo):
                    return self.construct(r, args, kw, n)
                if isinstance(r, tuple) and r[0] == "ext":
                    return self.external(r[1], args, kw, n, known=r[1].startswith(PURE_EXT))
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
                me = env.get(self.f.arg_names()[0], NONE) if self.f.arg_names() else NONE
                m = self.f.cls.find(fn.attr, after=self.f.cls)
                if m is not None:
                    return self.apply([m], me, args, kw, n)
                return NONE
            o = self.ev(fn.value, env)
            cs = self.classes(o.ty)
            ms = []
            for c in cs:
                m = c.find(fn.attr)
                if m is not None:
                    ms += [x for x in self.overrides(m, c) if x not in ms]
            if ms:
                return self.apply(ms, o, args, kw, n)
            names = (o.ty.names or frozenset()) - {"None"}
            if fn.attr in MUT and not cs and (names <= CONT or not (names - CONT) or (not names and (fn.attr not in self.e.by_method))):
                if names or fn.attr not in self.e.by_method:
                    if o.al:
                        self.mut(o, f".{fn.attr}()", n)
                    elif not self.local_root(fn.value, env):
                        self.impure("modifies something")
                    plain = [a for a in args if not isinstance(a, tuple)]
                    if fn.attr in ADDS and plain:
                        self.put(fn.value, plain[-1], env)
                    elif fn.attr in ("extend", "update") and plain:
                        self.put(fn.value, A(ext(plain[0].al, "*") | plain[0].el), env)
                    if fn.attr in ("pop", "setdefault", "popleft"):
                        return A(ext(o.al, "*") | o.el, ty=(o.ty.val if "dict" in names else o.ty.elem) or ANY)
                    return NONE
            if fn.attr == "get" and (not names or "dict" in names) and fn.attr not in self.e.by_method:
                d = args[1] if len(args) > 1 and not isinstance(args[1], tuple) else NONE
                return A(ext(o.al, "*") | o.el | d.al, ty=o.ty.val or ANY)
            if fn.attr == "get" and "dict" in names:
                d = args[1] if len(args) > 1 and not isinstance(args[1], tuple) else NONE
                return A(ext(o.al, "*") | o.el | d.al, ty=o.ty.val or ANY)
            if fn.attr == "copy" and not cs:
                return A(el=ext(o.al, "*") | o.el, ty=o.ty)
            if fn.attr == "values" and (not names or "dict" in names) and not args:
                return A(el=ext(o.al, "*") | o.el, ty=Ty(frozenset({"Iterable"}), elem=o.ty.val))
            if fn.attr == "items" and (not names or "dict" in names) and not args:
                # (key, value) pairs: the elements of the pairs are the values of the dictionary
                t = (o.ty.elem or ANY, o.ty.val or ANY)
                return A(el=frozenset(p for p in ext(o.al, "*")), ty=Ty(frozenset({"Iterable"}), elem=Ty(frozenset({"tuple"}), items=t)))
            if fn.attr in ("union", "intersection", "difference", "symmetric_difference") and names & {"set"}:
                return A(ty=o.ty)
            if fn.attr in READS and fn.attr not in self.e.by_method:
                return NONE
            cands = self.e.by_method.get(fn.attr, [])
            if cands and all(self.e.summary(m).pure and self.e.summary(m).complete for m in cands) and fn.attr not in MUT | READS:
                tys = {self.e.it.ret_ty(m) for m in cands}
                return A(ty=tys.pop() if len(tys) == 1 else ANY)
            self.impure(f"calls .{fn.attr}()")
            if len({self.e.it.ret_ty(m) for m in cands}) == 1:
                return A(ty=self.e.it.ret_ty(cands[0]))
            return NONE
        self.ev(fn, env)
        self.impure("calls a value")
        return NONE

    def local_root(self, n, env) -> bool:
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            n = n.value
        return isinstance(n, ast.Name) and n.id in env and isinstance(n, ast.Name)

    def external(self, name, args, kw, n, known) -> A:
        vals = [a[1] if isinstance(a, tuple) else a for a in args]
        base = name.split(".")[-1]
        if not known:
            self.impure(f"calls {name}")
        if name == "setattr" and vals:
            self.mut(vals[0], ".setattr=", n, cls=vals[0].ty.names)
            return NONE
        if name in SHALLOW and vals:
            v = vals[-1] if name == "filter" else vals[0]
            if name == "iter":
                return A(el=ext(v.al, "*") | v.el, ty=v.ty)
            kind = {"sorted": "list", "reversed": "Iterable", "filter": "Iterable"}.get(base, base)
            return A(el=ext(v.al, "*") | v.el, ty=Ty(frozenset({kind}), elem=v.ty.elem))
        if name in ("dict", "collections.OrderedDict") and vals:
            return A(el=ext(vals[0].al, "*") | vals[0].el, ty=Ty(frozenset({"dict"}), vals[0].ty.elem, vals[0].ty.val))
        if name in ("list", "set", "dict", "collections.defaultdict", "collections.deque"):
            return A(ty=Ty(frozenset({base if base in CONT else "dict"})))
        if name == "copy.copy" and vals:
            return A(el=ext(vals[0].al, "*"), sh=vals[0].al, ty=vals[0].ty)
        if name == "copy.deepcopy" and vals:
            return A(ty=vals[0].ty)
        if name == "dataclasses.replace" and vals:
            return A(sh=vals[0].al, ty=vals[0].ty)
        if name == "next" and vals:
            self.impure("next")
            return self.elem(vals[0], {})
        if name in ("min", "max") and len(vals) == 1:
            return self.elem(vals[0], {})
        if name in ("enumerate",) and vals:
            e = self.elem(vals[0], {})
            return A(el=e.al, ty=Ty(frozenset({"Iterable"}), elem=Ty(frozenset({"tuple"}), items=(Ty(frozenset({"int"})), e.ty))))
        if name == "zip":
            return A(el=frozenset().union(*(self.elem(v, {}).al for v in vals)) if vals else frozenset(),
                     ty=Ty(frozenset({"Iterable"}), elem=Ty(frozenset({"tuple"}), items=tuple(self.elem(v, {}).ty for v in vals))))
        if name in ("typing.cast", "cast") and len(vals) == 2:
            return vals[1]
        if name == "getattr" and vals and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            return A(ext(vals[0].al, n.args[1].value))
        return NONE

    def construct(self, c: ClassInfo, args, kw, n) -> A:
        init = c.find("__init__")
        t = Ty(frozenset({c.qual}))
        if init is not None:
            self.apply([init], A(ty=t), args, kw, n)
        pi = c.find("__post_init__")
        if pi is not None:
            self.apply([pi], A(ty=t), [], {}, n)
        return A(ty=t)

    def apply(self, fs: list[FuncInfo], recv: Optional[A], args, kw, node) -> A:
        if isinstance(node, ast.Call):
            self.e.call_targets[node] = fs
        out = None
        for f in fs:
            s = self.e.summary(f)
            if not s.complete:
                if f not in self.e.sum:
                    self.s.pure = self.s.pure  # optimistic until the summary is known
            elif not s.pure:
                self.impure(f"calls {f.name}: {s.why}") if (recv is None or recv.al or not self.only_self(s, f)) else None
            if s.raises:
                self.s.raises = True
            if f.abstract or is_hook(f) and f.kind == "method" and not f.name.startswith("__"):
                self.impure(f"calls {f.name}")
            b = self.bind(f, recv, args, kw)
            for (loc, how), m in s.muts.items():
                root = b.get(loc[0])
                if loc[0].startswith("<"):
                    self.s.muts.setdefault((loc, how), Mut(loc, how, node or m.node, m.ty, m.cls, f))
                    continue
                if root is None:
                    continue
                if f.cls is not None and f.outer is None and f.kind != "static" and f.arg_names() and loc[0] == f.arg_names()[0] and f.cls not in self.e.immutable:
                    if node is not None and not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and
                                                 self.f.arg_names() and node.func.value.id == self.f.arg_names()[0]) and root.al:
                        self.impure(f"calls {f.name}")
                        continue  # objects with a changing state: their own business
                for p in self.subst(root, loc[1:]):
                    if len(p) <= MAXLEN + 2:
                        self.s.muts.setdefault((p[:MAXLEN], how), Mut(p[:MAXLEN], how, node if node is not None else m.node, m.ty, m.cls, m.via or f))
            r = self.back(s.ret, b)
            if r.ty.names is None or f.abstract:
                rt = self.e.it.ret_ty(f)
                if rt.names is not None and not f.is_generator():
                    r = A(r.al, r.el, r.sh, rt)
            out = r if out is None else up(out, r)
        return out or NONE

    @staticmethod
    def only_self(s: Summary, f: FuncInfo) -> bool:
        """The function is impure only because it modifies its own (fresh) receiver."""
        return bool(s.muts) and s.why.startswith("modifies " + (f.arg_names() or ["?"])[0]) and all(m[0][0] == (f.arg_names() or ["?"])[0] for m in s.muts)

    def subst(self, v: A, rest) -> list[tuple]:
        out = [p + tuple(rest) for p in v.al]
        if rest:
            if rest[0] == "*":
                out += [p + tuple(rest[1:]) for p in v.el]
            else:
                out += [p + tuple(rest) for p in v.sh]
        return out

    def back(self, v: A, b) -> A:
        def tr(locs):
            out = set()
            for p in locs:
                if p[0].startswith("<"):
                    out.add(p)
                    continue
                r = b.get(p[0])
                if r is not None:
                    out |= set(x[:MAXLEN] for x in self.subst(r, p[1:]))
            return cut(out)
        el = set(tr(v.el))
        for p in v.al:  # a fresh container that was passed and is returned
            r = b.get(p[0])
            if r is not None and len(p) == 1:
                el |= r.el
        sh = frozenset(x for p in v.al if len(p) == 1 and b.get(p[0]) is not None for x in b[p[0]].sh) | tr(v.sh)
        ty = v.ty
        if ty.names is None and len(v.al) == 1:
            (p,) = v.al
            if len(p) == 1 and p[0] in b:
                ty = b[p[0]].ty
        return A(tr(v.al), cut(el), cut(sh), ty)

    def bind(self, f: FuncInfo, recv, args, kw) -> dict:
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out: dict[str, A] = {}
        if f.outer is not None:
            g = f.outer
            # variables of the enclosing function keep their meaning
            for x in g.all_params():
                out["^" + x.arg] = A(frozenset({(x.arg,)})) if g is self.f else A(frozenset({("^" + x.arg,)}))
        if f.cls is not None and f.outer is None and f.kind != "static" and pos:
            out[pos[0]] = recv if recv is not None else NONE
            pos = pos[1:]
        i = 0
        for v in args:
            if isinstance(v, tuple):
                break
            if i < len(pos):
                out[pos[i]] = v
            elif a.vararg is not None:
                o = out.get(a.vararg.arg, NONE)
                out[a.vararg.arg] = A(el=o.el | v.al)
            i += 1
        for k, v in kw.items():
            if k is not None and (k in pos or k in {x.arg for x in a.kwonlyargs}):
                out[k] = v
        return out
