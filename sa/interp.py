"""Abstract interpreter computing *provenance*: which parts of the inputs a value is built from.

The domain is a may/must dataflow domain over access paths.  A value carries
  src    access paths whose content may have flowed into the value,
  must   (prefix closed) access paths of which at least a part flows in on *every* path analysed so far, or which are
         known to be empty/None on the paths where they do not,
  whole  the access paths that flow in as a whole on every path,
plus the constructor calls / literals it was built by, if they are still known.  States are merged at control flow joins
(bounded trace partitioning keeps the branches of small functions apart).  Calls are inlined when the callee is a private
helper, a property or a nested function, and are otherwise treated as combining all of their arguments.  Every
approximation errs on the side of *more* flow, hence a missing flow is a fact about the analysed source and not an artifact.
No code of the analysed program is executed and no path condition is handed to a solver.
"""
from __future__ import annotations

import ast
import itertools
from typing import Callable, Optional

from .model import ANY, AnalysisError, ClassInfo, FuncInfo, Module, Program, Ty, ty_union

E = frozenset()


class Budget(Exception):
    pass


class V:
    __slots__ = ("src", "must", "whole", "path", "ty", "shape", "elem", "calls", "strs")

    def __init__(self, src=E, must=E, whole=E, path=None, ty=ANY, shape=None, elem=None, calls=E, strs=E):
        self.src, self.must, self.whole, self.path = src, must, whole, path
        self.ty, self.shape, self.elem, self.calls, self.strs = ty, shape, elem, calls, strs

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in V.__slots__}
        d.update(kw)
        return V(**d)

    def __repr__(self):
        sh = self.shape[0] if self.shape else None
        if sh == "ctor":
            sh = f"ctor {self.shape[1].name}({', '.join(f'{k}={v!r}' for k, v in self.shape[2].items())})"
        if sh == "const":
            sh = f"const {self.shape[1]!r}"
        return f"<V path={'.'.join(self.path) if self.path else None} src={sorted('.'.join(p) for p in self.src)} shape={sh} calls={sorted(self.calls)}>"


def closure(p):
    lo = 1
    for i, x in enumerate(p):
        if x[:1] == "!":  # an operation that loses the value itself
            lo = i + 1
    return frozenset(p[:i] for i in range(lo, len(p) + 1))


def pathv(path, ty=ANY):
    path = tuple(path)
    return V(src=frozenset({path}), must=closure(path), whole=frozenset({path}), path=path, ty=ty)


def const(c):
    strs = frozenset({c}) if isinstance(c, str) else E
    return V(shape=("const", c), strs=strs, ty=_const_ty(c))


def _const_ty(c):
    if c is None:
        return Ty(frozenset({"None"}))
    return Ty(frozenset({type(c).__name__}))


def is_const(v: V, *vals) -> bool:
    return v.shape is not None and v.shape[0] == "const" and (not vals or any(v.shape[1] is x or (type(v.shape[1]) is type(x) and v.shape[1] == x) for x in vals))


def comb(vs, calls=E, **kw) -> V:
    vs = [v for v in vs if v is not None]
    if len(vs) == 1 and not calls and not kw:
        v = vs[0]
        return V(v.src, v.must, v.whole, None, ANY, None, None, v.calls, v.strs)
    return V(frozenset().union(*[v.src for v in vs]), frozenset().union(*[v.must for v in vs]),
             frozenset().union(*[v.whole for v in vs]), calls=frozenset(calls).union(*[v.calls for v in vs]),
             strs=frozenset().union(*[v.strs for v in vs]), **kw)


def covered(v: V, f: tuple) -> bool:
    """Does (a part of) the access path f necessarily flow into v?"""
    return covers(v.must, v.whole, f)


def covers(must, whole, f: tuple) -> bool:
    if f in must or any(f[:i] in whole for i in range(1, len(f) + 1)):
        return True
    if f[-1] == "*" or "*" in f:
        # an element-wise access may be split into the first elements and the rest
        i = f.index("*")
        pre, post = f[:i], f[i + 1:]
        for k in range(1, 4):
            if all(covers(must, whole, pre + (x,) + post) for x in [str(j) for j in range(k)] + [f"{k}:"]):
                return True
    return False


def may_cover(v: V, f: tuple) -> bool:
    return any(p[: len(f)] == f or f[: len(p)] == p for p in v.src)


_OVER: dict = {}


def _later(v: V) -> V:
    """The element of a later iteration."""
    def q(p):
        return p[:-1] + (p[-1] + "'",) if p and p[-1] in ("*", "*k") else p
    shape = ("seq", [_later(x) for x in v.shape[1]]) if v.shape is not None and v.shape[0] == "seq" else v.shape
    return V(frozenset(map(q, v.src)), frozenset(map(q, v.must)), frozenset(map(q, v.whole)), q(v.path) if v.path is not None else None, v.ty, shape,
             _later(v.elem) if v.elem is not None else None, v.calls, v.strs)


def overwritten(loop: ast.For) -> set[str]:
    """Names that get a new value in the iterations of a loop, which is independent of the value of the previous iteration."""
    if id(loop) in _OVER:
        return _OVER[id(loop)][1]
    deps: dict[str, set] = {}
    bad: set[str] = set()

    def names(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    for n in [y for st in loop.body for y in ast.walk(st)]:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []):
                    if isinstance(x, ast.Name):
                        deps.setdefault(x.id, set()).update(names(n.value))
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            deps.setdefault(n.target.id, set()).update(names(n.value))
        elif isinstance(n, ast.NamedExpr):
            deps.setdefault(n.target.id, set()).update(names(n.value))
        elif isinstance(n, ast.AugAssign):
            bad |= names(n.target)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda)) and n is not loop:
            bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.attr in ("append", "add", "extend", "update", "insert", "setdefault", "appendleft", "write"):
                bad.add(n.func.value.id)
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            bad.add(n.value.id)
    changed = True
    while changed:
        changed = False
        for x, d in deps.items():
            new = set().union(*[deps.get(y, set()) for y in d]) - d
            if new:
                d |= new
                changed = True
    res = {x for x, d in deps.items() if x not in d} - bad
    _OVER[id(loop)] = (loop, res)
    return res


class St:
    __slots__ = ("env", "facts", "heap", "attrs", "tested", "events", "exc")

    def __init__(self, env=None, facts=None, heap=None, attrs=None, tested=E, events=(), exc=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.heap = heap if heap is not None else {}
        self.attrs = attrs if attrs is not None else {}
        self.tested = tested
        self.events = events
        self.exc = exc

    def copy(self):
        return St(dict(self.env), dict(self.facts), dict(self.heap), dict(self.attrs), self.tested, self.events, self.exc)

    def nullish(self, p) -> bool:
        for i in range(1, len(p) + 1):
            q = p[:i]
            if self.facts.get(("t", q)) is False or self.facts.get(("n", q)) is True:
                return True
        return False

    def test(self, v: V):
        add = set()
        for p in v.src:
            add |= closure(p)
            add.add(p)
        self.tested = self.tested | add


class Event:
    __slots__ = ("name", "fi", "recv", "args", "kwargs", "node", "func", "star", "dstar", "cls", "m")

    def __init__(self, name, fi, recv, args, kwargs, node, func, star=None, dstar=None, cls=None):
        self.name, self.fi, self.recv, self.args, self.kwargs, self.node, self.func = name, fi, recv, args, kwargs, node, func
        self.star, self.dstar, self.cls, self.m = star, dstar, cls, None

    def all_args(self) -> list:
        return list(self.args) + list(self.kwargs.values()) + [x for x in (self.star, self.dstar) if x is not None]

    def __repr__(self):
        return f"Event({self.name} @{getattr(self.node, 'lineno', '?')})"

    def bound(self) -> dict[str, V]:
        """Argument values by parameter name (as far as they are given explicitly)."""
        if self.fi is None:
            return {**{str(i): a for i, a in enumerate(self.args)}, **self.kwargs}
        names = self.fi.arg_names()
        if self.fi.kind in ("method", "classmethod", "property") and names:
            names = names[1:]
        out = dict(zip(names, self.args))
        out.update(self.kwargs)
        return out


BUILTIN_WRAP = {"list", "set", "frozenset", "tuple", "sorted", "reversed", "iter", "dict", "deque"}
MUTABLE_WRAP = {"list", "set", "dict", "deque"}
BUILTINS = {"len", "list", "set", "frozenset", "tuple", "sorted", "reversed", "iter", "dict", "str", "repr", "hash", "type",
            "isinstance", "any", "all", "enumerate", "zip", "map", "filter", "min", "max", "sum", "next", "int", "float",
            "bool", "getattr", "hasattr", "setattr", "print", "range", "abs", "round", "super", "id", "format", "open",
            "vars", "callable", "issubclass", "iter", "divmod", "object", "ValueError", "TypeError", "KeyError", "RuntimeError",
            "NotImplementedError", "StopIteration", "Exception", "AssertionError", "IndexError", "AttributeError", "TimeoutError",
            "locals", "FileNotFoundError", "chr", "ord", "pow", "slice", "bytes", "complex", "property", "Warning", "UserWarning"}
MUTATORS = {"append", "add", "update", "extend", "insert", "setdefault", "appendleft", "extendleft", "discard", "remove",
            "pop", "popleft", "popitem", "clear", "sort", "reverse", "intersection_update", "difference_update",
            "symmetric_difference_update", "add_edge", "add_node", "add_edges_from", "add_nodes_from", "remove_node", "remove_edge", "push",
            "add_all", "combine"}
ADDERS = {"append", "add", "update", "extend", "insert", "setdefault", "appendleft", "extendleft", "add_edge", "add_node",
          "add_edges_from", "add_nodes_from", "push"}


def norm(a: str) -> str:
    s = a.lstrip("_")
    return s or a


def _default_of(f: Optional[FuncInfo], param: str):
    if f is None:
        return None
    a = f.node.args
    pos = list(a.posonlyargs) + list(a.args)
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == param:
            return d
    return None


class Interp:
    def __init__(self, prog: Program, *, inline: Optional[Callable] = None, opaque=(), force=(), cap: int = 24,
                 max_depth: int = 8, max_steps: int = 60000, arg_cap: int = 8, call_cap: int = 6):
        self.prog = prog
        self.opaque = set(opaque)
        self.force = set(force)
        self.inline_hook = inline
        self.arg_hook: Optional[Callable] = None
        self.result_hook: Optional[Callable] = None
        self.made: Optional[Callable] = None
        self.exact_lists = False  # the elements of lists under construction are known individually
        self.exact_types = False  # the type facts name the classes of the objects themselves
        self.capped = False
        self.member_keys = False  # a text is contained in an object, iff the object has such a key
        self.cap, self.max_depth, self.max_steps, self.arg_cap, self.call_cap = cap, max_depth, max_steps, arg_cap, call_cap
        self.steps = 0
        self.alloc = itertools.count()
        self.stack: list[FuncInfo] = []
        self.log: list[tuple[Event, dict, frozenset]] = []
        self._conc_cache: dict = {}
        self.cmp_log: dict = {}
        self.quantify = False  # any() and all() are decided by the representative element
        self.iterations = None  # the paths through one iteration of each loop
        self.second_pass = False  # log the calls of a later iteration of each loop, too
        self.lossy: Optional[Callable] = None
        # (it, name, receiver, args, kwargs, state) -> results of a call that is not analysed, or None
        self.results: Optional[Callable] = None
        self.member: Optional[Callable] = None  # (it, element, container, state) -> whether an element is contained, None if unknown
        self.recursion = 0  # how often a function may be entered again while it is analysed
        self.visited: set = set()

    def truth(self, v: Optional[V], st: St) -> Optional[bool]:
        """Whether a value is certainly true or false."""
        if v is None:
            return None
        if is_const(v):
            return bool(v.shape[1])
        if v.path is not None:
            t = st.facts.get(("t", v.path))
            if t is not None:
                return t
            if st.facts.get(("n", v.path)) is True:
                return False
        if self.quantify and (v.path is None or v.path[0].startswith("@")):
            m = self.mat(v, st)
            if m.shape is not None and m.shape[0] == "seq":
                return bool(m.shape[1])
        if v.shape is not None and v.shape[0] in ("not", "isinst", "cmp"):
            yes, no = bool(self.assume(v, True, st.copy())), bool(self.assume(v, False, st.copy()))
            if yes != no:
                return yes
        return None

    def _has_elem(self, v: V, st: St) -> bool:
        m = self.mat(v, st)
        return bool(v.path is not None and not v.path[0].startswith("@")) or m.elem is not None or m.shape is not None or bool(m.src)

    # ------------------------------------------------------------------ entry points
    def run(self, fi: FuncInfo, args: dict[str, V], facts: Optional[dict] = None, attrs: Optional[dict] = None):
        """Analyse fi with the given parameter values; returns [(kind, V, St)] for kind in return/raise."""
        self.steps = 0
        st = St(facts=dict(facts or {}), attrs=dict(attrs or {}))
        env = {}
        node = fi.node
        for a in fi.all_params():
            if a.arg in args:
                env[a.arg] = args[a.arg]
            else:
                env[a.arg] = pathv((a.arg,), self._vararg_ty(fi, a))
        env["@closure"] = None
        return self._exec_func(fi, env, st)

    def _vararg_ty(self, fi: FuncInfo, a: ast.arg) -> Ty:
        n = fi.node.args
        t = self.prog.ty(fi.module, a.annotation)
        if n.vararg is a:
            return Ty(frozenset({"tuple"}), elem=t)
        if n.kwarg is a:
            return Ty(frozenset({"dict"}), val=t)
        return t

    def self_value(self, cls: ClassInfo, root: str = "self") -> V:
        return pathv((root,), Ty(frozenset({cls.qual})))

    # ------------------------------------------------------------------ function bodies
    def _exec_func(self, fi: FuncInfo, env: dict, st: St):
        self.visited.add(fi.qual)
        saved = st.env
        st = St(env, st.facts, st.heap, st.attrs, st.tested, st.events)
        self.stack.append(fi)
        try:
            node = fi.node
            if isinstance(node, ast.Lambda):
                return [("return", v, s) for v, s in self.ev(node.body, st)]
            gen = fi.is_generator()
            if gen:
                a = self.new_alloc(st, V(), Ty(frozenset({"Iterable"})))
                st.env["@yield"] = a
            outs = []
            for k, v, s in self.ex(node.body, st):
                if k == "next":
                    k, v = "return", const(None)
                if k in ("break", "continue"):
                    continue
                if gen and k == "return":
                    v = s.env["@yield"]
                outs.append((k, v, s))
            return outs
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ joins
    def join_vals(self, pairs):
        """Join alternative values [(V, St)] into one."""
        v0, s0 = pairs[0]
        for v1, s1 in pairs[1:]:
            v0 = self._join2(v0, s0, v1, s1)
            s0 = s1 if s0 is s1 else _Both(s0, s1)
        return v0

    def _join2(self, a: V, sa, b: V, sb) -> V:
        if a is b:
            return a
        if a.path is not None and a.path == b.path and a.shape is None and b.shape is None:
            return a if a.ty == b.ty else a.with_(ty=ty_union(a.ty, b.ty))

        def cov(v, s, f):
            return covered(v, f) or s.nullish(f)

        cand = a.must | b.must
        must = frozenset(f for f in cand if cov(a, sa, f) and cov(b, sb, f))
        wc = a.whole | b.whole
        whole = frozenset(p for p in wc
                          if (any(p[:i] in a.whole for i in range(1, len(p) + 1)) or sa.nullish(p))
                          and (any(p[:i] in b.whole for i in range(1, len(p) + 1)) or sb.nullish(p)))
        shape = None
        if a.shape is not None and b.shape is not None:
            if a.shape[0] == b.shape[0] == "ctor" and a.shape[1] is b.shape[1]:
                keys = dict.fromkeys(list(a.shape[2]) + list(b.shape[2]))
                d = {}
                for k in keys:
                    if k in a.shape[2] and k in b.shape[2]:
                        d[k] = self._join2(a.shape[2][k], sa, b.shape[2][k], sb)
                    elif k in a.shape[2]:
                        d[k] = self._join2(a.shape[2][k], sa, V(), sb)
                    else:
                        d[k] = self._join2(V(), sa, b.shape[2][k], sb)
                shape = ("ctor", a.shape[1], d)
            elif a.shape[0] == b.shape[0] == "seq" and len(a.shape[1]) == len(b.shape[1]):
                shape = ("seq", [self._join2(x, sa, y, sb) for x, y in zip(a.shape[1], b.shape[1])])
            elif a.shape[0] == b.shape[0] == "dict":
                d = {}
                for k in dict.fromkeys(list(a.shape[1]) + list(b.shape[1])):
                    d[k] = self._join2(a.shape[1].get(k, V()), sa, b.shape[1].get(k, V()), sb)
                shape = ("dict", d)
            elif a.shape[0] in ("fmt", "const", "join") and b.shape[0] in ("fmt", "const", "join") and "fmt" in (a.shape[0], b.shape[0]):
                pa, pb = _fmt_parts(a), _fmt_parts(b)
                ne = _fmt_nonempty(pa) and _fmt_nonempty(pb)
                if len(pa) == len(pb):
                    shape = ("fmt", [self._join2(x, sa, y, sb) for x, y in zip(pa, pb)], ne)
                else:
                    shape = ("fmt", [V(a.src | b.src, must, whole, None, ANY, None, None, a.calls | b.calls, a.strs | b.strs)], ne)
            elif a.shape == b.shape:
                shape = a.shape
        elem = None
        if a.elem is not None and b.elem is not None:
            elem = self._join2(a.elem, sa, b.elem, sb)
        elif a.elem is not None or b.elem is not None:
            elem = a.elem or b.elem
        path = a.path if a.path == b.path else None
        if path is None and shape is not None and shape[0] in ("seq", "dict"):
            pass
        return V(a.src | b.src, must, whole, path, ty_union(a.ty, b.ty) if a.ty != b.ty else a.ty, shape, elem, a.calls | b.calls, a.strs | b.strs)

    def join_states(self, states: list[St]) -> St:
        if len(states) == 1:
            return states[0]
        out = states[0]
        for s in states[1:]:
            out = self._join_st(out, s)
        return out

    def _join_st(self, a: St, b: St) -> St:
        if a is b:
            return a
        env = {}
        # values that denote different containers on the two sides are materialised first
        for k in dict.fromkeys(list(a.env) + list(b.env)):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None or vb is None:
                env[k] = va if vb is None else vb
                if va is not None or vb is not None:
                    continue
                continue
            if va is vb:
                env[k] = va
            elif not isinstance(va, V):
                env[k] = va
            else:
                if va.path == vb.path:
                    env[k] = self._join2(va, a, vb, b)
                else:
                    env[k] = self._join2(self.mat(va, a), a, self.mat(vb, b), b)
        heap = {}
        for k in dict.fromkeys(list(a.heap) + list(b.heap)):
            if k in a.heap and k in b.heap:
                heap[k] = a.heap[k] if a.heap[k] is b.heap[k] else self._join2(a.heap[k], a, b.heap[k], b)
            else:
                heap[k] = a.heap.get(k) or b.heap.get(k)
        attrs = {}
        for k in dict.fromkeys(list(a.attrs) + list(b.attrs)):
            if k in a.attrs and k in b.attrs:
                va, vb = a.attrs[k], b.attrs[k]
                attrs[k] = va if va is vb else self._join2(va if va.path == vb.path else self.mat(va, a), a, vb if va.path == vb.path else self.mat(vb, b), b)
            else:
                have, hs, miss = (a.attrs[k], a, b) if k in a.attrs else (b.attrs[k], b, a)
                p, name = k
                old = pathv(p + (name,)) if not p[0].startswith("@") else V()
                attrs[k] = self._join2(self.mat(have, hs), hs, old, miss)
        facts = {}
        for k, v in a.facts.items():
            if k in b.facts:
                if k[0] == "T":
                    if v is not None and b.facts[k] is not None:
                        facts[k] = v | b.facts[k]
                elif b.facts[k] == v:
                    facts[k] = v
        bs = set(map(id, b.events))
        events = tuple(e for e in a.events if id(e) in bs) if a.events is not b.events else a.events
        # branch-empty paths: tested on both sides
        return St(env, facts, heap, attrs, a.tested & b.tested, events)

    def cap_states(self, states: list[St], cap=None) -> list[St]:
        cap = cap or self.cap
        if len(states) <= cap:
            return states
        self.capped = True
        return [self.join_states(states)]

    # ------------------------------------------------------------------ containers
    def new_alloc(self, st: St, content: V, ty=ANY) -> V:
        p = (f"@{next(self.alloc)}",)
        st.heap[p] = content
        return V(path=p, ty=ty)

    def mat(self, v: V, st: St, _seen=()) -> V:
        """Resolve container identities into their content."""
        if v.path is not None and v.path[0].startswith("@") and len(v.path) == 1 and v.path not in _seen:
            c = st.heap.get(v.path)
            if c is not None:
                return V(v.src | c.src, v.must | c.must, v.whole | c.whole, None, v.ty if v.ty.names else c.ty, c.shape or v.shape, c.elem or v.elem, v.calls | c.calls, v.strs | c.strs)
            if v.shape is not None and v.shape[0] == "ctor":
                extra = [self.mat(x, st, _seen + (v.path,)) for (p, n), x in st.attrs.items() if p == v.path]
                if extra:
                    cm = comb([v] + extra)
                    d = dict(v.shape[2])
                    for (p, n), x in st.attrs.items():
                        if p == v.path:
                            d["." + n] = x
                    return V(cm.src, cm.must, cm.whole, v.path, v.ty, ("ctor", v.shape[1], d), v.elem, cm.calls, cm.strs)
        return v

    def data(self, vs, st, calls=E, **kw) -> V:
        return comb([self.mat(v, st) for v in vs], calls, **kw)

    def add_to(self, target: V, vals: list[V], st: St, *, spread=False, key: Optional[V] = None) -> None:
        """Weak update: vals become elements (spread: contents) of the container `target`."""
        mv = [self.mat(v, st) for v in vals]
        if target.path is None:
            return
        p = target.path
        if len(p) == 1 and p[0].startswith("@"):
            old = st.heap.get(p, V())
            elems = []
            for v, m in zip(vals, mv):
                if spread:
                    e = self.iter_elem(v, st)
                    if e is not None:
                        elems.append(e)
                else:
                    elems.append(v)
            c = comb([old] + mv + ([self.mat(key, st)] if key is not None else []))
            elem = self._elem_join(old.elem, elems, st)
            shape = None
            if old.shape is not None and old.shape[0] == "dict" and key is not None and key.shape is not None and key.shape[0] == "const":
                d = dict(old.shape[1])
                d[_k(key.shape[1])] = mv[0]
                shape = ("dict", d)
            elif old.shape is not None and old.shape[0] == "dict" and spread and len(mv) == 1 and mv[0].shape is not None and mv[0].shape[0] == "dict":
                shape = ("dict", {**old.shape[1], **mv[0].shape[1]})
            elif old.shape is not None and old.shape[0] == "seq" and not spread and key is None:
                shape = ("seq", list(old.shape[1]) + vals)
            elif old.shape is not None and old.shape[0] == "seq" and spread and key is None and len(mv) == 1 and mv[0].shape is not None and mv[0].shape[0] == "seq":
                shape = ("seq", list(old.shape[1]) + list(mv[0].shape[1]))
            elif old.shape is not None and old.shape[0] == "dict":
                rest = old.shape[1].get("*")
                new = mv[0] if mv else V()
                shape = ("dict", {**old.shape[1], "*": new if rest is None else self._elem2(rest, new, st)})
            elif old.shape is not None and old.shape[0] == "seq":
                shape = ("seq", list(old.shape[1]) + [comb(mv)]) if mv else old.shape
            st.heap[p] = V(c.src, c.must, c.whole, None, old.ty, shape, elem, c.calls, c.strs)
        else:
            k = (p[:-1], p[-1])
            old = st.attrs.get(k) or pathv(p, target.ty)
            old = self.mat(old, st)
            c = comb([old] + mv + ([self.mat(key, st)] if key is not None else []))
            st.attrs[k] = V(c.src, c.must, c.whole, p, target.ty, None, self._elem_join(old.elem, vals, st), c.calls, c.strs)

    def _elem_join(self, old, elems, st):
        out = old
        for e in elems:
            out = e if out is None else self._elem2(out, e, st)
        return out

    def _elem2(self, a, b, st):
        # elements of the same container: union (may) semantics
        if a is b:
            return a
        m = comb([self.mat(a, st), self.mat(b, st)])
        shape = a.shape if (a.shape is not None and b.shape is not None and a.shape[0] == b.shape[0] == "const" and a.shape == b.shape) else None
        return m.with_(ty=ty_union(a.ty, b.ty) if a.ty != b.ty else a.ty, shape=shape)

    def iter_elem(self, v: V, st: St) -> V:
        """Representative element of an iterable."""
        m = self.mat(v, st)
        if m.elem is not None:
            return m.elem
        if v.path is not None and not (len(v.path) == 1 and v.path[0].startswith("@")):
            p = v.path
            if p[-1] == "items()":
                b = p[:-1]
                k, x = pathv(b + ("*k",), v.ty.elem or ANY), pathv(b + ("*",), v.ty.val or ANY)
                k, x = st.attrs.get((b, "*k"), k), st.attrs.get((b, "*"), x)
                return V(k.src | x.src, k.must | x.must, k.whole | x.whole, None, ANY, ("seq", [k, x]))
            if p[-1] == "values()":
                return pathv(p[:-1] + ("*",), v.ty.val or ANY)
            if p[-1] == "keys()":
                return pathv(p[:-1] + ("*k",), v.ty.elem or ANY)
            if v.ty.names and v.ty.names & {"dict"} and v.ty.val is not None:
                return pathv(p + ("*k",), v.ty.elem or ANY)
            w = self.iter_view(v, st)
            if w is not None:
                return self.iter_elem(w, st)
            return pathv(p + ("*",), v.ty.elem or ANY)
        if m.shape is not None and m.shape[0] == "seq" and m.shape[1]:
            out = m.shape[1][0]
            for e in m.shape[1][1:]:
                out = self._elem2(out, e, st)
            return out
        if not m.src and not m.calls:
            return V(strs=m.strs)
        c = comb([m])
        return c.with_(ty=v.ty.elem or ANY)

    def iter_view(self, v: V, st: St) -> Optional[V]:
        """Objects that are iterated via one of their attributes."""
        if v.ty.elem is not None:
            return None
        cs = self.classes_of(v, st)
        fs = {f.qual: f for f in (c.find("__iter__") for c in cs) if f is not None}
        if len(fs) != 1 or not all(c.find("__iter__") for c in cs):
            return None
        f = next(iter(fs.values()))
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            return None
        r = body[0].value
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "iter" and len(r.args) == 1:
            r = r.args[0]
        elif isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "__iter__":
            r = r.func.value
        else:
            return None
        if not (isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == f.arg_names()[0]):
            return None
        outs = self.getattr(v, r.attr, st, r)
        return outs[0][0] if len(outs) == 1 and outs[0][0].path != v.path else None

    # ------------------------------------------------------------------ statements
    def ex(self, stmts, st: St):
        """Execute a statement list; returns [(kind, V, St)]."""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for k, v, n in self.ex1(s, c):
                    if k == "next":
                        nxt.append(n)
                    else:
                        outs.append((k, v, n))
            cur = self.cap_states(nxt)
            if len(outs) > 4 * self.cap:
                outs = self._cap_outs(outs)
            if not cur:
                return outs
        outs += [("next", None, c) for c in cur]
        return outs

    def _cap_outs(self, outs):
        groups: dict[str, list] = {}
        for k, v, s in outs:
            groups.setdefault(k, []).append((v, s))
        res = []
        for k, vs in groups.items():
            if len(vs) <= 2 * self.cap or k == "raise":
                if k == "raise":
                    vs = vs[: self.cap]
                res += [(k, v, s) for v, s in vs]
                continue
            self.capped = True
            if any(v is None for v, _ in vs):
                res.append((k, None, self.join_states([s for _, s in vs])))
            else:
                v = self.join_vals([(self.mat(v, s), s) for v, s in vs])
                res.append((k, v, self.join_states([s for _, s in vs])))
        return res

    def ex1(self, n, st: St):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [("next", None, st)]
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [("next", None, st)]
        return [("next", None, s) for _, s in self.ev(n.value, st)]

    def s_Pass(self, n, st):
        return [("next", None, st)]

    def s_Break(self, n, st):
        return [("break", None, st)]

    def s_Continue(self, n, st):
        return [("continue", None, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [("return", const(None), st)]
        return [("return", v, s) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        outs = []
        if n.exc is None:
            return [("raise", V(), st)]
        for v, s in self.ev(n.exc, st):
            outs.append(("raise", v, s))
        return outs

    def s_Assert(self, n, st):
        out = []
        for s in self.cond(n.test, st, True):
            out.append(("next", None, s))
        for s in self.cond(n.test, st.copy(), False):
            out.append(("raise", const("AssertionError"), s))
        return out

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            for t in n.targets:
                self.assign(t, v, s)
            out.append(("next", None, s))
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [("next", None, st)]
        out = []
        fi = self.stack[-1]
        for v, s in self.ev(n.value, st):
            s = s.copy()
            ty = self.prog.ty(fi.module, n.annotation)
            if v.ty.names is None and ty.names is not None:
                v = v.with_(ty=ty)
            self.assign(n.target, v, s)
            out.append(("next", None, s))
        return out

    def s_AugAssign(self, n, st):
        out = []
        load = _as_load(n.target)
        for cur, s in self.ev(load, st):
            for v, s2 in self.ev(n.value, s):
                s2 = s2.copy()
                if isinstance(n.op, ast.BitOr):
                    self.union([cur, v], n, s2)
                if cur.path is not None and isinstance(n.op, ast.Add):
                    self.event(s2, Event("@extend", None, cur, [v], {}, n, self.stack[-1]))
                if cur.path is not None and isinstance(n.op, (ast.BitOr, ast.Add)) and self._is_container(cur, s2):
                    self.add_to(cur, [v], s2, spread=True)
                else:
                    nv = self.data([cur, v], s2, ty=cur.ty)
                    if isinstance(n.op, ast.Add) and (_strlike(cur) or _strlike(v)):
                        parts = _fmt_parts(cur) + _fmt_parts(v)
                        nv = nv.with_(shape=("fmt", parts, _fmt_nonempty(parts)))
                    self.assign(n.target, nv, s2)
                out.append(("next", None, s2))
        return out

    def _is_container(self, v: V, st: St) -> bool:
        if v.path is not None and len(v.path) == 1 and v.path[0].startswith("@"):
            c = st.heap.get(v.path)
            return c is not None
        return False

    def s_If(self, n, st):
        outs = []
        states = []
        for s in self.cond(n.test, st.copy(), True):
            for k, v, s2 in self.ex(n.body, s):
                (states if k == "next" else outs).append(s2 if k == "next" else (k, v, s2))
        for s in self.cond(n.test, st.copy(), False):
            if n.orelse:
                for k, v, s2 in self.ex(n.orelse, s):
                    (states if k == "next" else outs).append(s2 if k == "next" else (k, v, s2))
            else:
                states.append(s)
        return outs + [("next", None, s) for s in self.cap_states(states)]

    def s_While(self, n, st):
        outs = []
        after = []
        for s in self.cond(n.test, st.copy(), False):
            after.append(s)
        body_states = []
        for s in self.cond(n.test, st.copy(), True):
            for k, v, s2 in self.ex(n.body, s):
                if k in ("next", "continue", "break"):
                    body_states.append(s2)
                else:
                    outs.append((k, v, s2))
        if body_states:
            b = self._loop_join(st, body_states)
            for k in list(b.facts):
                if k not in st.facts:
                    del b.facts[k]
            after = [b]
        if n.orelse:
            o2 = []
            for a in after:
                for k, v, s2 in self.ex(n.orelse, a):
                    (o2 if k == "next" else outs).append(s2 if k == "next" else (k, v, s2))
            after = o2
        return outs + [("next", None, a) for a in after]

    def _loop_join(self, pre: St, ends: list[St]) -> St:
        """State after a loop: the representative iteration happened; names keep their earlier values as alternatives."""
        b = self.join_states(ends)
        b = b.copy()
        for k, v in pre.env.items():
            nv = b.env.get(k)
            if nv is not None and isinstance(nv, V) and isinstance(v, V) and nv is not v and nv.path != v.path:
                mv, mn = self.mat(v, pre), self.mat(nv, b)
                # may semantics for the old value, must semantics of the iteration (empty loops have nothing to contribute)
                b.env[k] = V(mv.src | mn.src, mv.must | mn.must, mv.whole | mn.whole, None, ty_union(v.ty, nv.ty) if v.ty != nv.ty else v.ty, None, mn.elem or mv.elem, mv.calls | mn.calls, mv.strs | mn.strs)
        return b

    def _last_only(self, n, elem: V, pre: St, ends, b: St):
        """Names that are overwritten by each iteration hold the last element only (and not their earlier value)."""
        stars = {p for p in elem.src if "*" in p or "*k" in p}
        names = overwritten(n)
        if not stars or not names:
            return
        j = None
        for x in names:
            v = b.env.get(x)
            if not isinstance(v, V):
                continue
            if j is None:
                j = self.join_states(ends)
            nv = j.env.get(x)
            if not isinstance(nv, V):
                continue
            nv = self.mat(nv, j)
            mv = self.mat(v, b)

            def keep(ps):
                return frozenset(p for p in ps if not any(p[:len(q)] == q for q in stars))
            if keep(nv.must) == mv.must and keep(nv.whole) == mv.whole:
                continue
            b.env[x] = V(mv.src, keep(nv.must), keep(nv.whole), None, mv.ty, None, mv.elem, mv.calls, mv.strs)

    def _partial(self, elem: V, pre: St, b: St):
        """A loop that may stop early does not necessarily reach all elements."""
        stars = {p for p in elem.src if "*" in p or "*k" in p}
        if not stars:
            return

        def keep(ps, old):
            return frozenset(p for p in ps if p in old or not any(p[:len(q)] == q for q in stars))
        for x, v in list(b.env.items()):
            if not isinstance(v, V) or v.path is not None or v is elem:
                continue
            w = pre.env.get(x)
            if w is v:
                continue
            mv = self.mat(v, b)
            pv = self.mat(w, pre) if isinstance(w, V) else None
            om, ow = (pv.must, pv.whole) if pv is not None else (frozenset(), frozenset())
            if keep(mv.must, om) != mv.must or keep(mv.whole, ow) != mv.whole:
                b.env[x] = V(mv.src, keep(mv.must, om), keep(mv.whole, ow), None, mv.ty, None, mv.elem, mv.calls, mv.strs)

    def s_For(self, n, st):
        outs = []
        after = []
        for it, s in self.ev(n.iter, st):
            s = s.copy()
            items = self._exact_items(it, s)
            if items is not None:
                cur = [s]
                for x in items:
                    nx = []
                    for c in cur:
                        c = c.copy()
                        self.assign(n.target, x, c)
                        for k, v, s2 in self.ex(n.body, c):
                            if k in ("next", "continue"):
                                nx.append(s2)
                            elif k == "break":
                                outs.append((k, v, s2))
                            else:
                                outs.append((k, v, s2))
                    cur = self.cap_states(nx, max(2, self.arg_cap))
                brk = [s2 for k, v, s2 in outs if k == "break"]
                outs = [o for o in outs if o[0] != "break"]
                if n.orelse:
                    o2 = []
                    for a in cur:
                        for k, v, s2 in self.ex(n.orelse, a):
                            (o2 if k == "next" else outs).append(s2 if k == "next" else (k, v, s2))
                    cur = o2
                if brk or cur:
                    after += ("done", cur + brk),
                continue
            elem = self.iter_elem(it, s)
            self.assign(n.target, elem, s)
            pre_facts = set(s.facts)
            ends = []
            before = s.copy() if self.iterations is not None else None
            done_by = self.ex(n.body, s)
            if self.iterations is not None:
                self.iterations.append((n, it, elem, before, done_by, self.stack[-1]))
            for k, v, s2 in done_by:
                if k in ("next", "continue", "break"):
                    ends.append(s2)
                else:
                    outs.append((k, v, s2))
            if ends:
                b = self._loop_join(s, ends)
                self._last_only(n, elem, s, ends, b)
                if any(k == "break" for k, *_ in done_by):
                    self._partial(elem, s, b)
                for k in list(b.facts):
                    if k not in pre_facts and _elem_fact(k):
                        del b.facts[k]
                if self.iterations is not None:
                    again = b.copy()
                    e2 = _later(self.iter_elem(it, again))
                    self.assign(n.target, e2, again)
                    self.iterations.append((n, it, e2, again.copy(), self.ex(n.body, again), self.stack[-1]))
                elif self.second_pass:
                    again = b.copy()
                    self.assign(n.target, self.iter_elem(it, again), again)
                    for _ in self.ex(n.body, again):
                        pass
                after.append(b)
            # an empty iterable skips the body
            if outs and not ends:
                s3 = s.copy()
                if it.path is not None:
                    s3.facts[("t", it.path)] = False
                after.append(s3)
        done = [x for a in after if isinstance(a, tuple) for x in a[1]]
        after = [a for a in after if not isinstance(a, tuple)]
        if n.orelse:
            o2 = []
            for a in after:
                for k, v, s2 in self.ex(n.orelse, a):
                    (o2 if k == "next" else outs).append(s2 if k == "next" else (k, v, s2))
            after = o2
        return outs + [("next", None, a) for a in self.cap_states(after + done)]

    def _exact_items(self, it: V, st: St, limit: int = 14):
        """The elements of an iterable whose elements are all known individually."""
        if it.path is not None and not it.path[0].startswith("@"):
            return None
        m = self.mat(it, st)
        if m.shape is not None and m.shape[0] == "seq" and (0 < len(m.shape[1]) <= limit or len(m.shape) > 2 and not m.shape[1]):
            return m.shape[1]  # (a third component marks values that are certainly empty)
        return None

    def s_With(self, n, st):
        states = [st]
        for item in n.items:
            nx = []
            for s in states:
                for v, s2 in self.ev(item.context_expr, s):
                    s2 = s2.copy()
                    self.event(s2, Event("@with", None, v, [], {}, item.context_expr, self.stack[-1]))
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v, s2)
                    nx.append(s2)
            states = nx
        outs = []
        for s in states:
            outs += self.ex(n.body, s)
        return outs

    def s_Try(self, n, st):
        outs = []
        body = self.ex(n.body, st.copy())
        normal = [s for k, v, s in body if k == "next"]
        raised = [s for k, v, s in body if k == "raise"]
        others = [(k, v, s) for k, v, s in body if k in ("return", "break", "continue")]
        states = []
        if n.orelse:
            for s in normal:
                for k, v, s2 in self.ex(n.orelse, s):
                    if k == "next":
                        states.append(s2)
                    else:
                        others.append((k, v, s2))
        else:
            states += normal
        if n.handlers:
            base = [st.copy()] + [s for s in raised] + [s for s in normal]
            hs = self.join_states(base).copy()
            hs.exc = True
            for h in n.handlers:
                s = hs.copy()
                if h.name:
                    s.env[h.name] = pathv((f"exc:{h.name}",))
                    s.facts[("t", (f"exc:{h.name}",))] = True
                    s.facts[("n", (f"exc:{h.name}",))] = False
                for k, v, s2 in self.ex(h.body, s):
                    if k == "next":
                        states.append(s2)
                    else:
                        others.append((k, v, s2))
        else:
            others += [("raise", v, s) for k, v, s in body if k == "raise"]
        if n.finalbody:
            res = []
            for s in states:
                res += self.ex(n.finalbody, s)
            for k, v, s in others:
                for k2, v2, s2 in self.ex(n.finalbody, s):
                    if k2 == "next":
                        res.append((k, v, s2))
                    else:
                        res.append((k2, v2, s2))
            return res
        return others + [("next", None, s) for s in self.cap_states(states)]

    s_TryStar = s_Try

    def s_Match(self, n, st):
        outs = []
        for subj, s in self.ev(n.subject, st):
            s = s.copy()
            s.test(self.mat(subj, s))
            rest = [s]
            for case in n.cases:
                nrest = []
                for r in rest:
                    yes, no = self.match_pat(case.pattern, subj, r)
                    nrest += no
                    for y in yes:
                        if case.guard is not None:
                            for g in self.cond(case.guard, y.copy(), True):
                                outs += self.ex(case.body, g)
                            nrest += self.cond(case.guard, y.copy(), False)
                        else:
                            outs += self.ex(case.body, y)
                rest = self.cap_states(nrest)
            outs += [("next", None, r) for r in rest]
        nx = [s for k, v, s in outs if k == "next"]
        ot = [(k, v, s) for k, v, s in outs if k != "next"]
        return ot + [("next", None, s) for s in self.cap_states(nx)]

    def match_pat(self, p, v: V, st: St):
        """-> (states where the pattern matches, states where it does not)"""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st.copy()
                if p.name:
                    s.env[p.name] = v
                return [s], []
            yes, no = self.match_pat(p.pattern, v, st)
            for y in yes:
                if p.name:
                    y.env[p.name] = v
            return yes, no
        if isinstance(p, ast.MatchOr):
            yes, rest = [], [st]
            for sub in p.patterns:
                nr = []
                for r in rest:
                    y, no = self.match_pat(sub, v, r)
                    yes += y
                    nr += no
                rest = nr
            return yes, rest
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return self._none(v, st.copy(), True), self._none(v, st.copy(), False)
            t = V(shape=("cmp", "==", v, const(p.value)), src=v.src)
            return self.assume(t, True, st.copy()), self.assume(t, False, st.copy())
        if isinstance(p, ast.MatchValue):
            yes, no = [], []
            for c, s in self.ev(p.value, st):
                t = V(shape=("cmp", "==", v, c), src=v.src)
                yes += self.assume(t, True, s.copy())
                no += self.assume(t, False, s.copy())
            return yes, no
        if isinstance(p, ast.MatchClass):
            r = self.prog.resolve_dotted(self.stack[-1].module.name, p.cls)
            cname = ast.unparse(p.cls)
            t = V(shape=("isinst", v, [r if isinstance(r, ClassInfo) else cname]), src=v.src)
            no = self.assume(t, False, st.copy())
            yes = self.assume(t, True, st.copy())
            margs = None
            if isinstance(r, ClassInfo):
                margs = match_args(r)
            subs = []
            for i, sp in enumerate(p.patterns):
                a = margs[i] if margs and i < len(margs) else None
                subs.append((a, sp))
            for a, sp in zip(p.kwd_attrs, p.kwd_patterns):
                subs.append((a, sp))
            if isinstance(r, ClassInfo):
                v2 = v.with_(ty=Ty(frozenset({r.qual}))) if self._narrow_needed(v, r) else v
            else:
                v2 = v
            irref = True
            for a, sp in subs:
                ny = []
                for y in yes:
                    if a is None:
                        if len(p.patterns) == 1 and not isinstance(r, ClassInfo):
                            vals = [(v2, y)]  # str(x), int(x), ...
                        else:
                            vals = [(self.data([v2], y), y)]
                    else:
                        vals = self.getattr(v2, a, y, p)
                    for av, s2 in vals:
                        yy, nn = self.match_pat(sp, av, s2)
                        ny += yy
                        no += nn
                yes = ny
            return yes, no
        if isinstance(p, ast.MatchSequence):
            s = st.copy()
            s.test(self.mat(v, s))
            m = self.mat(v, s)
            has_star = any(isinstance(x, ast.MatchStar) for x in p.patterns)
            if m.shape is not None and m.shape[0] == "seq" and not has_star:
                if len(m.shape[1]) != len(p.patterns):
                    return [], [st]
                yes = [s]
                no = []
                for sub, iv in zip(p.patterns, m.shape[1]):
                    ny = []
                    for y in yes:
                        yy, nn = self.match_pat(sub, iv, y)
                        ny += yy
                        no += nn
                    yes = ny
                return yes, no
            yes = [s]
            e = self.iter_elem(v, s)
            for sub in p.patterns:
                ny = []
                for y in yes:
                    if isinstance(sub, ast.MatchStar):
                        if sub.name:
                            y.env[sub.name] = v
                        ny.append(y)
                    else:
                        yy, nn = self.match_pat(sub, e, y)
                        ny += yy
                yes = ny
            return yes, [st.copy()]
        s = st.copy()
        for sub in ast.walk(p):
            nm = getattr(sub, "name", None)
            if isinstance(nm, str):
                s.env[nm] = self.data([v], s)
            if isinstance(sub, ast.MatchMapping) and sub.rest:
                s.env[sub.rest] = self.data([v], s)
        return [s], [st.copy()]

    def _narrow_needed(self, v: V, r: ClassInfo) -> bool:
        names = v.ty.names
        if names is None:
            return True
        if len(names) == 1:
            c = self.prog.class_of_qual(next(iter(names)))
            return not (c is not None and c.is_subclass(r))
        return True

    def s_FunctionDef(self, n, st):
        fi = self._nested_fi(n)
        st = st.copy()
        st.env[n.name] = V(shape=("func", fi, st.env))
        return [("next", None, st)]

    def _nested_fi(self, n):
        for f in reversed(self.stack):
            g = getattr(f, "nested", {}).get(n.name)
            if g is not None and g.node is n:
                return g
        return FuncInfo(n.name, f"{self.stack[-1].qual}.{n.name}", self.stack[-1].module, n, None, self.stack[-1])

    def s_Delete(self, n, st):
        return [("next", None, st)]

    def quantify_loops(self, v: V) -> bool:
        """May the elements of a container be representatives of further elements?"""
        return self.quantify and v.path is not None and not self.exact_lists

    def assign(self, t, v: V, st: St):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            m = self.mat(v, st)
            if m.shape is not None and m.shape[0] == "seq" and len(m.shape[1]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, m.shape[1]):
                    self.assign(e, x, st)
                return
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if m.shape is not None and m.shape[0] == "seq" and len(stars) == 1 and len(m.shape[1]) >= len(t.elts) - 1 and not self.quantify_loops(v):
                i, n = stars[0], len(t.elts) - 1 - stars[0]
                items = list(m.shape[1])
                rest = items[i:len(items) - n]
                c = comb(rest) if rest else V()
                for e, x in zip(t.elts, items[:i] + [c.with_(shape=("seq", rest), path=None)] + items[len(items) - n:]):
                    self.assign(e, x, st)
                return
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, v, st)
                    continue
                if v.path is not None and not v.path[0].startswith("@"):
                    if v.ty.items is not None and i < len(v.ty.items):
                        x = pathv(v.path + (f"{i}",), v.ty.items[i])
                    else:
                        x = pathv(v.path + ("*",), v.ty.elem or ANY)
                else:
                    x = self.iter_elem(v, st)
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            for o, s in self.ev(t.value, st)[:1]:
                if o.path is not None:
                    # property setters are treated as plain stores to the attribute and its backing fields
                    st.attrs[(o.path, norm(t.attr))] = v
                    self.event(st, Event("@store", None, o, [v], {"attr": const(t.attr)}, t, self.stack[-1]))
        elif isinstance(t, ast.Subscript):
            for o, s in self.ev(t.value, st)[:1]:
                for k, s2 in self.ev(t.slice, st)[:1]:
                    if o.path is not None:
                        self.add_to(o, [v], st, key=k)
                        self.event(st, Event("@setitem", None, o, [k, v], {}, t, self.stack[-1]))
                    elif isinstance(t.value, ast.Name):
                        st.env[t.value.id] = self.data([o, k, v], st, ty=o.ty)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    # ------------------------------------------------------------------ conditions
    def cond(self, node, st: St, truth: bool) -> list[St]:
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return self.cond(node.operand, st, not truth)
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            if is_and == truth:  # all operands must be `truth`
                cur = [st]
                for v in node.values:
                    nx = []
                    for s in cur:
                        nx += self.cond(v, s.copy(), truth)
                    cur = self.cap_states(nx)
                return cur
            cur = [st]
            out = []
            for v in node.values:
                nx = []
                for s in cur:
                    out += self.cond(v, s.copy(), truth)
                    nx += self.cond(v, s.copy(), not truth)
                cur = self.cap_states(nx)
            return self.cap_states(out)
        out = []
        for v, s in self.ev(node, st):
            out += self.assume(v, truth, s.copy())
        return out

    def assume(self, v: V, truth: bool, st: St) -> list[St]:
        m = self.mat(v, st)
        st.test(m)
        sh = v.shape or m.shape
        if sh is not None:
            k = sh[0]
            if k == "const":
                try:
                    return [st] if bool(sh[1]) == truth else []
                except Exception:
                    return [st]
            if k == "enum":
                return [st] if truth else []
            if k == "fmt" and sh[2]:
                return [st] if truth else []
            if k == "join":
                for b in sh[1]:
                    if not truth:
                        if st.facts.get(("t", b)) is True:
                            return []
                        st.facts[("t", b)] = False
                return [st]
            if k == "not":
                return self.assume(sh[1], not truth, st)
            if k == "isinst":
                return self._assume_inst(sh[1], sh[2], truth, st)
            if k == "cmp":
                return self._assume_cmp(sh[1], sh[2], sh[3], truth, st)
            if k in ("func", "bound", "class", "module", "builtin"):
                return [st] if truth else []
            if k == "seq" and self.quantify and (v.path is None or v.path[0].startswith("@")):
                return [st] if bool(sh[1]) == truth else []  # the representative element has been added or not
        if self.quantify and sh is not None and sh[0] == "ctor" and v.ty.names and any(c is not None and c.find("__bool__") is not None for c in map(self.prog.class_of_qual, v.ty.names)):
            key = ("b", v.path or id(sh), m.src, m.strs)
            if st.facts.get(key, truth) != truth:
                return []  # has been tested before and not been changed since then
            st.facts[key] = truth
        if v.path is not None and not v.path[0].startswith("@"):
            p = v.path
            key = ("t", p)
            if st.facts.get(key, truth) != truth:
                return []
            if truth and st.facts.get(("n", p)) is True:
                return []
            if not truth and len(p) == 1 and v.ty.names and len(v.ty.names) == 1 and self.prog.class_of_qual(next(iter(v.ty.names))) is not None:
                c = self.prog.class_of_qual(next(iter(v.ty.names)))
                if c.find("__bool__") is None and c.find("__len__") is None and not c.external_bases():
                    return []
            st.facts[key] = truth
            if truth:
                st.facts[("n", p)] = False
                if self._types(v, st) is not None:
                    self._set_types(v, self._types(v, st) - {"None"}, st)
        return [st]

    def _none(self, v: V, st: St, isnone: bool) -> list[St]:
        m = self.mat(v, st)
        st.test(m)
        sh = v.shape or m.shape
        if sh is not None:
            if sh[0] == "const":
                return [st] if (sh[1] is None) == isnone else []
            if sh[0] in ("ctor", "seq", "dict", "func", "bound", "class", "enum", "isinst", "cmp"):
                return [st] if not isnone else []
        if v.path is not None and v.path[0].startswith("@") and v.path in st.heap:
            return [st] if not isnone else []
        if v.path is not None:
            key = ("n", v.path)
            if st.facts.get(key, isnone) != isnone:
                return []
            if isnone and st.facts.get(("t", v.path)) is True:
                return []
            ts = self._types(v, st)
            if ts is not None:
                # annotations are not enforced at runtime: only use narrowed type facts
                if ("T", v.path) in st.facts and isnone and "None" not in ts and len(ts) > 0:
                    return []
            st.facts[key] = isnone
            if isnone:
                st.facts[("t", v.path)] = False
            elif ts is not None:
                self._set_types(v, ts - {"None"}, st)
        return [st]

    def _types(self, v: V, st: St):
        if v.path is not None and ("T", v.path) in st.facts:
            return st.facts[("T", v.path)]
        if v.shape is not None and v.shape[0] == "ctor":
            return frozenset({v.shape[1].qual})
        if v.ty.names is None:
            return None
        return self._expand(v.ty.names)

    def _expand(self, names):
        key = names
        if key in self._conc_cache:
            return self._conc_cache[key]
        out = set()
        for n in names:
            c = self.prog.class_of_qual(n)
            if c is None:
                out.add(n)
            else:
                out.add(n) if not c.abstract_methods() else None
                out |= {x.qual for x in self.prog.subclasses(c) if not x.abstract_methods()}
                if not out:
                    out.add(n)
        r = self._conc_cache[key] = frozenset(out)
        return r

    def _set_types(self, v: V, ts, st: St):
        if v.path is not None:
            st.facts[("T", v.path)] = ts

    def _assume_inst(self, v: V, classes, truth, st: St) -> list[St]:
        m = self.mat(v, st)
        st.test(m)
        if v.shape is not None and v.shape[0] == "const" and not any(isinstance(c, ClassInfo) for c in classes):
            tn = type(v.shape[1]).__name__
            names = {str(c).split(".")[-1] for c in classes}
            if tn in names:
                return [st] if truth else []
        ts = self._types(v, st)
        if ts is None:
            # unknown static type
            if truth and v.path is not None:
                qs = frozenset(c.qual if isinstance(c, ClassInfo) else str(c) for c in classes)
                neg = st.facts.get(("N", v.path), E)
                if qs and qs <= neg:
                    return []
                sel = self._expand(qs)
                if neg:
                    ng = self._expand(neg)
                    sel = frozenset(sel - ng) or sel
                self._set_types(v, sel, st)
            elif v.path is not None:
                qs = frozenset(c.qual if isinstance(c, ClassInfo) else str(c) for c in classes)
                st.facts[("N", v.path)] = st.facts.get(("N", v.path), E) | qs
            return [st]
        vague = {"Iterable", "Sequence", "Collection", "Iterator", "object", "Any"}
        yes, no = set(), set()
        unsure = False
        for t in ts:
            tc = self.prog.class_of_qual(t)
            hit = False
            for c in classes:
                if isinstance(c, ClassInfo):
                    if tc is not None and tc.is_subclass(c):
                        hit = True
                    elif "Protocol" in {b.split(".")[-1] for b in c.external_bases()}:
                        # a structural type
                        unsure = True
                        hit = None if not hit else hit
                else:
                    cn = str(c).split(".")[-1]
                    if tc is None:
                        if t == cn or (cn in ("Number", "Real") and t in ("int", "float")):
                            hit = True
                        elif t in ABC_OF and (cn in ABCS or cn in ABC_OF):
                            if cn in ABC_OF[t]:
                                hit = True
                        elif t in vague or cn in vague or cn in ("Iterable", "Sequence", "Collection", "Mapping", "Sized", "Callable", "Hashable"):
                            unsure = True
                            hit = None if not hit else hit
                        elif t == "int" and cn == "float" or (t == "bool" and cn == "int"):
                            unsure = True
                    elif any(b.split(".")[-1] == cn for b in tc.external_bases()):
                        hit = True
                if hit:
                    break
            if hit is None:
                yes.add(t)
                no.add(t)
            elif hit:
                yes.add(t)
            else:
                no.add(t)
        if v.shape is not None and v.shape[0] == "ctor":
            ok = bool(yes)
            return [st] if ok == truth else []
        if unsure:
            return [st]
        sel = yes if truth else no
        # declared types are upper bounds only when they come from narrowing or from package classes
        if not sel:
            if truth:
                if all(self.prog.class_of_qual(t) is not None for t in ts):
                    return []
                if ("T", v.path) in st.facts:
                    return []
                return [] if ts else [st]
            return []
        self._set_types(v, frozenset(sel), st)
        return [st]

    def _assume_cmp(self, op, a: V, b: V, truth, st: St) -> list[St]:
        ma, mb = self.mat(a, st), self.mat(b, st)
        st.test(ma)
        st.test(mb)
        if op in ("is", "=="):
            if is_const(b, None):
                return self._none(a, st, truth)
            if is_const(a, None):
                return self._none(b, st, truth)
        if op == "is" and a.path is not None and a.path == b.path and a.shape is None and b.shape is None and not any(
                "()" in x or "*" in x for x in a.path) and not a.path[0].startswith("@"):
            return [st] if truth else []
        if op == "is":
            for x, y in ((a, b), (b, a)):
                # a fresh object is not one that was passed in
                if x.shape is not None and x.shape[0] == "ctor" and y.shape is None and y.path is not None and len(y.path) == 1 and not y.path[0].startswith("@"):
                    return [] if truth else [st]
        if op in ("is not", "!="):
            return self._assume_cmp("is" if op == "is not" else "==", a, b, not truth, st)
        if op == "not in":
            return self._assume_cmp("in", a, b, not truth, st)
        if op == "in" and self.member_keys and is_const(a) and isinstance(a.shape[1], str) and b.path is not None and b.shape is None:
            return self._none(pathv(b.path + (f"['{a.shape[1]}']",)), st, not truth)
        if op == "in" and self.member is not None:
            known = self.member(self, ma, mb, st)
            if known is not None:
                return [st] if known == truth else []
        if op == "in" and mb.shape is not None and mb.shape[0] == "gunion" and ma.shape is not None and ma.shape[0] in ("const", "enum"):
            each = [self._in_table(x[1], x[2], ma) for x in mb.shape[1]]
            if True in each or None not in each:
                return [st] if (True in each) == truth else []
        if op == "in" and mb.shape is not None and mb.shape[0] == "gconst" and ma.shape is not None and ma.shape[0] in ("const", "enum"):
            known = self._in_table(mb.shape[1], mb.shape[2], ma)
            if known is not None:
                return [st] if known == truth else []
        if op == "in" and mb.shape is not None and mb.shape[0] == "seq" and mb.shape[1] and (b.path is None or b.path[0].startswith("@")) and \
                all(x.shape is not None and x.shape[0] in ("const", "enum") and x.path is None for x in mb.shape[1]):
            # membership in a literal collection
            may = [x for x in mb.shape[1] if self._assume_cmp("==", a, x, True, st.copy())]
            must = [x for x in mb.shape[1] if not self._assume_cmp("==", a, x, False, st.copy())]
            if must:
                return [st] if truth else []
            if not may:
                return [] if truth else [st]
            if truth and len(may) == 1:
                return self._assume_cmp("==", a, may[0], True, st)
            if truth and self.member_keys and len(may) <= 4:
                return [y for x in may for y in self._assume_cmp("==", a, x, True, st.copy())]
            if not truth:
                cur = [st]
                for x in may:
                    cur = [y for s in cur for y in self._assume_cmp("==", a, x, False, s)]
                return cur
        if op in ("<", "<=", ">", ">=") and is_const(a) and is_const(b) and isinstance(a.shape[1], (int, float)) and isinstance(b.shape[1], (int, float)):
            x, y = a.shape[1], b.shape[1]
            return [st] if {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op] == truth else []
        if op in ("is", "==") and a.path is not None and b.path is not None and a.path != b.path:
            ka = [f[2] for f, val in st.facts.items() if f[0] == "e" and f[1] == a.path and val is True]
            kb = [f[2] for f, val in st.facts.items() if f[0] == "e" and f[1] == b.path and val is True]
            if ka and kb:
                return [st] if (ka[0] == kb[0]) == truth else []
        if op in ("is", "==") and all(x.shape is not None and (x.shape[0] in ("cmp", "isinst", "not") or is_const(x, True, False)) for x in (a, b)):
            ta, tb = self.truth(a, st), self.truth(b, st)
            if ta is not None and tb is not None:
                return [st] if (ta == tb) == truth else []
        if op in ("is", "=="):
            if is_const(a) and is_const(b):
                return [st] if (a.shape[1] == b.shape[1]) == truth else []
            ka, kb = a.shape and a.shape[0], b.shape and b.shape[0]
            if ka == "enum" and kb == "enum":
                return [st] if (a.shape == b.shape) == truth else []
            for x, y in ((a, b), (b, a)):
                if x.path is not None and y.shape is not None and y.shape[0] in ("const", "enum"):
                    c = _k(y.shape[1]) if y.shape[0] == "const" else (y.shape[1].name, y.shape[2])
                    key = ("e", x.path, c)
                    if st.facts.get(key, truth) != truth:
                        return []
                    if truth:
                        # equal to a different constant already?
                        for f, val in st.facts.items():
                            if f[0] == "e" and f[1] == x.path and f[2] != c and val is True:
                                return []
                    elif any(f[0] == "e" and f[1] == x.path and f[2] == c and val is True for f, val in st.facts.items()):
                        return []
                    st.facts[key] = truth
                    if not truth and y.shape[0] == "enum" and x.ty.names is not None:
                        kinds = x.ty.names - {"None"} if st.facts.get(("n", x.path)) is False else x.ty.names
                        if kinds == {y.shape[1].qual} and all(
                                st.facts.get(("e", x.path, (y.shape[1].name, m))) is False for m in y.shape[1].enum_members()):
                            return []
                    if truth and y.shape[0] == "const":
                        try:
                            if y.shape[1]:
                                st.facts[("t", x.path)] = True
                                st.facts[("n", x.path)] = False
                        except Exception:
                            pass
        key = ("cmp", op, ma.src, mb.src, ma.calls | mb.calls)
        self.cmp_log.setdefault(key, (ma, mb))
        if op in ("==", "is") and st.facts.get(key, truth) != truth and a.path is not None and b.path is not None:
            return []
        st.facts[key] = truth
        return [st]

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st: St) -> list[tuple[V, St]]:
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            kids = [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
            return [(self.data(vs, s), s) for vs, s in self.ev_list(kids, st)]
        return m(n, st)

    def ev_list(self, nodes, st: St, cap=None):
        cur = [([], st)]
        for n in nodes:
            nx = []
            for vs, s in cur:
                for v, s2 in self.ev(n, s):
                    nx.append((vs + [v], s2))
            cap = cap or self.arg_cap
            if len(nx) > cap:
                k = len(nx[0][0])
                js = self.join_states([s for _, s in nx])
                nx = [([self.join_vals([(vs[i] if all(x[0][i].path == vs[i].path for x in nx) else self.mat(vs[i], s), s) for vs, s in nx]) for i in range(k)], js)]
            cur = nx
        return cur

    def e_Constant(self, n, st):
        return [(const(n.value), st)]

    def e_Name(self, n, st):
        if n.id in st.env and st.env[n.id] is not None:
            return [(st.env[n.id], st)]
        cl = st.env.get("@closure")
        while cl:
            if n.id in cl and cl[n.id] is not None:
                return [(cl[n.id], st)]
            cl = cl.get("@closure")
        return [(self.global_value(self.prog.lookup(self.stack[-1].module.name, n.id), n.id), st)]

    def global_value(self, r, name):
        if isinstance(r, FuncInfo):
            return V(shape=("func", r, None))
        if isinstance(r, ClassInfo):
            return V(shape=("class", r))
        if isinstance(r, tuple):
            if r[0] == "module":
                return V(shape=("module", r[1]))
            if r[0] == "const":
                node = r[1].consts[r[2]]
                if isinstance(node, ast.Constant):
                    return const(node.value)
                return V(shape=("gconst", r[1].name, r[2]))
            if r[0] == "enum":
                return V(shape=("enum", r[1], r[2]), ty=Ty(frozenset({r[1].qual})))
            if r[0] == "classattr":
                node = r[1].class_attrs[r[2]]
                if isinstance(node, ast.Constant):
                    return const(node.value)
                return V(shape=("gconst", r[1].qual, r[2]))
            if r[0] == "ext":
                return V(shape=("ext", r[1]))
        if name in BUILTINS:
            return V(shape=("builtin", name))
        return V(shape=("ext", name))

    def e_Attribute(self, n, st):
        out = []
        for o, s in self.ev(n.value, st):
            out += self.getattr(o, n.attr, s, n)
        return out

    def getattr(self, o: V, attr: str, st: St, node) -> list[tuple[V, St]]:
        sh = o.shape
        if sh is not None:
            if sh[0] == "module":
                return [(self.global_value(self.prog.lookup(sh[1], attr), attr), st)]
            if sh[0] == "ext":
                return [(V(shape=("ext", sh[1] + "." + attr)), st)]
            if sh[0] == "class":
                c = sh[1]
                r = self.prog.member(c, attr)
                if isinstance(r, FuncInfo):
                    if r.kind == "classmethod":
                        return [(V(shape=("bound", o, r)), st)]
                    return [(V(shape=("func", r, None)), st)]
                if r is not None:
                    return [(self.global_value(r, attr), st)]
                return [(V(), st)]
            if sh[0] == "super":
                m = sh[2]
                f = sh[1].find(attr, after=sh[3])
                if f is not None:
                    if f.kind == "property":
                        return self.call_func(f, m, [], {}, None, None, st, node)
                    return [(V(shape=("bound", m, f)), st)]
                return [(V(shape=("extbound", m, attr), src=E), st)]
            if sh[0] == "enum" and attr in ("value", "name"):
                return [(V(strs=frozenset({f"{sh[1].name}.{sh[2]}"})), st)]
        # stored attributes
        if o.path is not None:
            k = (o.path, norm(attr))
            if k in st.attrs:
                v = st.attrs[k]
                return [(v, st)]
        # class known?
        cis = self.classes_of(o, st)
        if cis:
            fs = {c.find(attr) for c in cis}
            if len(fs) == 1:
                f = next(iter(fs))
                if f is not None:
                    if f.kind == "property":
                        if f.abstract or not self.may_inline(f, prop=True, recv=o):
                            return [(self.sub(o, attr, st, self.ret_ty(f)), st)]
                        return self.call_func(f, o, [], {}, None, None, st, node, force=True)
                    if f.kind in ("static",):
                        return [(V(shape=("func", f, None)), st)]
                    return [(V(shape=("bound", o, f)), st)]
                # plain field
                if sh is not None and sh[0] == "ctor":
                    fv = self.ctor_field(o, attr, st)
                    if fv is not None:
                        return [(fv, st)]
                tys = [self.field_ty(c, attr) for c in cis]
                t = tys[0]
                for x in tys[1:]:
                    t = ty_union(t, x) if x != t else t
                ca = [c.find_class_attr(attr) for c in cis]
                return [(self.sub(o, attr, st, t), st)]
            # several implementations: opaque property or method
            real = [f for f in fs if f is not None]
            if real and all(f.kind == "property" for f in real):
                t = self.ret_ty(real[0])
                for f in real[1:]:
                    if self.ret_ty(f) != t:
                        t = ty_union(t, self.ret_ty(f))
                if all(not f.abstract for f in real) and len(real) == len(fs):
                    # virtual property with known implementations: fall through to field-like access
                    names = {self.simple_prop(f) for f in real}
                    if len(names) == 1 and None not in names:
                        return [(self.sub(o, names.pop(), st, t), st)]
                return [(self.sub(o, attr, st, t), st)]
            if real and all(f.kind in ("method", "static", "classmethod") for f in real):
                pick = next((f for f in real if not f.abstract), real[0])
                base = self.common_base_method(cis, attr) or pick
                return [(V(shape=("vbound", o, attr, base), src=E), st)]
        return [(V(shape=("attr", o, attr), **self._flow(self.sub(o, attr, st, ANY))), st)]

    def _flow(self, v: V):
        return dict(src=v.src, must=v.must, whole=v.whole, path=v.path, ty=v.ty, elem=v.elem, calls=v.calls, strs=v.strs)

    def common_base_method(self, cis, attr):
        for c in cis[0].mro():
            if attr in c.methods and all(x.is_subclass(c) for x in cis):
                best = c.methods[attr]
                return best
        return None

    def sub(self, o: V, attr: str, st: St, ty: Ty) -> V:
        """Value of attribute `attr` (as access path below o)."""
        if o.path is not None and not (len(o.path) == 1 and o.path[0].startswith("@") and o.shape is None and o.path in st.heap):
            if o.path[0].startswith("@") and o.src:
                m = self.mat(o, st)
                return V(m.src, m.must, m.whole, None, ty, None, None, m.calls | {"." + norm(attr)}, m.strs)
            p = o.path + (norm(attr),)
            v = pathv(p, ty)
            if o.path[0].startswith("@"):
                return V(path=p, ty=ty)
            return v.with_(calls=o.calls) if o.calls else v
        m = self.mat(o, st)
        return V(m.src, m.must, m.whole, None, ty, None, None, m.calls | {"." + norm(attr)}, m.strs)

    def simple_prop(self, f: FuncInfo):
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == "self":
            return body[0].value.attr
        return None

    def ret_ty(self, f: FuncInfo) -> Ty:
        if isinstance(f.node, ast.Lambda):
            return ANY
        return self.prog.ty(f.module, f.node.returns)

    def field_ty(self, c: ClassInfo, attr: str) -> Ty:
        cache = getattr(self.prog, "_field_ty", None)
        if cache is None:
            cache = self.prog._field_ty = {}
        key = (c.qual, attr)
        if key in cache:
            return cache[key]
        cache[key] = ANY
        r = ANY
        for k in c.mro():
            if attr in k.annots:
                r = self.prog.ty(k.module, k.annots[attr])
                break
            init = k.methods.get("__init__")
            found = False
            if init is not None:
                for node in ast.walk(init.node):
                    tgt = val = ann = None
                    if isinstance(node, ast.Assign) and len(node.targets) == 1:
                        tgt, val = node.targets[0], node.value
                    elif isinstance(node, ast.AnnAssign):
                        tgt, val, ann = node.target, node.value, node.annotation
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == attr:
                        if ann is not None:
                            r = self.prog.ty(k.module, ann)
                        else:
                            r = self.expr_ty(k, init, val)
                        found = True
                        break
            if found:
                break
            # property of the public name
            p = k.methods.get(attr)
            if p is not None and p.kind == "property":
                r = self.ret_ty(p)
                break
            p = k.methods.get(norm(attr))
            if p is not None and p.kind == "property" and attr.startswith("_"):
                r = self.ret_ty(p)
                break
        cache[key] = r
        return r

    def expr_ty(self, c, init, val) -> Ty:
        params = {a.arg: a for a in init.all_params()}
        if isinstance(val, ast.Name) and val.id in params:
            return self._vararg_ty(init, params[val.id])
        if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in ("tuple", "list", "frozenset", "set", "sorted", "enlist") and val.args:
            t = self.expr_ty(c, init, val.args[0])
            return Ty(frozenset({val.func.id}), t.elem, t.val)
        if isinstance(val, ast.IfExp):
            a, b = self.expr_ty(c, init, val.body), self.expr_ty(c, init, val.orelse)
            if a.names is None:
                return b
            if b.names is None:
                return a
            return ty_union(a, b)
        if isinstance(val, ast.BoolOp):
            return self.expr_ty(c, init, val.values[0])
        if isinstance(val, ast.Call):
            r = self.prog.resolve_dotted(init.module.name, val.func)
            if isinstance(r, ClassInfo):
                return Ty(frozenset({r.qual}))
            if isinstance(r, FuncInfo):
                return self.ret_ty(r)
        if isinstance(val, ast.Constant):
            return _const_ty(val.value)
        return ANY

    def classes_of(self, o: V, st: St) -> list[ClassInfo]:
        if o.shape is not None and o.shape[0] == "ctor":
            return [o.shape[1]]
        ts = None
        if o.path is not None and ("T", o.path) in st.facts:
            ts = st.facts[("T", o.path)]
        elif o.ty.names is not None:
            ts = o.ty.names
        if ts is None:
            return []
        ts = [t for t in ts if t != "None"]
        cs = [self.prog.class_of_qual(t) for t in ts]
        if not cs or any(c is None for c in cs):
            return []
        return cs

    def ctor_fields(self, c: ClassInfo) -> dict[str, tuple]:
        """field -> ('param', name) | ('params', [names]) derived from the constructor."""
        cache = getattr(self.prog, "_ctor_fields", None)
        if cache is None:
            cache = self.prog._ctor_fields = {}
        if c.qual in cache:
            return cache[c.qual]
        out: dict[str, tuple] = {}
        if c.is_dataclass() or c.is_namedtuple():
            for n, _ in c.record_fields():
                out[norm(n)] = ("param", n)
        else:
            init = c.find("__init__")
            if init is not None:
                params = {a.arg for a in init.all_params()}
                for node in ast.walk(init.node):
                    tgts, val = [], None
                    if isinstance(node, ast.Assign):
                        tgts, val = node.targets, node.value
                    elif isinstance(node, ast.AnnAssign) and node.value is not None:
                        tgts, val = [node.target], node.value
                    for t in tgts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            if isinstance(val, ast.Name) and val.id in params:
                                out.setdefault(norm(t.attr), ("param", val.id))
                            else:
                                out.setdefault(norm(t.attr), ("params", [x.id for x in ast.walk(val) if isinstance(x, ast.Name) and x.id in params]))
        cache[c.qual] = out
        return out

    def ctor_field(self, o: V, attr, st):
        fs = self.ctor_fields(o.shape[1])
        args = o.shape[2]
        f = fs.get(norm(attr))
        if f is None:
            return None
        if f[0] == "param":
            if f[1] in args:
                return args[f[1]]
            c = o.shape[1]
            d = dict(c.record_fields()).get(f[1]) if c.is_dataclass() or c.is_namedtuple() else _default_of(c.find("__init__"), f[1])
            return const(d.value) if isinstance(d, ast.Constant) else V()
        return self.data([args[n] for n in f[1] if n in args], st)

    # -- calls -------------------------------------------------------------------------------------
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            for f in reversed(self.stack):
                g = f
                while g is not None and g.cls is None:
                    g = g.outer
                if g is not None:
                    selfname = g.arg_names()[0] if g.arg_names() else "self"
                    sv = st.env.get(selfname, V())
                    cs = self.classes_of(sv, st) or [g.cls]
                    return [(V(shape=("super", cs[0], sv, g.cls)), st)]
        out = []
        for fv, s in self.ev(n.func, st):
            posn = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            for vs, s2 in self.ev_list(posn, s):
                kwn = [k.value for k in n.keywords]
                for kvs, s3 in self.ev_list(kwn, s2):
                    args, star = [], None
                    for a, v in zip(n.args, vs):
                        if isinstance(a, ast.Starred):
                            m = self.mat(v, s3)
                            if m.shape is not None and m.shape[0] == "seq" and star is None:
                                args += m.shape[1]
                            else:
                                star = v if star is None else self.data([star, v], s3)
                        elif star is None:
                            args.append(v)
                        else:
                            star = self.data([star, v], s3)
                    kwargs, dstar = {}, None
                    for k, v in zip(n.keywords, kvs):
                        if k.arg is None:
                            m = self.mat(v, s3)
                            if m.shape is not None and m.shape[0] == "dict" and all(isinstance(x, str) and x != "*" for x in m.shape[1]):
                                kwargs.update(m.shape[1])
                            else:
                                dstar = v if dstar is None else self.data([dstar, v], s3)
                        else:
                            kwargs[k.arg] = v
                    out += self.call(fv, args, kwargs, star, dstar, s3, n)
        if len(out) > self.cap:
            js = self.join_states([s for _, s in out])
            out = [(self.join_vals([(self.mat(v, s), s) for v, s in out]), js)]
        return out

    def union(self, vs, node, st: St):
        """A combination of mappings in which later ones take precedence."""
        self.log.append((Event("@union", None, None, [self.mat(v, st) for v in vs], {}, node, self.stack[-1] if self.stack else None), dict(st.facts), st.tested))

    def event(self, st: St, e: Event):
        if e.cls is None:
            e.m = {**{i: self.mat(v, st) for i, v in enumerate(e.args)}, **{k: self.mat(v, st) for k, v in e.kwargs.items()}}
        st.events = st.events + (e,)
        self.log.append((e, dict(st.facts), st.tested))

    def call(self, fv: V, args, kwargs, star, dstar, st: St, node) -> list[tuple[V, St]]:
        sh = fv.shape
        allargs = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        if sh is not None:
            k = sh[0]
            if k == "func":
                return self.call_func(sh[1], None, args, kwargs, star, dstar, st, node, closure_env=sh[2])
            if k == "bound":
                return self.call_func(sh[2], sh[1], args, kwargs, star, dstar, st, node)
            if k == "class":
                return self.construct(sh[1], args, kwargs, star, dstar, st, node)
            if k == "partial":
                return self.call(sh[1], sh[2] + args, {**sh[3], **kwargs}, star, dstar, st, node)
            if k == "builtin":
                return self.call_builtin(sh[1], args, kwargs, star, dstar, st, node)
            if k == "ext":
                return self.call_ext(sh[1], args, kwargs, star, dstar, st, node)
            if k == "vbound":
                return self.call_opaque(sh[2], sh[3], sh[1], args, kwargs, star, dstar, st, node)
            if k == "attr" or k == "extbound":
                return self.call_method(sh[1], sh[2], args, kwargs, star, dstar, st, node)
        # calling an unknown value: callback
        self.event(st, Event("@callback", None, fv, args, kwargs, node, self.stack[-1], star, dstar))
        if self.results is not None:
            known = self.results(self, "@callback", fv, args, kwargs, st)
            if known is not None:
                return known
        m = self.data([fv] + allargs, st, calls={"@callback"} | ({"@cb:" + ".".join(fv.path)} if fv.path else set()))
        self.escape(allargs, st)
        return [(m, st)]

    def may_inline(self, f: FuncInfo, prop=False, recv=None) -> bool:
        if self.stack.count(f) > self.recursion or len(self.stack) > self.max_depth or f.abstract:
            return False
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.qual in self.force or f.name in self.force:
            return True
        if self.inline_hook is not None:
            r = self.inline_hook(self, f, recv)
            if r is not None:
                return r
        if prop or isinstance(f.node, ast.Lambda) or f.outer is not None:
            return True
        if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
            return True
        return False

    def call_func(self, f: FuncInfo, recv: Optional[V], args, kwargs, star, dstar, st: St, node, closure_env=None, force=False):
        nm = f.name
        self.event(st, Event(nm, f, recv, args, kwargs, node, self.stack[-1], star, dstar))
        if self.result_hook is not None and (r := self.result_hook(self, f, args)) is not None:
            return [(r, st)]
        choice = self.arg_hook(self, f, [*args, *kwargs.values()]) if self.arg_hook is not None else None
        if choice is False or not (force or choice or self.may_inline(f, recv=recv)) or self.stack.count(f) > self.recursion:
            return self.call_opaque(nm, f, recv, args, kwargs, star, dstar, st, node, quiet=True)
        env = self.bind(f, recv, args, kwargs, star, dstar, st)
        env["@closure"] = closure_env
        saved = st.env
        outs = self._exec_func(f, env, st.copy())
        rets = []
        for k, v, s in outs:
            if k != "return":
                continue
            rets.append((v, s))
        res = []
        if len(rets) > self.call_cap:
            js = self.join_states([s for _, s in rets])
            same = all(v.path == rets[0][0].path for v, _ in rets)
            v = self.join_vals([(v if same else self.mat(v, s), s) for v, s in rets])
            rets = [(v, js)]
        rt = self.ret_ty(f)
        for v, s in rets:
            s2 = St(saved if len(rets) == 1 else dict(saved), s.facts, s.heap, s.attrs, s.tested, s.events)
            if len(rets) == 1:
                s2.env = dict(saved)
            if v.ty.names is None and rt.names is not None and v.shape is None:
                v = v.with_(ty=rt)
            res.append((v, s2))
        return res

    def bind(self, f: FuncInfo, recv, args, kwargs, star, dstar, st) -> dict:
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        anns = {x.arg: x for x in a.posonlyargs + a.args + a.kwonlyargs}
        pos = list(args)
        if f.cls is not None and f.kind in ("method", "property", "classmethod", "setter") and recv is not None:
            pos = [recv] + pos
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for kn, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[kn.arg] = d
        kw = dict(kwargs)
        allnames = names + [x.arg for x in a.kwonlyargs]
        for i, n in enumerate(names):
            if i < len(pos):
                env[n] = pos[i]
        extra = pos[len(names):]
        if a.vararg is not None:
            vs = extra + ([star] if star is not None else [])
            cv = self.data(vs, st) if vs else V()
            if star is None:
                al = self.new_alloc(st, cv.with_(shape=("seq", list(extra)), elem=None))
            elif not extra:
                al = star
            else:
                al = self.new_alloc(st, cv)
            env[a.vararg.arg] = al
        for n in list(kw):
            if n in allnames:
                env[n] = kw.pop(n)
        for n in allnames:
            if n not in env:
                if star is not None and n in names:
                    env[n] = self.iter_elem(star, st)
                elif dstar is not None:
                    env[n] = self.data([dstar], st)
                elif n in defaults:
                    d = defaults[n]
                    env[n] = self.default_value(f, d)
                else:
                    env[n] = V()
        if a.kwarg is not None:
            vs = list(kw.values()) + ([dstar] if dstar is not None else [])
            if not kw and dstar is not None:
                env[a.kwarg.arg] = dstar
            else:
                cv = self.data(vs, st) if vs else V()
                env[a.kwarg.arg] = self.new_alloc(st, cv.with_(shape=("dict", {k: v for k, v in kw.items()}) if dstar is None else None))
        for n in allnames:
            v = env[n]
            if v.ty.names is None and v.shape is None and n in anns:
                t = self._vararg_ty(f, anns[n])
                if t.names is not None:
                    env[n] = v.with_(ty=t)
        return env

    def default_value(self, f: FuncInfo, d) -> V:
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_dotted(f.module.name, d)
            if r is not None:
                return self.global_value(r, ast.unparse(d))
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            return const(-d.operand.value)
        return V()

    def call_opaque(self, name, f: Optional[FuncInfo], recv, args, kwargs, star, dstar, st, node, quiet=False):
        if not quiet:
            self.event(st, Event(name, f, recv, args, kwargs, node, self.stack[-1], star, dstar))
        if self.results is not None:
            known = self.results(self, name, recv, args, kwargs, st)
            if known is not None:
                return known
        vals = ([recv] if recv is not None and (f is None or f.kind != "static") else []) + list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        ty = self.ret_ty(f) if f is not None else ANY
        self.escape(vals, st)
        if self.lossy is not None and recv is not None and self.lossy(self, name, recv, st):
            return [self._lose(name, recv, vals, ty, st)]
        if recv is not None and not args and not kwargs and star is None and dstar is None and recv.path is not None and not recv.path[0].startswith("@"):
            v = pathv(recv.path + (name + "()",), ty)
            extra = self.mat(recv, st)
            return [(V(v.src | extra.src, v.must | extra.must, v.whole | extra.whole, v.path, ty, None, None, extra.calls | {name}, extra.strs), st)]
        return [(self.data(vals, st, calls={name}, ty=ty), st)]

    def _lose(self, name, recv, vals, ty, st):
        m = self.mat(recv, st)
        if recv.path is not None and not recv.path[0].startswith("@") and len(vals) <= 1:
            v = pathv(recv.path + (f"!{name}()",), ty)
            return V(v.src | m.src, v.must, v.whole, v.path, ty, None, None, m.calls | {name}, m.strs), st
        d = self.data(vals, st, calls={name}, ty=ty)
        return d.with_(must=E, whole=E), st

    def escape(self, vals, st):
        """Containers handed to unknown code may be extended with anything reachable from the other arguments."""
        allocs = [v for v in vals if v.path is not None and len(v.path) == 1 and v.path in st.heap]
        if not allocs:
            return
        others = [v for v in vals]
        if len(others) < 2:
            return
        for a in allocs:
            old = st.heap[a.path]
            rest = comb([self.mat(v, st) for v in others if v is not a] or [V()])
            if rest.src <= old.src and not rest.calls:
                continue
            st.heap[a.path] = V(old.src | rest.src, old.must, old.whole, None, old.ty, old.shape, old.elem, old.calls | rest.calls, old.strs | rest.strs)

    def construct(self, c: ClassInfo, args, kwargs, star, dstar, st, node):
        init = c.find("__init__")
        names = []
        fi = None
        if c.is_dataclass() or c.is_namedtuple():
            names = [n for n, _ in c.record_fields()]
        elif init is not None:
            fi = init
            names = init.arg_names()[1:]
        ev = Event(c.name, fi, None, args, kwargs, node, self.stack[-1], star, dstar, cls=c)
        self.event(st, ev)
        m = dict(zip(names, args))
        if len(args) > len(names):
            va = init.node.args.vararg.arg if init is not None and init.node.args.vararg else "*"
            m[va] = self.data(args[len(names):], st)
        if star is not None:
            for n in names[len(args):]:
                if n not in kwargs:
                    m[n] = self.data([star], st)
            if not names[len(args):]:
                m["*"] = self.data([star], st)
        m.update(kwargs)
        if dstar is not None:
            m["**"] = self.data([dstar], st)
        m = {k: self.mat(v, st) if (v.path is not None and v.path[0].startswith("@") and v.path in st.heap) else v for k, v in m.items()}
        ev.m = m
        cv = self.data(list(m.values()), st)
        p = (f"@{next(self.alloc)}",)
        if self.made is not None and (mk := self.made(self, c, st)) is not None:
            # the creation is tracked like a value of its own
            cv = V(cv.src | {mk}, cv.must | {mk}, cv.whole | {mk}, None, cv.ty, None, None, cv.calls, cv.strs)
            st = st.copy()
            st.facts[("made", mk)] = True
        return [(V(cv.src, cv.must, cv.whole, p, Ty(frozenset({c.qual})), ("ctor", c, m), None, cv.calls | {c.name}, cv.strs), st)]

    def call_method(self, o: V, name, args, kwargs, star, dstar, st: St, node):
        """Method of a value whose class is not known (or an external class)."""
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        self.event(st, Event(name, None, o, args, kwargs, node, self.stack[-1], star, dstar))
        if self.results is not None:
            known = self.results(self, name, o, args, kwargs, st)
            if known is not None:
                return known
        m = self.mat(o, st)
        if name == "update":
            self.union([o] + list(args), node, st)
        if name in MUTATORS and (o.path is not None):
            if name in ADDERS:
                spread = name in ("update", "extend", "extendleft", "add_edges_from", "add_nodes_from")
                if name == "update" and kwargs and not args:
                    for kk, vv in kwargs.items():
                        self.add_to(o, [vv], st, key=const(kk))
                elif name == "setdefault" and len(args) == 2:
                    self.add_to(o, [args[1]], st, key=args[0])
                elif name == "insert":
                    old = st.heap.get(o.path) if o.path is not None else None
                    self.add_to(o, args[1:], st)
                    new = st.heap.get(o.path) if o.path is not None else None
                    if len(args) == 2 and is_const(args[0]) and isinstance(args[0].shape[1], int) and old is not None and old.shape is not None \
                            and old.shape[0] == "seq" and new is not None:
                        i = args[0].shape[1]
                        seq = list(old.shape[1])
                        seq.insert(i, args[1])
                        st.heap[o.path] = new.with_(shape=("seq", seq))
                else:
                    self.add_to(o, vals, st, spread=spread)
            if name in ("pop", "popleft", "setdefault"):
                return [(self.iter_elem(o, st) if name != "setdefault" else self.data([o] + vals, st), st)]
            return [(const(None) if name in ("append", "add", "extend", "update", "insert", "sort", "reverse", "clear", "remove", "discard", "appendleft") else self.data([o] + vals, st), st)]
        if name in ADDERS and isinstance(getattr(node, "func", None), ast.Attribute) and isinstance(node.func.value, ast.Subscript):
            # an entry of a local container grows
            base = node.func.value
            while isinstance(base, ast.Subscript):
                base = base.value
            bv = st.env.get(base.id) if isinstance(base, ast.Name) else None
            if bv is not None and bv.path is not None and len(bv.path) == 1 and bv.path in st.heap:
                self.add_to(bv, [self.data(vals, st)], st)
                return [(const(None), st)]
        if name in MUTATORS and isinstance(getattr(node, "func", None), ast.Attribute) and isinstance(node.func.value, ast.Name) and name in ADDERS:
            st.env[node.func.value.id] = self.data([o] + vals, st, ty=o.ty)
            return [(const(None), st)]
        if name in ("copy",) and not vals:
            c = self.mat(o, st)
            el = self.iter_elem(o, st)
            return [(self.new_alloc(st, V(c.src, c.must, c.whole, None, o.ty, c.shape, el, c.calls | {"copy"}, c.strs), o.ty), st)]
        if name in ("items", "values", "keys") and not vals:
            if o.path is not None and not o.path[0].startswith("@"):
                return [(pathv(o.path + (name + "()",), o.ty).with_(calls=o.calls), st)]
            if m.shape is not None and m.shape[0] == "dict":
                items = m.shape[1]
                if not items and len(m.shape) > 2:
                    return [(V(shape=("seq", [], True)), st)]
                if name == "values":
                    el = None
                    for x in items.values():
                        el = x if el is None else self._elem2(el, x, st)
                    return [(comb([m]).with_(elem=el or m.elem), st)]
                if name == "items":
                    el = None
                    for kk, x in items.items():
                        el = x if el is None else self._elem2(el, x, st)
                    e2 = V(m.src, m.must, m.whole, None, ANY, ("seq", [comb([m]).with_(src=m.src), el or comb([m])]), None, m.calls, m.strs)
                    return [(comb([m]).with_(elem=e2), st)]
            el = m.elem
            if name == "items":
                e2 = V(m.src, m.must, m.whole, None, ANY, ("seq", [comb([m]), el if el is not None else comb([m])]), None, m.calls, m.strs)
                return [(comb([m]).with_(elem=e2), st)]
            return [(comb([m]).with_(elem=el if name == "values" else None), st)]
        if name in ("get",) and args and o.shape is not None and o.shape[0] == "gconst":
            t = self._table_item(o, args[0], st, args[1] if len(args) > 1 else const(None))
            if t is not None:
                return [(t, st)]
            return [(self.data(args, st).with_(calls=args[0].calls | {o.shape[2]}), st)]
        if name in ("get",) and args:
            if o.path is not None and not o.path[0].startswith("@"):
                kk = args[0]
                if is_const(kk):
                    known = st.attrs.get((o.path, f"[{kk.shape[1]!r}]"))
                    if known is not None:
                        return [(known, st)]
                    base = pathv(o.path + (f"[{kk.shape[1]!r}]",), o.ty.val or ANY)
                    dv = self.mat(args[1], st) if len(args) >= 2 else None
                    empty = dv is not None and (dv.path is None or dv.path[0].startswith("@")) and dv.shape is not None and dv.shape[0] in ("seq", "dict") and not dv.shape[1]
                    return [(base if len(args) < 2 or is_const(args[1]) or empty else self.data([base] + args[1:], st), st)]
                v = self.data([o] + vals, st, calls={"get"}, ty=o.ty.val or ANY)
                return [(v, st)]
            if m.shape is not None and m.shape[0] == "dict" and is_const(args[0]) and _k(args[0].shape[1]) in m.shape[1]:
                return [(m.shape[1][_k(args[0].shape[1])], st)]
            return [(self.data([o] + vals, st, calls={"get"}), st)]
        if name == "join":
            d = self.data([o] + vals, st)
            if len(vals) == 1:
                mv = self.mat(vals[0], st)
                bases = frozenset(q[:q.index("*")] if "*" in q else q for q in mv.src if not q[0].startswith("@"))
                d = d.with_(shape=("join", bases), ty=Ty(frozenset({"str"})))
            return [(d, st)]
        if name == "format":
            return [(self.data([o] + vals, st), st)]
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            d = self.data([o] + vals, st, calls={name} if name != "union" else E)
            el = self.iter_elem(o, st)
            for v in vals:
                e2 = self.iter_elem(v, st)
                el = self._elem2(el, e2, st)
            return [(d.with_(elem=el), st)]
        self.escape([o] + vals, st)
        if self.lossy is not None and self.lossy(self, name, o, st):
            return [self._lose(name, o, [o] + vals, ANY, st)]
        if not vals and o.path is not None and not o.path[0].startswith("@"):
            v = pathv(o.path + (name + "()",))
            return [(V(v.src | m.src, v.must | m.must, v.whole | m.whole, v.path, ANY, None, None, m.calls | {name}, m.strs), st)]
        return [(self.data([o] + vals, st, calls={name}), st)]

    def call_ext(self, name, args, kwargs, star, dstar, st, node):
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        tail = name.split(".")[-1]
        self.event(st, Event(name, None, None, args, kwargs, node, self.stack[-1], star, dstar))
        if self.results is not None:
            known = self.results(self, name, None, args, kwargs, st)
            if known is not None:
                return known
        if tail in ("copy", "deepcopy") and name.startswith("copy") and args:
            c = self.mat(args[0], st)
            o = args[0]
            el = self.iter_elem(o, st) if (o.ty.elem or o.ty.val or c.elem) else c.elem
            if self.classes_of(o, st):
                return [(V(c.src, c.must, c.whole, (f"@{next(self.alloc)}",), o.ty, ("ctor", self.classes_of(o, st)[0], {"**": comb([c])}), None, c.calls | {tail}, c.strs), st)]
            return [(self.new_alloc(st, V(c.src, c.must, c.whole, None, o.ty, c.shape, el, c.calls | {tail}, c.strs), o.ty), st)]
        if tail == "partial" and args:
            return [(V(shape=("partial", args[0], list(args[1:]), dict(kwargs)), **{k: v for k, v in self._flow(self.data(vals, st)).items() if k not in ("path", "ty", "elem")}), st)]
        if tail in ("chain", "from_iterable"):
            el = None
            for v in args:
                e = self.iter_elem(v, st)
                if tail == "from_iterable":
                    e = self.iter_elem(e, st)
                el = e if el is None else self._elem2(el, e, st)
            return [(self.data(vals, st).with_(elem=el), st)]
        if tail in ("deque", "defaultdict", "OrderedDict", "Counter"):
            return self.call_builtin("list" if tail == "deque" else "dict", [a for a in args] if tail != "defaultdict" else args[1:], kwargs, star, dstar, st, node)
        self.escape(vals, st)
        if tail in ("isnan", "isinf", "isfinite") and len(vals) == 1 and vals[0].path is not None and not vals[0].path[0].startswith("@"):
            d = self.data(vals, st, calls={tail})
            return [(V(d.src, d.must, d.whole, vals[0].path + (tail + "()",), Ty(frozenset({"bool"})), None, None, d.calls, d.strs), st)]
        return [(self.data(vals, st, calls={tail}), st)]

    def call_builtin(self, name, args, kwargs, star, dstar, st, node):
        if name in ("reversed", "range"):
            self.event(st, Event("@" + name, None, None, args, kwargs, node, self.stack[-1], star, dstar))
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        if name == "isinstance" and len(args) == 2:
            cs = self._class_list(args[1], st, node)
            if cs is not None:
                return [(V(src=self.mat(args[0], st).src, shape=("isinst", args[0], cs)), st)]
            return [(self.data(args[:1], st), st)]
        if name == "type":
            if self.exact_types and len(args) == 1 and args[0].path is not None:
                ts = st.facts.get(("T", args[0].path), ())
                c = self.prog.class_of_qual(next(iter(ts))) if len(ts) == 1 else None
                if c is not None:
                    return [(V(shape=("class", c)), st)]
            return [(V(calls=frozenset({"type"})), st)]
        if name in BUILTIN_WRAP:
            if not args and not kwargs:
                return [(self.new_alloc(st, V(shape=("dict", {}) if name == "dict" else ("seq", [])), Ty(frozenset({name}))), st)]
            src = args[0] if args else None
            if name == "dict" and kwargs and not args:
                return [(self.new_alloc(st, self.data(list(kwargs.values()), st).with_(shape=("dict", dict(kwargs))), Ty(frozenset({"dict"}))), st)]
            c = self.mat(src, st)
            el = self.iter_elem(src, st)
            t = src.ty
            ty = Ty(frozenset({name}), el.ty if el is not None and el.ty.names else t.elem, t.val)
            tag = {name} if name in ("sorted", "set", "frozenset") else set()
            extra = [self.mat(x, st) for x in vals[1:]] if name != "dict" else [self.mat(x, st) for x in vals[1:]]
            cc = comb([c] + extra)
            if name == "dict":
                el = c.elem if c.elem is not None else (pathv(src.path + ("*",), t.val or ANY) if src.path is not None and not src.path[0].startswith("@") else None)
                shape = c.shape
                return [(self.new_alloc(st, V(cc.src, cc.must, cc.whole, None, ty, shape, el, cc.calls | {"dict"}, cc.strs), Ty(frozenset({"dict"}), t.elem, t.val)), st)]
            shape = c.shape if c.shape is not None and c.shape[0] == "seq" and (name in ("list", "tuple") or self.quantify and name in ("set", "frozenset")) else None
            content = V(cc.src, cc.must, cc.whole, None, ty, shape, el, cc.calls | tag, cc.strs)
            return [(self.new_alloc(st, content, ty), st)]
        if name in ("any", "all"):
            d = self.data(vals, st, calls={name})
            shape = None
            if self.quantify and args:
                # decided by the representative element (the iterable is not empty), filtered iterables are empty
                m = self.mat(args[0], st)
                if m.shape is not None and m.shape[0] == "seq":
                    ts = {self.truth(x, st) for x in m.shape[1]}
                    stop = name == "any"
                    t = stop if stop in ts else None if None in ts else not stop
                else:
                    t = self.truth(self.iter_elem(args[0], st), st) if self._has_elem(args[0], st) else (name == "all")
                shape = None if t is None else ("const", t)
            elif args:
                m = self.mat(args[0], st)
                if m.shape is not None and m.shape[0] == "seq" and m.shape[1]:
                    ts = {self.truth(x, st) for x in m.shape[1]}
                    stop = name == "any"
                    t = stop if stop in ts else None if None in ts else not stop
                    shape = None if t is None else ("const", t)
            return [(V(d.src, d.must, d.whole, None, ANY, shape, None, d.calls, d.strs), st)]
        if self.exact_lists and name in ("enumerate", "zip", "range") and args:
            if name == "range":
                if all(is_const(a) and isinstance(a.shape[1], int) for a in args) and len(r := range(*[a.shape[1] for a in args])) <= 14:
                    return [(V(shape=("seq", [const(i) for i in r]) if r else ("seq", [], True)), st)]
            else:
                cols = [self._exact_items(a, st) for a in (args if name == "zip" else args[:1])]
                if all(c is not None for c in cols) and (name == "zip" or len(args) == 1 and not kwargs):
                    rows = [list(t) for t in zip(*cols)] if name == "zip" else [[const(i), x] for i, x in enumerate(cols[0])]
                    return [(self.data(args, st).with_(path=None, shape=("seq", [comb([self.mat(y, st) for y in t]).with_(path=None, shape=("seq", t)) for t in rows])), st)]
        if name == "enumerate" and args:
            e = self.iter_elem(args[0], st)
            t = self.mat(e, st)
            el = V(t.src, t.must, t.whole, None, ANY, ("seq", [V(), e]), None, t.calls, t.strs)
            return [(self.data(args, st).with_(elem=el), st)]
        if name == "zip" and args:
            es = [self.iter_elem(a, st) for a in args]
            c = self.data(es, st)
            return [(self.data(args, st).with_(elem=c.with_(shape=("seq", es))), st)]
        if name in ("map", "filter") and len(args) >= 2:
            e = self.iter_elem(args[1], st)
            rs = self.call(args[0], [e] + [self.iter_elem(a, st) for a in args[2:]], {}, None, None, st, node)
            js = self.join_states([s for _, s in rs]) if rs else st
            if name == "map":
                v = self.join_vals([(self.mat(v, s), s) for v, s in rs]) if rs else V()
                return [(comb([v]).with_(elem=v), js)]
            base = self.data([args[1]], js)
            if rs and all(self.truth(v, s) is False for v, s in rs):
                return [(V(shape=("seq", [], True)), js)]
            return [(V(base.src, E, E, None, args[1].ty, None, e, base.calls | {"filter"}, base.strs), js)]
        if name in ("next", "min", "max") and args:
            d = self.data(vals, st, calls={name})
            if name == "next":
                e = self.iter_elem(args[0], st)
                return [(self.data([e] + vals[1:], st, calls={"next"}, ty=e.ty), st)]
            return [(d, st)]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1].shape[1], str):
            return self.getattr(args[0], args[1].shape[1], st, node)
        if name == "bool" and self.quantify and len(args) == 1 and self.truth(args[0], st) is not None:
            return [(const(self.truth(args[0], st)), st)]
        if name == "len" and self.results is not None:
            known = self.results(self, name, None, args, kwargs, st)
            if known is not None:
                return known
        if name in ("str", "repr", "hash", "len", "bool", "int", "float", "abs", "round", "sum", "id", "format"):
            if len(vals) == 1 and vals[0].path is not None and not vals[0].path[0].startswith("@"):
                m = self.mat(vals[0], st)
                v = pathv(vals[0].path + (name + "()",))
                return [(V(v.src | m.src, v.must | m.must, v.whole | m.whole, v.path if name in ("len", "bool") else None, ANY, None, None, m.calls | ({name} if name in ("len", "hash", "id", "abs", "round") else set()), m.strs), st)]
            return [(self.data(vals, st, calls={name} if name in ("len", "id", "abs", "round") else E), st)]
        if name == "setattr" and len(args) == 3 and not is_const(args[1]):
            self.event(st, Event("@setattr", None, args[0], list(args[1:]), {}, node, self.stack[-1] if self.stack else None))
        if name == "setattr" and len(args) == 3 and args[0].path is not None and is_const(args[1]):
            st.attrs[(args[0].path, norm(str(args[1].shape[1])))] = args[2]
            return [(const(None), st)]
        if name == "locals":
            d = {k: v for k, v in st.env.items() if isinstance(v, V) and not k.startswith("@")}
            return [(self.data(list(d.values()), st).with_(shape=("dict", d)), st)]
        if name == "vars" and args:
            return [(self.data(args, st), st)]
        self.escape(vals, st)
        if name in ("print", "range"):
            return [(self.data(vals, st), st)]
        return [(self.data(vals, st, calls={name}), st)]

    def _class_list(self, v: V, st, node):
        """Classes named by the second argument of isinstance."""
        a = node.args[1] if isinstance(node, ast.Call) and len(node.args) == 2 else None
        if a is None:
            return None
        elts = a.elts if isinstance(a, ast.Tuple) else _unor(a)
        out = []
        if len(elts) == 1 and isinstance(elts[0], ast.Name) and elts[0].id in st.env:
            vs = [v]
            m = self.mat(v, st)
            if m.shape is not None and m.shape[0] == "seq":
                vs = m.shape[1]
            for x in vs:
                if x.shape is not None and x.shape[0] == "class":
                    out.append(x.shape[1])
                elif x.shape is not None and x.shape[0] == "ext":
                    out.append("None" if x.shape[1].split(".")[-1] == "NoneType" else x.shape[1])
                else:
                    return None
            return out
        for e in elts:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and e.args:
                for o, s in self.ev(e.args[0], st)[:1]:
                    cs = self.classes_of(o, st)
                    if len(cs) == 1:
                        out.append(cs[0])
                    else:
                        return None
                continue
            r = self.prog.resolve_dotted(self.stack[-1].module.name, e)
            if isinstance(r, ClassInfo):
                out.append(r)
            elif isinstance(r, tuple) and r[0] in ("const", "alias"):
                t = self.prog.ty(r[1], r[1].consts.get(r[2]) or r[1].type_aliases.get(r[2]))
                if t.names is None:
                    return None
                for q in t.names:
                    out.append(self.prog.class_of_qual(q) or q)
            elif isinstance(r, tuple) and r[0] == "ext":
                out.append("None" if r[1].split(".")[-1] == "NoneType" else r[1])
            elif isinstance(e, ast.Name) and r is None and e.id not in st.env:
                out.append(e.id)
            elif isinstance(e, ast.Constant) and e.value is None:
                out.append("None")
            else:
                return None
        return out

    # -- operators ---------------------------------------------------------------------------------
    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [(None, st)]
        res = []
        for i, sub in enumerate(n.values):
            nx = []
            for _, s in cur:
                for v, s2 in self.ev(sub, s):
                    if i == len(n.values) - 1:
                        res.append((v, s2))
                        continue
                    for f in self.assume(v, not is_and, s2.copy()):
                        res.append((v if not is_and else self._falsy(v), f))
                    for t in self.assume(v, is_and, s2.copy()):
                        nx.append((v, t))
            cur = nx
            if len(cur) > self.arg_cap:
                cur = [(None, self.join_states([s for _, s in cur]))]
            if not cur:
                break
        return res

    def _falsy(self, v: V) -> V:
        if v.shape is not None and v.shape[0] in ("isinst", "cmp", "not"):
            return const(False)
        return v

    def e_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                if is_const(v):
                    out.append((const(not v.shape[1]), s))
                else:
                    m = self.mat(v, s)
                    out.append((V(m.src, m.must, m.whole, None, Ty(frozenset({"bool"})), ("not", v), None, m.calls, m.strs), s))
            elif is_const(v) and isinstance(n.op, ast.USub) and isinstance(v.shape[1], (int, float)):
                out.append((const(-v.shape[1]), s))
            else:
                out.append((self.data([v], s, calls={"-"}), s))
        return out

    def e_BinOp(self, n, st):
        out = []
        for (a, b), s in self.ev_list([n.left, n.right], st):
            if is_const(a) and is_const(b) and isinstance(n.op, ast.Add) and isinstance(a.shape[1], str) and isinstance(b.shape[1], str):
                out.append((const(a.shape[1] + b.shape[1]), s))
                continue
            if isinstance(n.op, ast.Add) and (_strlike(a) or _strlike(b)):
                parts = _fmt_parts(a) + _fmt_parts(b)
                d = self.data([a, b], s)
                out.append((d.with_(shape=("fmt", parts, _fmt_nonempty(parts)), ty=Ty(frozenset({"str"}))), s))
                continue
            ma, mb = self.mat(a, s), self.mat(b, s)
            if isinstance(n.op, ast.BitOr) and all(x.shape is not None and x.shape[0] in ("gconst", "gunion") for x in (ma, mb)):
                tabs = [y for x in (ma, mb) for y in (x.shape[1] if x.shape[0] == "gunion" else [x.shape])]
                out.append((self.data([a, b], s).with_(shape=("gunion", tabs)), s))
                continue
            if isinstance(n.op, ast.BitOr):
                self.union([ma, mb], n, s)
            if self.quantify:
                r = self._set_algebra(type(n.op).__name__, a, ma, mb, s)
                if r is not None:
                    out.append((r, s))
                    continue
            if isinstance(n.op, (ast.Add, ast.BitOr)) and (self._contlike(a, ma) or self._contlike(b, mb)):
                d = comb([ma, mb])
                ea, eb = self.iter_elem(a, s), self.iter_elem(b, s)
                shape = None
                if ma.shape is not None and mb.shape is not None and ma.shape[0] == mb.shape[0] == "seq":
                    shape = ("seq", ma.shape[1] + mb.shape[1])
                if ma.shape is not None and mb.shape is not None and ma.shape[0] == mb.shape[0] == "dict":
                    shape = ("dict", {**ma.shape[1], **mb.shape[1]})
                al = self.new_alloc(s, d.with_(elem=self._elem2(ea, eb, s), shape=shape), a.ty)
                out.append((al, s))
                continue
            if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.Mult)):
                ev = Event("@binop", None, None, [a, b], {}, n, self.stack[-1])
                ev.m = {0: ma, 1: mb, "op": type(n.op).__name__}
                self.log.append((ev, dict(s.facts), s.tested))
            if isinstance(n.op, (ast.Sub, ast.BitAnd)):
                # the right operand only filters
                opn = type(n.op).__name__
                out.append((V(ma.src | mb.src, ma.must | mb.must, ma.whole | mb.whole, None, a.ty, None, ma.elem, ma.calls | mb.calls | {"op" + opn}, ma.strs | mb.strs), s))
                continue
            out.append((self.data([a, b], s, calls={"op" + type(n.op).__name__} if not isinstance(n.op, (ast.Add, ast.BitOr, ast.Mod)) else E), s))
        return out

    def _set_algebra(self, op, a: V, ma: V, mb: V, st: St) -> Optional[V]:
        """Union, intersection, difference of sets whose elements are all known."""
        if op not in ("BitOr", "BitAnd", "BitXor", "Sub"):
            return None
        for m in (ma, mb):
            if m.shape is None or m.shape[0] != "seq" or not all(x.path is not None and not x.path[0].startswith("@") for x in m.shape[1]):
                return None
        left, right = {x.path for x in ma.shape[1]}, {x.path for x in mb.shape[1]}
        keep = {"BitOr": left | right, "BitAnd": left & right, "BitXor": left ^ right, "Sub": left - right}[op]
        items = list({x.path: x for x in ma.shape[1] + mb.shape[1] if x.path in keep}.values())
        d = comb(items) if items else V()
        return self.new_alloc(st, V(d.src, d.must, d.whole, None, a.ty, ("seq", items), items[0] if items else None, d.calls, d.strs), a.ty)

    def _contlike(self, v, m):
        if v.path is not None and len(v.path) == 1 and v.path[0].startswith("@"):
            return v.shape is None
        if m.shape is not None and m.shape[0] in ("seq", "dict"):
            return True
        return bool(v.ty.names and v.ty.names & {"list", "tuple", "set", "frozenset", "dict", "Sequence", "Iterable"})

    def e_Compare(self, n, st):
        out = []
        nodes = [n.left] + list(n.comparators)
        for vs, s in self.ev_list(nodes, st):
            if len(n.ops) == 1:
                op = _OPS[type(n.ops[0])]
                a, b = vs
                d = self.data([a, b], s)
                if is_const(a) and is_const(b) and op in ("==", "!=", "is", "is not"):
                    r = (a.shape[1] == b.shape[1]) == (op in ("==", "is"))
                    out.append((const(r), s))
                else:
                    src = d.src
                    if self.member_keys and op in ("in", "not in") and is_const(a) and isinstance(a.shape[1], str) and b.path is not None and b.shape is None:
                        src = frozenset({b.path + (f"['{a.shape[1]}']",)})
                    out.append((V(src, d.must, d.whole, None, Ty(frozenset({"bool"})), ("cmp", op, a, b), None, d.calls, d.strs), s))
            else:
                out.append((self.data(vs, s, ty=Ty(frozenset({"bool"}))), s))
        return out

    def e_IfExp(self, n, st):
        out = []
        for s in self.cond(n.test, st.copy(), True):
            out += self.ev(n.body, s)
        for s in self.cond(n.test, st.copy(), False):
            out += self.ev(n.orelse, s)
        return out

    def e_JoinedStr(self, n, st):
        parts = []
        consts = set()
        for v in n.values:
            if isinstance(v, ast.Constant):
                consts.add(v.value)
            else:
                parts.append(v.value)
                if v.format_spec is not None:
                    parts += [x.value for x in v.format_spec.values if isinstance(x, ast.FormattedValue)]
        out = []
        for vs, s in self.ev_list(parts, st):
            d = self.data(vs, s)
            seq, i = [], 0
            for v in n.values:
                if isinstance(v, ast.Constant):
                    seq.append(const(v.value))
                else:
                    seq += _fmt_parts(vs[i])
                    i += 1 + (sum(isinstance(x, ast.FormattedValue) for x in v.format_spec.values) if v.format_spec is not None else 0)
            out.append((V(d.src, d.must, d.whole, None, Ty(frozenset({"str"})), ("fmt", seq, _fmt_nonempty(seq)), None, d.calls, d.strs | consts), s))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_List(self, n, st):
        return self._display(n, st, "list")

    def e_Tuple(self, n, st):
        return self._display(n, st, "tuple")

    def e_Set(self, n, st):
        return self._display(n, st, "set")

    def _display(self, n, st, kind):
        out = []
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for vs, s in self.ev_list(nodes, st):
            items = []
            exact = True
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    m = self.mat(v, s)
                    if m.shape is not None and m.shape[0] == "seq":
                        items += m.shape[1]
                    else:
                        exact = False
                        items.append(self.iter_elem(v, s))
                else:
                    items.append(v)
            c = self.data(vs, s)
            el = None
            for x in items:
                el = x if el is None else self._elem2(el, x, s)
            ty = Ty(frozenset({kind}), el.ty if el is not None and el.ty.names else None)
            out.append((self.new_alloc(s, c.with_(shape=("seq", items) if exact else None, elem=el), ty), s))
        return out

    def e_Dict(self, n, st):
        out = []
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        for vs, s in self.ev_list(nodes, st):
            d = {}
            exact = True
            i = 0
            el = None
            for k, v in zip(n.keys, n.values):
                if k is None:
                    m = self.mat(vs[i], s)
                    i += 1
                    if m.shape is not None and m.shape[0] == "dict":
                        d.update(m.shape[1])
                    else:
                        exact = False
                    continue
                kv, vv = vs[i], vs[i + 1]
                i += 2
                if kv.shape is not None and kv.shape[0] == "const":
                    d[_k(kv.shape[1])] = self.mat(vv, s)
                elif kv.shape is not None and kv.shape[0] == "enum":
                    d[(kv.shape[1].name, kv.shape[2])] = self.mat(vv, s)
                else:
                    exact = False
                el = vv if el is None else self._elem2(el, vv, s)
            c = self.data(vs, s)
            if len(n.keys) > 1 and None in n.keys:
                self.union([self.mat(v, s) for v in vs], n, s)
            out.append((self.new_alloc(s, c.with_(shape=("dict", d) if exact else None, elem=el), Ty(frozenset({"dict"}))), s))
        return out

    _certain = False

    def _comp(self, n, st, elts):
        """Comprehensions: representative element, weakened if elements may be filtered."""
        out = []
        gens = n.generators
        self._certain = False
        if len(gens) == 1:
            r = self._comp_unrolled(gens[0], st, elts)
            if r is not None:
                return r

        def rec(i, s):
            if i == len(gens):
                return [(vs, s2) for vs, s2 in self.ev_list(elts, s)]
            g = gens[i]
            res = []
            for it, s1 in self.ev(g.iter, s):
                s1 = s1.copy()
                self.assign(g.target, self.iter_elem(it, s1), s1)
                cur = [s1]
                skipped = []
                for c in g.ifs:
                    nx = []
                    for q in cur:
                        nx += self.cond(c, q.copy(), True)
                        skipped += self.cond(c, q.copy(), False)
                    cur = self.cap_states(nx)
                for q in cur:
                    res += rec(i + 1, q)
                for q in skipped:
                    res.append((None, q))
            return res

        rs = rec(0, st.copy())
        kept = [(vs, s) for vs, s in rs if vs is not None]
        self._certain = len(kept) == len(rs) == 1
        base_env = st.env
        if not kept:
            return [(self.new_alloc(st, V(shape=("seq", []) if self.quantify else None), Ty(frozenset({"list"}))), st)]
        k = len(elts)
        vals = []
        elems = []
        allp = []
        for i in range(k):
            pairs = [(self.mat(vs[i], s), s) for vs, s in kept]
            ev_ = self.join_vals(pairs) if len(pairs) > 1 else kept[0][0][i]
            elems.append(ev_)
            full = [(self.mat(vs[i], s) if vs is not None else V(), s) for vs, s in rs]
            vals.append(self.join_vals(full) if len(full) > 1 else full[0][0])
        js = self.join_states([s for _, s in rs]).copy()
        js.env = dict(base_env)
        for key in list(js.facts):
            if key not in st.facts and _elem_fact(key):
                del js.facts[key]
        return vals, elems, js

    def _comp_unrolled(self, g, st, elts):
        its = self.ev(g.iter, st)
        if len(its) != 1:
            return None
        it, s0 = its[0]
        items = self._exact_items(it, s0)
        if items is None:
            return None
        k = len(elts)
        allv = [[] for _ in range(k)]
        alle = [[] for _ in range(k)]
        exact = True
        s0 = s0.copy()
        for x in items:
            s1 = s0.copy()
            self.assign(g.target, x, s1)
            cur, skipped = [s1], []
            for c in g.ifs:
                nx = []
                for q in cur:
                    nx += self.cond(c, q.copy(), True)
                    skipped += self.cond(c, q.copy(), False)
                cur = self.cap_states(nx)
            kept = []
            for q in cur:
                kept += self.ev_list(elts, q)
            if skipped and (kept or not self.quantify):
                exact = False
            for i in range(k):
                full = [(self.mat(vs[i], q), q) for vs, q in kept] + [(V(), q) for q in skipped]
                if full:
                    allv[i].append(self.join_vals(full))
                if kept:
                    alle[i].append(kept[0][0][i] if len(kept) == 1 else self.join_vals([(self.mat(vs[i], q), q) for vs, q in kept]))
            sts = [q for _, q in kept] + skipped
            if sts:
                j = self.join_states(sts)
                s0 = St(dict(st.env), dict(s0.facts), j.heap, j.attrs, s0.tested | j.tested, j.events if len(j.events) >= len(s0.events) else s0.events)
        vals, elems = [], []
        for i in range(k):
            vals.append(comb(allv[i]) if allv[i] else V())
            e = None
            for x in alle[i]:
                e = x if e is None else self._elem2(e, x, s0)
            elems.append(e if e is not None else V())
        if exact:
            vals = [v.with_(shape=("seq", list(alle[i]))) for i, v in enumerate(vals)]
        return vals, elems, s0

    def e_ListComp(self, n, st):
        r = self._comp(n, st, [n.elt])
        if isinstance(r, list):
            return r
        vals, elems, s = r
        kind = {"ListComp": "list", "SetComp": "set", "GeneratorExp": "Iterable"}[type(n).__name__]
        c = comb(vals)
        shape = vals[0].shape if vals[0].shape is not None and vals[0].shape[0] == "seq" and (kind in ("list", "Iterable") or self.quantify) else None
        if not (len(n.generators) == 1 and (self.quantify or not n.generators[0].ifs)):
            shape = None
        if self.quantify and shape is None and self._certain:
            shape = ("seq", [elems[0]])
        content = V(c.src, c.must, c.whole, None, ANY, shape, elems[0], c.calls, c.strs)
        return [(self.new_alloc(s, content, Ty(frozenset({kind}), elems[0].ty if elems[0].ty.names else None)), s)]

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        r = self._comp(n, st, [n.key, n.value])
        if isinstance(r, list):
            return r
        vals, elems, s = r
        c = comb(vals)
        content = V(c.src, c.must, c.whole, None, ANY, None, elems[1], c.calls, c.strs)
        return [(self.new_alloc(s, content, Ty(frozenset({"dict"}), elems[0].ty if elems[0].ty.names else None, elems[1].ty if elems[1].ty.names else None)), s)]

    def e_Subscript(self, n, st):
        out = []
        for (o, k), s in self.ev_list([n.value, n.slice], st):
            m = self.mat(o, s)
            if m.shape is not None and m.shape[0] == "seq" and is_const(k) and isinstance(k.shape[1], int) and -len(m.shape[1]) <= k.shape[1] < len(m.shape[1]):
                out.append((m.shape[1][k.shape[1]], s))
            elif m.shape is not None and m.shape[0] == "dict" and is_const(k) and _k(k.shape[1]) in m.shape[1]:
                out.append((m.shape[1][_k(k.shape[1])], s))
            elif m.shape is not None and m.shape[0] == "gconst" and self._table_item(m, k, s, None) is not None:
                out.append((self._table_item(m, k, s, None), s))
            elif m.shape is not None and m.shape[0] == "gconst":
                missing = k.shape is not None and k.shape[0] in ("const", "enum") and self._in_table(m.shape[1], m.shape[2], k) is False
                out.append((self.data([k], s).with_(calls=k.calls | {m.shape[2]} | ({"@missing"} if missing else frozenset())), s))
            elif isinstance(n.slice, ast.Slice):
                out.append((self._slice(o, m, n.slice, s), s))
            elif o.path is not None and not o.path[0].startswith("@"):
                t = o.ty.val if (o.ty.names and "dict" in o.ty.names) else (o.ty.elem or ANY)
                if is_const(k):
                    if o.ty.items is not None and isinstance(k.shape[1], int) and 0 <= k.shape[1] < len(o.ty.items):
                        t = o.ty.items[k.shape[1]]
                    comp = f"[{k.shape[1]!r}]" if isinstance(k.shape[1], str) else str(k.shape[1])
                    known = s.attrs.get((o.path, comp))
                    out.append((known if known is not None else pathv(o.path + (comp,), t or ANY), s))
                elif k.shape is not None and k.shape[0] == "enum":
                    out.append((pathv(o.path + (f"[{k.shape[2]}]",), t or ANY), s))
                else:
                    d = self.data([o, k], s)
                    out.append((d.with_(ty=t or ANY), s))
            else:
                el = m.elem
                d = self.data([o, k], s)
                if el is not None:
                    d = self.data([el, k], s).with_(ty=el.ty)
                out.append((d, s))
        return out

    def _table_item(self, m: V, k: V, st: St, default: Optional[V]) -> Optional[V]:
        """The entry of a constant table (None if the table or the key is not known)."""
        if k.shape is None or k.shape[0] not in ("enum", "const"):
            return None
        mod = self.prog.modules.get(m.shape[1])
        node = mod.consts.get(m.shape[2]) if mod is not None else None
        if not isinstance(node, ast.Dict) or None in node.keys:
            return None
        found = []
        for key, val in zip(node.keys, node.values):
            if isinstance(key, ast.Constant):
                same = k.shape[0] == "const" and k.shape[1] == key.value
            else:
                g = self.prog.resolve_dotted(mod.name, key)
                if isinstance(g, tuple) and g[0] == "const" and isinstance(g[1].consts[g[2]], ast.Constant):
                    if k.shape[0] == "const" and k.shape[1] == g[1].consts[g[2]].value:
                        found.append(val)
                    continue
                if not (isinstance(g, tuple) and g[0] == "enum"):
                    return None
                same = k.shape[0] == "enum" and g[1] is k.shape[1] and g[2] == k.shape[2]
            if same:
                found.append(val)
        if not found:
            return default
        if isinstance(found[-1], ast.Constant):
            v = const(found[-1].value)
        else:
            g = self.prog.resolve_dotted(mod.name, found[-1])
            if g is None:
                return None
            v = self.global_value(g, ast.unparse(found[-1]))
        return v.with_(calls=v.calls | k.calls | {m.shape[2]})

    def _in_table(self, modname: str, name, k: V, depth: int = 0) -> Optional[bool]:
        """Is a known value contained in a constant collection (of another module, or given as an expression)?"""
        mod = self.prog.modules.get(modname)
        if mod is None or depth > 6:
            return None
        node = mod.consts.get(name) if isinstance(name, str) else name
        if isinstance(node, ast.Call) and len(node.args) == 1 and ast.unparse(node.func) in ("set", "frozenset", "list", "tuple"):
            node = node.args[0]
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_dotted(modname, node)
            return self._in_table(r[1].name, r[2], k, depth + 1) if isinstance(r, tuple) and r[0] == "const" else None
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitOr, ast.Add)):
            a, b = self._in_table(modname, node.left, k, depth + 1), self._in_table(modname, node.right, k, depth + 1)
            return True if a or b else None if a is None or b is None else False
        items = node.keys if isinstance(node, ast.Dict) else node.elts if isinstance(node, (ast.Set, ast.List, ast.Tuple)) else None
        if items is None:
            return None
        for x in items:
            if x is None or isinstance(x, ast.Starred):
                return None
            if isinstance(x, ast.Constant):
                if k.shape[0] == "const" and k.shape[1] == x.value and isinstance(k.shape[1], bool) == isinstance(x.value, bool):
                    return True
                continue
            g = self.prog.resolve_dotted(modname, x)
            if isinstance(g, tuple) and g[0] == "enum":
                if k.shape[0] == "enum" and g[1] is k.shape[1] and g[2] == k.shape[2]:
                    return True
                continue
            if isinstance(g, tuple) and g[0] == "const" and isinstance(g[1].consts[g[2]], ast.Constant):
                if k.shape[0] == "const" and k.shape[1] == g[1].consts[g[2]].value:
                    return True
                continue
            return None
        return False

    def _slice(self, o: V, m: V, sl, st) -> V:
        if sl.lower is None and sl.upper is None:
            return self.data([o], st, ty=o.ty).with_(elem=m.elem)
        if o.path is not None and not o.path[0].startswith("@") and sl.upper is None and sl.step is None and isinstance(sl.lower, ast.Constant):
            p = o.path + (f"{sl.lower.value}:",)
            v = pathv(p, o.ty.elem or ANY)
            return V(v.src, v.must, v.whole, None, o.ty, None, v)
        # an unknown part of the sequence
        c = self.data([o], st, calls={"slice"}, ty=o.ty)
        must = frozenset(f for f in c.must if f[-1] not in ("*", "*k"))
        el = m.elem
        if el is None and o.path is not None and not o.path[0].startswith("@"):
            q = o.path + ("*",)
            el = V(frozenset({q}), closure(o.path) if len(o.path) > 1 else E, E, None, o.ty.elem or ANY)
        return V(c.src, must, E, None, o.ty, None, el, c.calls, c.strs)

    def e_Slice(self, n, st):
        kids = [x for x in (n.lower, n.upper, n.step) if x is not None]
        return [(self.data(vs, s), s) for vs, s in self.ev_list(kids, st)]

    def e_Lambda(self, n, st):
        fi = FuncInfo("<lambda>", f"{self.stack[-1].qual}.<lambda:{n.lineno}:{n.col_offset}>", self.stack[-1].module, n, None, self.stack[-1])
        return [(V(shape=("func", fi, st.env)), st)]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            s.env[n.target.id] = v
            out.append((v, s))
        return out

    def e_Yield(self, n, st):
        if n.value is None:
            return [(V(), st)]
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            y = s.env.get("@yield")
            if y is not None:
                self.add_to(y, [v], s)
            out.append((V(), s))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            y = s.env.get("@yield")
            if y is not None:
                self.add_to(y, [v], s, spread=True)
            out.append((V(), s))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)


class _Both:
    """Virtual state: a path is nullish if it is so in both states (used for joining more than two alternatives)."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def nullish(self, p):
        return self.a.nullish(p) and self.b.nullish(p)


_OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
        ast.In: "in", ast.NotIn: "not in"}


_IT = frozenset({"Iterable", "Collection", "Sized", "Container"})
ABCS = _IT | {"Sequence", "MutableSequence", "Set", "MutableSet", "Mapping", "MutableMapping", "Hashable"}
ABC_OF = {"None": frozenset({"Hashable"}), "int": frozenset({"Hashable"}), "float": frozenset({"Hashable"}), "bool": frozenset({"Hashable", "int"}),
          "str": _IT | {"Sequence", "Hashable"}, "tuple": _IT | {"Sequence", "Hashable"}, "list": _IT | {"Sequence", "MutableSequence"},
          "set": _IT | {"Set", "MutableSet"}, "frozenset": _IT | {"Set", "Hashable"}, "dict": _IT | {"Mapping", "MutableMapping"}}


def _strlike(v: V) -> bool:
    return v.shape is not None and (v.shape[0] in ("fmt", "join") or (v.shape[0] == "const" and isinstance(v.shape[1], str)))


def _fmt_parts(v: V) -> list:
    return list(v.shape[1]) if v.shape is not None and v.shape[0] == "fmt" else [v]


def _fmt_nonempty(parts) -> bool:
    return any((p.shape is not None and p.shape[0] == "const" and p.shape[1] not in ("", None)) or
               (p.shape is not None and p.shape[0] == "fmt" and p.shape[2]) for p in parts)


def _k(c):
    try:
        hash(c)
        return c
    except TypeError:
        return repr(c)


def _elem_fact(k) -> bool:
    p = k[1]
    return isinstance(p, tuple) and any(isinstance(x, str) and x in ("*", "*k") for x in p)


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _unor(a):
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return _unor(a.left) + _unor(a.right)
    return [a]


def match_args(c: ClassInfo):
    for k in c.mro():
        ma = k.class_attrs.get("__match_args__")
        if ma is not None:
            try:
                return list(ast.literal_eval(ma))
            except Exception:
                return None
    if c.is_dataclass() or c.is_namedtuple():
        return [n for n, _ in c.record_fields()]
    return None
