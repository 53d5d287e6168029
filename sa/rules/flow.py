"""Helpers to state requirements on flows: where do the results and the arguments of calls come from?"""
from __future__ import annotations

from .common import *


class Outcome:
    """One path of an analysed function."""

    def __init__(self, it: Interp, kind: str, v: Optional[V], s: St):
        self.it, self.kind, self.s = it, kind, s
        self.v = it.mat(v, s) if v is not None else None

    def truth(self, *path) -> Optional[bool]:
        return self.s.facts.get(("t", tuple(path)))

    @property
    def decided(self) -> Optional[bool]:
        """The truth of the result, if it is known."""
        return self.it.truth(self.v, self.s)

    def attr(self, root: tuple, name: str) -> Optional[V]:
        v = self.s.attrs.get((root, name))
        return None if v is None else self.it.mat(v, self.s)

    @property
    def events(self):
        return self.s.events


class Run:
    """All paths of a function for arguments of given kinds."""

    def __init__(self, ctx: Ctx, f: FuncInfo, cls: Optional[ClassInfo] = None, facts=None, args=None, roots=None, **kw):
        self.ctx, self.f = ctx, f
        a: dict[str, V] = {}
        if cls is not None and f.kind not in ("static", "classmethod"):
            me = f.all_params()[0].arg
            a[me] = Interp(ctx.prog).self_value(cls, me)
        for k, v in (args or {}).items():
            a[k] = pathv((k,), Ty(frozenset({v.qual}))) if isinstance(v, ClassInfo) else v
        inline = kw.pop("inline", None) or ctx.self_hook(roots=tuple(roots or ("self",)))
        results, second_pass = kw.pop("results", None), kw.pop("second_pass", False)
        quantify, attrs = kw.pop("quantify", False), kw.pop("attrs", None)
        kw_iter = kw.pop("iterations", False)
        recursion, member = kw.pop("recursion", 0), kw.pop("member", None)
        self.it = ctx.interp(inline=inline, **kw)
        self.it.recursion = recursion
        self.it.results = results
        self.it.member = member
        self.it.second_pass = second_pass
        self.it.iterations = [] if kw_iter else None
        self.it.quantify = quantify
        self.ok = True
        self.outs: list[Outcome] = []
        try:
            for k, v, s in self.it.run(f, a, facts=dict(facts or {}), attrs=dict(attrs) if attrs else None):
                self.outs.append(Outcome(self.it, k, v, s))
        except Budget:
            self.ok = False

    @property
    def returns(self) -> list[Outcome]:
        return [o for o in self.outs if o.kind == "return"]

    def log(self, *names):
        return [(e, facts) for e, facts, _ in self.it.log if e.name in names]

    def constructed(self, *names):
        return [(e, facts) for e, facts, _ in self.it.log if e.cls is not None and any(e.cls.name == n for n in names)]


def arg(e: Event, name, default=None):
    """The value of a parameter in a call."""
    if e.cls is not None:
        return e.m.get(name, default)
    if name in e.m:
        return e.m[name]
    if e.fi is not None:
        names = e.fi.arg_names()
        if e.fi.kind in ("method", "classmethod", "property") and names:
            names = names[1:]
        if name in names and names.index(name) in e.m:
            return e.m[names.index(name)]
    return default


def steps_of(v: Optional[V]) -> set[str]:
    """All attribute names, operations and keys on the access paths that a value comes from (including the roots)."""
    out: set[str] = set()
    for p in (v.src if v is not None else ()):
        out |= {x.strip("[]'\"").removesuffix("()") if x[:1] == "[" else x.removesuffix("()") for x in p}
    out |= {c[1:] for c in (v.calls if v is not None else ()) if c[:1] == "."}
    return out


def from_(v: Optional[V], *names) -> bool:
    return bool(steps_of(v) & set(names)) or bool(v is not None and v.calls & set(names))


def swapped(v: Optional[V], role: str, roles: dict[str, set]) -> Optional[str]:
    """The value for one role comes from the attributes of other roles only."""
    if v is None:
        return None
    st = steps_of(v) | set(v.calls)
    if st & roles[role]:
        return None
    others = [r for r in roles if r != role and st & roles[r]]
    return others[0] if others else None


def forwards(ctx: Ctx, rule: str, run: Run, targets, label: str, only=None, ignore=()):
    """Recursive calls (or delegations to a same named operation) pass on every option of the caller."""
    f = run.f
    params = [a for a in f.all_params()]
    if f.cls is not None and f.kind != "static":
        params = params[1:]
    defaults = defaulted(f)
    kw = f.node.args.kwarg.arg if f.node.args.kwarg is not None else None
    required = {x.arg for x, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is None}
    n = 0
    for e, facts, _ in run.it.log:
        if e.fi is None or not targets(e):
            continue
        n += 1
        for a in params:
            p = a.arg
            if p in ignore or (only is not None and p not in only) or p not in {x.arg for x in e.fi.all_params()}:
                continue
            if p not in defaults and not (e.fi is f and p in required):
                continue
            ctx.rep.ok(rule, f"{label}->{e.name}:{p}")
            v = arg(e, p)
            if v is None and (e.star is not None or e.dstar is not None) and a in (f.node.args.vararg, f.node.args.kwarg):
                continue
            if v is None and e.dstar is not None and not (kw is not None and e.dstar.path == (kw,)):
                continue
            if v is not None and (p,) in {q[:1] for q in v.src}:
                continue
            if v is not None and is_const(v):
                c = v.shape[1]
                if facts.get(("e", (p,), c)) is True or (isinstance(c, bool) and facts.get(("t", (p,))) is c) or (c is None and facts.get(("n", (p,))) is True):
                    continue
            if v is None and p in defaults:
                d = defaults[p]
                if d is None and facts.get(("n", (p,))) is True:
                    continue
                if isinstance(d, bool) and facts.get(("t", (p,))) is d:
                    continue
                if isinstance(d, (str, int)) and facts.get(("e", (p,), d)) is True:
                    continue
                if d is None and facts.get(("t", (p,))) is False:
                    continue
            if v is not None and v.src and not is_const(v):
                continue  # computed from something else on purpose
            ctx.rep.fail(rule, f"{label}->{e.name}:{p}", f"{f.qual} does not pass its option '{p}' on to {e.name}()", f"{f.module.rel}:{getattr(e.node, 'lineno', 0)}")
    return n


def defaulted(f: FuncInfo) -> dict:
    import ast as _ast
    a = f.node.args
    out = {}
    pos = list(a.posonlyargs) + list(a.args)
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is not None:
            out[x.arg] = d.value if isinstance(d, _ast.Constant) else _ast.unparse(d)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out[x.arg] = ()
    return out


def uses_all_params(ctx: Ctx, rule: str, run: Run, label: str, ignore=()):
    """Every parameter has an influence: it is tested or it flows into a result, an argument of a call or a stored value."""
    f = run.f
    seen: set[str] = set()
    for o in run.outs:
        seen |= {p[0] for p in o.s.tested}
        if o.v is not None:
            seen |= {p[0] for p in o.v.src}
    for e, facts, tested in run.it.log:
        seen |= {p[0] for p in tested}
        for v in list(e.m.values() if e.m else ()) + [x for x in (e.recv, e.star, e.dstar) if x is not None]:
            seen |= {p[0] for p in v.src} if isinstance(v, V) else set()
    for a in f.all_params():
        if a.arg in ignore or a.arg.startswith("_"):
            continue
        ctx.rep.ok(rule, f"{label}:{a.arg}")
        if a.arg not in seen:
            ctx.rep.fail(rule, f"{label}:{a.arg}", f"{f.qual} ignores its parameter '{a.arg}'", f.loc())


def prop_head(ctx: Ctx, cls: ClassInfo, name: str) -> Optional[str]:
    """The stored attribute behind a public property."""
    f = cls.find(name)
    if f is None:
        return None
    run = Run(ctx, f, cls)
    heads = {o.v.path[1] for o in run.returns if o.v is not None and o.v.path is not None and len(o.v.path) == 2}
    return heads.pop() if len(heads) == 1 else None


def never_repeats(loop) -> bool:
    """The body of a loop always leaves the loop: only the first element is ever considered."""
    import ast as _ast

    def ends(body) -> bool:
        for st in body:
            if isinstance(st, (_ast.Return, _ast.Raise, _ast.Break)):
                return True
            if isinstance(st, _ast.If) and st.orelse and ends(st.body) and ends(st.orelse):
                return True
        return False
    if any(isinstance(n, _ast.Continue) for n in _ast.walk(loop)):
        return False
    return ends(loop.body)
