"""Shared parts of the rules: class families, content of a class, required access paths."""
from __future__ import annotations

import ast
from typing import Callable, Iterable, Optional

from ..interp import Budget, E, Event, Interp, St, V, closure, comb, const, covered, covers, is_const, may_cover, norm, pathv
from ..model import ANY, AnalysisError, ClassInfo, FuncInfo, Program, Ty, ty_union
from ..report import Report

SEQ = {"list", "tuple", "set", "frozenset", "Sequence", "Iterable", "Collection", "deque", "Iterator", "MutableSequence"}


class Ctx:
    def __init__(self, prog: Program, rep: Report) -> None:
        self.prog, self.rep = prog, rep
        self.visited: set = set()
        self._content: dict = {}
        self.caps = dict(cap=24, arg_cap=8, call_cap=6, max_depth=8, max_steps=60000)
        if rep.tier == "thorough":
            self.caps = dict(cap=96, arg_cap=24, call_cap=24, max_depth=12, max_steps=600000)

    def interp(self, **kw) -> Interp:
        it = Interp(self.prog, **{**self.caps, **kw})
        it.visited = self.visited
        return it

    def self_hook(self, roots=("self",), names=None, also=None) -> Callable:
        """Inline the methods an object calls on itself."""
        def hook(it, f, recv):
            if recv is not None and recv.path is not None and len(recv.path) == 1 and recv.path[0] in roots:
                if names is None or f.name in names:
                    return True
            if also is not None:
                return also(it, f, recv)
            return None
        return hook

    # -- families ------------------------------------------------------------------------------
    def family(self, name: str, module: Optional[str] = None) -> list[ClassInfo]:
        base = self.prog.cls(name, module)
        return self.prog.concrete_subclasses(base)

    # -- content of a class --------------------------------------------------------------------
    def content(self, cls: ClassInfo) -> dict[str, dict]:
        """Constructor parameter -> {'ty': declared type, 'fields': {field name: V over the parameters}}."""
        if cls.qual in self._content:
            return self._content[cls.qual]
        out: dict[str, dict] = {}
        if cls.is_dataclass() or cls.is_namedtuple():
            for n, _ in cls.record_fields():
                t = ANY
                for k in cls.mro():
                    if n in k.annots:
                        t = self.prog.ty(k.module, k.annots[n])
                        break
                out[n] = {"ty": t, "fields": {norm(n): pathv((n,), t)}}
            self._content[cls.qual] = out
            return out
        init = cls.find("__init__")
        if init is None:
            self._content[cls.qual] = out
            return out
        fields = self.final_fields(cls)
        for a in init.all_params()[1:]:
            fs = {f: v for f, v in fields.items() if any(p[0] == a.arg for p in v.src)}
            ty = Interp(self.prog)._vararg_ty(init, a)
            out[a.arg] = {"ty": ty, "fields": fs}
        self._content[cls.qual] = out
        return out

    def final_fields(self, cls: ClassInfo) -> dict[str, V]:
        """Field -> value (provenance over the constructor parameters) after construction."""
        cache = self.__dict__.setdefault("_ff", {})
        if cls.qual in cache:
            return cache[cls.qual]
        init = cls.find("__init__")
        it = self.interp(inline=self.self_hook(names={"__init__"}))
        res: dict[str, V] = {}
        states = []
        try:
            for k, v, s in it.run(init, {"self": it.self_value(cls)}):
                if k == "return":
                    states.append(s)
        except Budget:
            states = []
        if states:
            s = it.join_states(states)
            for (p, n), v in s.attrs.items():
                if p == ("self",):
                    res[n] = it.mat(v, s)
        cache[cls.qual] = res
        return res

    def own_fields(self, cls: ClassInfo, param: str) -> list[str]:
        """The fields that hold (nothing but) the given constructor parameter; otherwise those derived from it."""
        fs = self.content(cls).get(param, {}).get("fields", {})
        exact = [f for f, v in fs.items() if {p[0] for p in v.src} == {param} and "hash" not in v.calls]
        return exact

    def joint_fields(self, cls: ClassInfo, param: str) -> list[str]:
        """Fields that contain the parameter among others (e.g. a list of all arguments)."""
        fs = self.content(cls).get(param, {}).get("fields", {})
        return [f for f, v in fs.items() if "hash" not in v.calls and len({p[0] for p in v.src}) > 1 and (param,) in v.must and f != "hash_val"]

    # -- typed access paths --------------------------------------------------------------------
    def bearing(self, ty: Ty, pred: Callable[[ClassInfo], bool]) -> bool:
        if ty is None or ty.names is None:
            return False
        for n in ty.names:
            c = self.prog.class_of_qual(n)
            if c is not None and pred(c):
                return True
        return any(self.bearing(t, pred) for t in ([ty.elem] if ty.elem else []) + ([ty.val] if ty.val else []) + list(ty.items or ()))

    def leaf_paths(self, ty: Ty, path: tuple, pred: Callable[[ClassInfo], bool]) -> list[tuple]:
        """Access paths below `path` at which values of the interesting classes are found."""
        if ty is None or ty.names is None:
            return []
        out = []
        for n in ty.names:
            c = self.prog.class_of_qual(n)
            if c is not None and pred(c):
                out.append(path)
                break
        if ty.items and len(ty.items) > 1:
            for i, t in enumerate(ty.items):
                out += self.leaf_paths(t, path + (str(i),), pred)
        elif ty.names & {"dict"}:
            if ty.elem:
                out += self.leaf_paths(ty.elem, path + ("*k",), pred)
            if ty.val:
                out += self.leaf_paths(ty.val, path + ("*",), pred)
        elif ty.elem:
            out += self.leaf_paths(ty.elem, path + ("*",), pred)
        return list(dict.fromkeys(out))

    def has_method(self, cls: ClassInfo, *names) -> bool:
        return any(cls.find(n) is not None for n in names)


def covered_or_null(v: V, st, p: tuple) -> bool:
    if covered(v, p) or st.nullish(p):
        return True
    # alternatives of a union typed component: an element-wise requirement is vacuous if the component is not a sequence there
    return False


def type_excludes(it: Interp, st, p: tuple) -> bool:
    """The path p = q + ('*',...) is an element of q, but q is known not to be a container on this path (or vice versa)."""
    for i in range(2, len(p)):
        ts = st.facts.get(("T", p[:i]))
        if ts is not None:
            cont = any(t in SEQ or t == "dict" for t in ts)
            if p[i] in ("*", "*k") and not cont:
                return True
    ts = st.facts.get(("T", p))
    if ts is not None and all(t in SEQ or t == "dict" or t == "None" for t in ts):
        return True
    return False
