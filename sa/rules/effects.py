"""Q08, X02, X04: immutability of objects, discarded results, modified inputs (effect and alias analysis)."""
from __future__ import annotations

import ast
import re

from ..effects import CONT, READS, Effects, is_hook
from ..interp import Interp
from .common import *

# Functions whose documented purpose is to modify (an entry of) an argument.
MODIFIES = {
    ("apply_standard_system_options", "database"),
    ("standard_add_path", "rel"),  # "adds a path to a relation"
    ("detect_unknown_costs", "unknown_ops"),  # the operators detected so far
    ("register_generator", "generator"),
    ("describe_into", "target"),
}
# Operations of the immutable classes that are meant to change them.
CHANGING = {"__setitem__", "__delitem__", "__setattr__", "__setstate__", "__init__", "__post_init__", "__new__"}


def container_change(how: str) -> bool:
    return how.endswith("()") or how in ("[]=", "del []") or (how.endswith("=") and not how.startswith("."))


def self_root(f: FuncInfo, loc) -> bool:
    return f.cls is not None and f.outer is None and f.kind != "static" and bool(f.arg_names()) and loc[0] == f.arg_names()[0]


def is_public(f: FuncInfo) -> bool:
    g, names = f, []
    return f.outer is None and (not f.name.startswith("_") or f.name.startswith("__")) and (f.cls is None or not f.cls.name.startswith("_"))


def steps(eff: Effects, f: FuncInfo, loc) -> list[frozenset]:
    """The classes of the objects along an access path (one entry per prefix)."""
    it = eff.it
    a = next((a for a in f.all_params() if a.arg == loc[0]), None)
    if a is None:
        return [frozenset()] * len(loc)
    ty = it._vararg_ty(f, a)
    if self_root(f, loc):
        ty = Ty(frozenset({f.cls.qual}))
    if f.node.args.vararg is a or f.node.args.kwarg is a:
        ty = Ty(frozenset({"tuple"}), elem=ty.elem or ty)
    out = [ty.names or frozenset()]
    for s in loc[1:]:
        if s == "*":
            ty = (ty.val if ty.names and "dict" in ty.names else ty.elem) or ANY
        elif s.endswith("()"):
            ty = ANY
        else:
            t = ANY
            for n in ty.names or ():
                c = eff.prog.class_of_qual(n)
                if c is not None:
                    t = it.field_ty(c, s)
            ty = t
        out.append(ty.names or frozenset())
    return out


def lazy_memo(eff: Effects, f: FuncInfo, attr: str) -> bool:
    """The attribute is only a memo of a computed value: it is unset by the constructor and tested before it is computed."""
    attr = attr.strip(".=")
    fi = f
    tested = any(isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr == attr and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops)
                 or isinstance(n, (ast.If, ast.IfExp)) and _plain_test(n.test, attr)
                 for n in ast.walk(fi.node))
    if not tested or fi.cls is None:
        return False
    init = fi.cls.find("__init__")
    for n in ast.walk(init.node) if init is not None else ():
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(n.value, ast.Constant) and n.value.value is None:
            return True
    return False


def _plain_test(t, attr) -> bool:
    while isinstance(t, ast.UnaryOp):
        t = t.operand
    return isinstance(t, ast.Attribute) and t.attr == attr


def effects(ctx: Ctx) -> Effects:
    return Effects(ctx.prog)


def check_Q08(ctx: Ctx):
    rep = ctx.rep
    eff = effects(ctx)
    imm_names = {c.qual for c in eff.immutable}
    for f in eff.funcs:
        s = eff.sum[f]
        ctx.visited.add(f.qual)
        if f.cls in eff.immutable:
            rep.ok("methods", f.qual)
        else:
            rep.ok("functions", f.qual)
        for (loc, how), m in s.muts.items():
            if m.via is not None and m.via is not f and f is not m.via and not _at_home(eff, f, loc):
                # reported where it happens unless that is not about an immutable object there
                pass
            direct = m.via is None
            if how.startswith(".") and how.endswith("=") and m.cls and (m.cls & imm_names):
                if not direct:
                    continue
                if self_root(f, loc) and len(loc) == 1 and f.cls in eff.immutable:
                    if f.name in CHANGING or lazy_memo(eff, f, how) or _only_from_ctor(eff, f):
                        continue
                    rep.fail("attribute", f"{f.cls.name}.{f.name}:{how.strip('.=')}", f"{f.qual} assigns the attribute {how.strip('.=')} of an existing object", _loc(f, m))
                    continue
                if f.name in CHANGING and f.cls in eff.immutable and self_root(f, loc) and len(loc) == 1:
                    continue
                rep.fail("attribute", f"{f.qual.split('.', 1)[1]}:{'.'.join(loc)}:{how.strip('.=')}",
                         f"{f.qual} assigns the attribute {how.strip('.=')} of an existing {'/'.join(sorted(x.split('.')[-1] for x in m.cls & imm_names))}", _loc(f, m))
            elif container_change(how):
                if f.cls in eff.immutable and f.name in ("__init__", "__post_init__") and not self_root(f, loc):
                    rep.fail("constructor", f"{f.cls.name}:{loc[0]}", f"the constructor of {f.cls.name} modifies its argument {'.'.join(loc)} ({how})", _loc(f, m))
                    continue
                ks = steps(eff, f, loc)
                # a container that belongs to an immutable object: some object before the last step is one
                owner = None
                for i in range(len(loc) - 1, 0, -1):
                    if ks[i - 1] & imm_names and loc[i] not in ("*",):
                        owner = ks[i - 1] & imm_names
                        rest = loc[i:]
                        break
                if owner is None:
                    continue
                if f.cls in eff.immutable and f.name in CHANGING and self_root(f, loc):
                    continue
                if f.cls in eff.immutable and self_root(f, loc) and _only_from_ctor(eff, f):
                    continue
                if any(k.startswith("postbound") and k not in imm_names for x in ks[i:] for k in x):
                    continue  # an object with a state of its own
                if m.via is not None and (m.via.name in CHANGING or _reported(eff, m.via, how, imm_names)):
                    if not (m.via.name in CHANGING and m.via.name.startswith("__set")):
                        continue
                rep.fail("container", f"{f.qual.split('.', 1)[1]}:{'.'.join(loc)}",
                         f"{f.qual} modifies a container that belongs to a {'/'.join(sorted(x.split('.')[-1] for x in owner))}: {'.'.join(loc)} ({how})", _loc(f, m))
    for c in sorted(eff.immutable, key=lambda c: c.qual):
        rep.ok("classes", c.qual)
    rep.require("methods", 600)
    rep.require("classes", 60)


def _loc(f, m):
    return f"{f.module.rel}:{m.node.lineno}"


def _at_home(eff, f, loc):
    return self_root(f, loc)


def _reported(eff: Effects, g: FuncInfo, how, imm_names) -> bool:
    """The callee itself is reported for this change."""
    for (loc, h), m in eff.sum[g].muts.items():
        if h == how and m.via is None:
            ks = steps(eff, g, loc)
            if any(ks[i - 1] & imm_names and loc[i] != "*" for i in range(1, len(loc))):
                return True
    return False


def _only_from_ctor(eff: Effects, f: FuncInfo) -> bool:
    """A private helper of the constructor: all its calls in the package are made by constructors of the class."""
    if not f.name.startswith("_"):
        return False
    callers = set()
    for g in eff.funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == f.name and g is not f:
                callers.add(g)
    return bool(callers) and all(g.name in ("__init__", "__post_init__") for g in callers)


def check_X04(ctx: Ctx):
    rep = ctx.rep
    eff = effects(ctx)
    for f in eff.funcs:
        s = eff.sum[f]
        ctx.visited.add(f.qual)
        # default values are shared between calls
        a = f.node.args
        pos = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p, d in defaults.items():
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
                    isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "deque"):
                rep.ok("defaults", f"{f.qual}:{p}")
                for (loc, how), m in s.muts.items():
                    if loc[0] == p:
                        rep.fail("default", f"{f.qual.split('.', 1)[1]}:{p}", f"{f.qual} modifies the default value of its parameter {p} ({how})", _loc(f, m))
        if not is_public(f) or f.name in ("__setitem__", "__delitem__", "__enter__", "__exit__"):
            continue
        rep.ok("inputs", f.qual)
        for (loc, how), m in s.muts.items():
            if self_root(f, loc) or loc[0].startswith(("<", "^")) or not container_change(how):
                continue
            if any(a.arg == loc[0] and a in (f.node.args.vararg, f.node.args.kwarg) for a in f.all_params()) and len(loc) == 1:
                continue
            if (f.name, loc[0]) in MODIFIES:
                continue
            if f.cls is not None and f.name.startswith(("visit_", "__")) and f.name != "__init__":
                pass
            ks = steps(eff, f, loc)
            if any(k.startswith("postbound") for x in ks[1:] for k in x) and len(loc) > 1 and not _is_data(eff, ks, loc):
                continue  # the state of another (mutable) object
            rep.fail("input", f"{f.qual.split('.', 1)[1]}:{'.'.join(loc)}", f"{f.qual} modifies its argument {'.'.join(loc)} ({how})"
                     + (f" by calling {m.via.qual}" if m.via is not None else ""), _loc(f, m))
    rep.require("inputs", 1200)


def _is_data(eff, ks, loc) -> bool:
    return False


NAMED_CHECK = re.compile(r"_?_?(check|validate|assert|ensure|require|verify|setup|init|register|raise|fail)")
PURE_METHODS = READS - {"format", "index", "find", "count", "get", "copy", "encode", "decode"}


def check_X02(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    eff = effects(ctx)
    owner: dict[ast.AST, FuncInfo] = {}
    for f in eff.funcs:
        for n in ast.walk(f.node):
            if f.outer is None or n not in owner:
                owner.setdefault(n, f)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            f = owner.get(n)
            where = f.qual.split(".", 1)[1] if f is not None else m.name
            if f is not None:
                ctx.visited.add(f.qual)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                c = n.value
                name = ast.unparse(c.func).split(".")[-1] if isinstance(c.func, (ast.Name, ast.Attribute)) else "?"
                rep.ok("statements", f"{m.rel}:{name}:{len(rep.obligations.get('statements', ()))}")
                why = pure_call(eff, m, c)
                if why:
                    rep.fail("discarded", f"{where}:{name}", f"the result of {ast.unparse(c.func)}() is discarded: {why}", f"{m.rel}:{n.lineno}")
            elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.BinOp, ast.Compare, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                if any(isinstance(x, ast.Name) for x in ast.walk(n.value)) and not any(isinstance(x, (ast.Call, ast.Await)) and not pure_call(eff, m, x)
                                                                                      for x in ast.walk(n.value)):
                    rep.fail("expression", f"{where}:{type(n.value).__name__}", f"the value of '{ast.unparse(n.value)[:60]}' is discarded", f"{m.rel}:{n.lineno}")
    for f in eff.funcs:
        unread(ctx, eff, f)
    rep.require("statements", 500)
    rep.require("variables", 800)


def pure_call(eff: Effects, m, c: ast.Call) -> Optional[str]:
    fs = eff.call_targets.get(c)
    if fs:
        if all(g.is_generator() and not _ctxmanager(g) for g in fs):
            return f"{fs[0].name} is a generator that does nothing until it is iterated"
        if all(_pure(eff, g) for g in fs):
            return f"{fs[0].name} has no effect besides its result"
        return None
    if isinstance(c.func, ast.Name):
        if c.func.id in ("sorted", "reversed", "list", "set", "dict", "tuple", "frozenset", "map", "filter", "zip", "enumerate") and c.args:
            if c.func.id in ("list", "tuple", "set", "dict", "frozenset") and isinstance(c.args[0], (ast.Call, ast.GeneratorExp)):
                return None  # exhausts an iterator
            return f"{c.func.id} has no effect besides its result"
        return None
    if isinstance(c.func, ast.Attribute):
        r = eff.prog.resolve_dotted(m.name, c.func)
        if r is not None:
            return None
        root = c.func.value
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        if isinstance(root, ast.Name) and root.id in m.imports:
            return None
        cands = eff.by_method.get(c.func.attr, [])
        if cands and "_" in c.func.attr and len({g.cls for g in cands}) >= 1 and all(_pure(eff, g) or g.is_generator() for g in cands):
            return f"no operation {c.func.attr} has an effect besides its result"
        if not cands and c.func.attr in PURE_METHODS:
            return f"{c.func.attr} has no effect besides its result"
    return None


def _ctxmanager(g: FuncInfo) -> bool:
    from ..model import deco_name
    return any("contextmanager" in deco_name(d) for d in g.node.decorator_list)


def _pure(eff: Effects, g: FuncInfo) -> bool:
    s = eff.sum.get(g)
    return s is not None and not is_hook(g) and s.pure and s.returns_value and not g.abstract and not g.overload and not (s.raises and NAMED_CHECK.match(g.name))


def unread(ctx: Ctx, eff: Effects, f: FuncInfo):
    """Variables that receive the result of a pure operation and are never read."""
    if f.outer is not None:
        return
    reads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f.node)) or "locals" in reads:
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            v = n.targets[0].id
            fs = eff.call_targets.get(n.value)
            if not fs or v.startswith("_"):
                continue
            ctx.rep.ok("variables", f"{f.qual}:{v}")
            if v not in reads and all(_pure(eff, g) or g.is_generator() for g in fs):
                ctx.rep.fail("unread", f"{f.qual.split('.', 1)[1]}:{v}", f"{f.qual} computes '{v}' with {fs[0].name}() but never uses it", f"{f.module.rel}:{n.lineno}")
