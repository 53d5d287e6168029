"""X01: the parts of the library fit together (call shapes, attributes, interfaces)."""
from __future__ import annotations

import re

from ..typed import Diag, diagnostics, type_head, union_parts
from .common import *

# Diagnostics that have been examined and rest on an annotation that is less precise than the code: (module, function, text) -> reason.
IMPRECISE: dict[tuple, str] = {
}

BASIC = {"str", "int", "float", "bool", "list", "set", "dict", "tuple", "frozenset", "bytes"}


def lib_class(ctx: Ctx, t: str) -> Optional[ClassInfo]:
    h = type_head(t).split(".")[-1]
    cs = ctx.prog.by_name.get(h, [])
    return cs[0] if len(cs) == 1 else None


def has_attr(ctx: Ctx, c: ClassInfo, name: str) -> bool:
    if c.external_bases() and any(b not in ("object", "abc.ABC", "ABC", "Protocol", "typing.Protocol", "Generic") and not b.startswith(("Generic", "typing.Generic",
                                  "Protocol", "typing.Protocol")) for b in c.external_bases()):
        return True
    for k in c.mro():
        if name in k.methods or name in k.class_attrs or name in k.annots or name in k.setters or "__getattr__" in k.methods:
            return True
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    return True
    return False


def short(msg: str) -> str:
    return msg.split("\n")[0]


def callee_at(ctx: Ctx, d: Diag):
    """The innermost call at the position of the diagnostic."""
    m = next((m for m in ctx.prog.modules.values() if m.rel == d.rel), None)
    best = None
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= (d.line, d.col) <= (n.end_lineno, n.end_col_offset):
            if best is None or (n.lineno, n.col_offset) >= (best.lineno, best.col_offset):
                best = n
    return best


def dynamic_callee(ctx: Ctx, d: Diag, c: ast.Call) -> bool:
    """The called object is computed (e.g. the class of an argument), so that the declared type says little about its signature."""
    if not isinstance(c.func, ast.Name):
        return isinstance(c.func, (ast.Call, ast.Subscript))
    fn = next((f for f in ctx.prog.functions if f.module.rel == d.rel and f.node.lineno <= c.lineno <= f.node.end_lineno), None)
    return fn is not None and any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == c.func.id for n in ast.walk(fn.node))


def guarded(ctx: Ctx, d, attr: str) -> bool:
    """The function asks the receiver for its kind (`is_...()`), and some other class of the library has the attribute."""
    if not any(has_attr(ctx, c, attr) for c in ctx.prog.classes):
        return False
    mod = next((m for m in ctx.prog.modules.values() if m.rel == d.rel), None)
    if mod is None:
        return False
    fns = [f for f in ast.walk(mod.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= d.line <= (f.end_lineno or 0)]
    recv = {ast.unparse(n.value) for f in fns for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == attr and n.lineno <= d.line <= n.end_lineno}
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith("is_") and not n.args
               and ast.unparse(n.func.value) in recv for f in fns for n in ast.walk(f))


def overloaded(ctx: Ctx, d: Diag) -> bool:
    m = re.search(r'in function "(\w+)"', d.msg)
    return m is not None and any(f.overload for f in ctx.prog.functions if f.name == m.group(1))


def check_X01(ctx: Ctx):
    rep, prog = ctx.rep, ctx.prog
    diags = diagnostics(prog)
    ncalls = sum(isinstance(n, ast.Call) for m in prog.modules.values() for n in ast.walk(m.tree))
    nattrs = sum(isinstance(n, ast.Attribute) for m in prog.modules.values() for n in ast.walk(m.tree))
    rep.notes.append(f"the type checker examined {ncalls} calls and {nattrs} attribute accesses in {len(prog.modules)} modules")
    for m in prog.modules.values():
        for f in prog.functions:
            if f.module is m and not isinstance(f.node, ast.Lambda):
                rep.ok("interfaces", f.qual)
    for d in diags:
        msg = short(d.msg)
        key = None
        if d.rule == "reportCallIssue" and re.match(r"Expected \d+ (more )?positional argument|No parameter named|Arguments? missing for parameter|Multiple parameters", msg):
            c = callee_at(ctx, d)
            if c is not None and dynamic_callee(ctx, d, c):
                continue
            name = ast.unparse(c.func).split(".")[-1] if c is not None else "?"
            key, rule = f"{name}:{msg.replace(' ', '_')}", "call-shape"
        elif d.rule == "reportAttributeAccessIssue":
            m = re.match(r'Cannot access attribute "(\w+)" for class "(.*)"', msg)
            if m:
                c = lib_class(ctx, m.group(2))
                if c is None or any(has_attr(ctx, k, m.group(1)) for k in [c] + prog.subclasses(c)):
                    continue
                if guarded(ctx, d, m.group(1)):
                    continue
                key, rule = f"{c.name}.{m.group(1)}", "attribute"
            else:
                m = re.match(r'"(\w+)" is unknown import symbol', msg)
                if m:
                    key, rule = m.group(1), "import"
        elif d.rule == "reportAbstractUsage":
            m = re.search(r'abstract class "(\w+)"', msg)
            key, rule = (m.group(1) if m else d.fn), "abstract"
        elif d.rule == "reportUndefinedVariable":
            key, rule = f"{d.fn}:{msg.split()[0].strip(chr(34))}", "undefined"
        elif d.rule == "reportArgumentType" and not overloaded(ctx, d):
            m = re.match(r'Argument of type "(.*)" cannot be assigned to parameter "(\w+)" of type "(.*)" in function "(\w+)"', msg)
            if m and (unrelated(ctx, m.group(1), m.group(3)) or wrong_literal(m.group(1), m.group(3))):
                key, rule = f"{m.group(4)}:{m.group(2)}:{type_head(m.group(1))}", "argument"
        if key is None:
            continue
        if (d.rel.split("/")[-1], key) in IMPRECISE:
            continue
        rep.fail(rule, f"{d.rel.split('/')[-1]}:{key}", f"in {d.fn}: {msg}", f"{d.rel}:{d.line}")
    call_shapes(ctx)
    overrides(ctx)
    unimplemented(ctx)


def wrong_literal(have: str, want: str) -> bool:
    """A text constant where only other constants are allowed."""
    hs, ws = union_parts(have), [w for w in union_parts(want) if w != "None"]
    return bool(ws) and all(re.match(r"Literal\['", h) for h in hs) and all(w.startswith("Literal[") for w in ws)


def common_names() -> set:
    out = {"append", "execute"}
    for t in (str, bytes, int, float, list, dict, set, frozenset, tuple, object, Exception, type, property):
        out |= set(dir(t))
    return out


def accepts(f: FuncInfo, bound: bool, npos: int, kws: set, star: bool, dstar: bool) -> bool:
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos and f.kind != "static":
        pos = pos[1:]
    required = pos[:len(pos) - len(a.defaults)] if a.defaults else list(pos)
    if npos > len(pos) and a.vararg is None:
        return False
    for k in kws:
        if a.kwarg is None and k not in pos and k not in {x.arg for x in a.kwonlyargs}:
            return False
        if k in pos[:npos]:
            return False
    if not star and not dstar and any(r not in kws for r in required[npos:]):
        return False
    return dstar or all(d is not None or x.arg in kws for x, d in zip(a.kwonlyargs, a.kw_defaults))


def call_shapes(ctx: Ctx):
    """Calls by name: some operation of that name in the package accepts the arguments (the receiver need not be known)."""
    rep, prog = ctx.rep, ctx.prog
    methods: dict[str, list[FuncInfo]] = {}
    attrs: set[str] = set()
    for c in prog.classes:
        attrs |= set(c.class_attrs) | set(c.annots)
        for n, f in c.methods.items():
            methods.setdefault(n, []).append(f)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
    skip = common_names() | attrs
    for m in prog.modules.values():
        external = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                external |= {(a.asname or a.name).split(".")[0] for a in n.names}
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in methods and n.func.attr not in skip and "_" in n.func.attr):
                continue
            name, root = n.func.attr, n.func.value
            while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if isinstance(root, ast.Name) and root.id in external or ast.unparse(n.func.value).startswith(("gv.", "plt.", "np.", "nx.", "pd.")):
                continue
            base = prog.resolve_dotted(m.name, n.func.value)
            if base is not None and not isinstance(base, ClassInfo):
                continue  # a function of a module
            cands = methods[name]
            if any(f.kind in ("property", "cached_property") or f.overload for f in cands):
                continue
            npos = sum(not isinstance(a, ast.Starred) for a in n.args)
            star, dstar = npos < len(n.args), any(k.arg is None for k in n.keywords)
            kws = {k.arg for k in n.keywords if k.arg}
            rep.ok("named calls", f"{m.rel}:{name}:{len(rep.obligations.get('named calls', ()))}")
            if not any(accepts(f, bound, npos, kws, star, dstar) for f in cands for bound in ((True, False) if isinstance(base, ClassInfo) or f.kind == "static"
                                                                                          else (True,))):
                rep.fail("named-call", f"{m.rel.split('/')[-1]}:{name}:{'+'.join(sorted(kws)) or npos}",
                         f"no operation {name} of the package accepts these arguments ({', '.join(f.qual for f in cands[:4])})", f"{m.rel}:{n.lineno}")
    rep.require("named calls", 300)


def unrelated(ctx: Ctx, have: str, want: str) -> bool:
    """The types have no common instances (as far as library classes and the basic containers are concerned)."""
    hs, ws = [], []
    for t in union_parts(have):
        c = lib_class(ctx, t)
        if c is None or c.is_enum() or t.startswith("type["):
            return False
        hs.append(c)
    for t in union_parts(want):
        if t == "None":
            continue
        c = lib_class(ctx, t)
        if c is None and type_head(t) not in BASIC:
            return False
        if c is not None:
            if t.startswith("type[") or "Protocol" in " ".join(c.external_bases()):
                return False
            ws.append(c)
        elif type_head(t) in BASIC:
            ws.append(type_head(t))
    if not ws:
        return False
    for h in hs:
        for w in ws:
            if isinstance(w, str):
                if any(b.split(".")[-1].lower().replace("user", "") == w or b in (w, "UserString", "collections.UserString", "UserDict", "collections.UserDict",
                                                                               "NamedTuple", "typing.NamedTuple") for k in h.mro() for b in k.external_bases()):
                    return False
                if any(k.find(x) for k in [h] for x in ("__float__", "__int__", "__index__")) and w in ("int", "float"):
                    return False
            elif h.is_subclass(w) or w.is_subclass(h) or set(ctx.prog.subclasses(h)) & set(ctx.prog.subclasses(w)):
                return False
    return True


def sig(f: FuncInfo):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.kind in ("method", "classmethod", "property", "cached_property") and pos:
        pos = pos[1:]
    nd = len(a.defaults)
    req = set(pos[:len(pos) - nd] if nd else pos)
    kwreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    kw = {x.arg for x in a.kwonlyargs}
    return pos, req, kw, kwreq, a.vararg is not None, a.kwarg is not None


def overrides(ctx: Ctx):
    """Operations of subclasses accept all calls that the operation of the superclass accepts."""
    rep = ctx.rep
    for c in ctx.prog.classes:
        for name, f in c.methods.items():
            if name in ("__init__", "__new__", "__post_init__", "__init_subclass__") or (name.startswith("_") and not name.startswith("__")) or f.overload:
                continue
            base = next((b.methods[name] for b in c.mro()[1:] if name in b.methods), None)
            if base is None or base.kind == "static" or f.kind in ("static", "setter") or base.kind in ("setter",):
                continue
            rep.ok("override", f"{c.name}.{name}")
            if (base.kind in ("property", "cached_property")) != (f.kind in ("property", "cached_property")):
                rep.fail("override", f"{c.name}.{name}", f"{f.qual} and {base.qual} differ: only one of them is a property", f.loc())
                continue
            bp, breq, bkw, bkwreq, bva, bka = sig(base)
            fp, freq, fkw, fkwreq, fva, fka = sig(f)
            if len(fp) < len(bp) and not fva:
                rep.fail("override", f"{c.name}.{name}", f"{f.qual} accepts fewer arguments than {base.qual}", f.loc())
            extra = [p for p in fp[len(bp):] if p in freq] if not bva else []
            extra += [p for p in fkwreq if p not in bkw and p not in bp]
            if extra:
                rep.fail("override", f"{c.name}.{name}", f"{f.qual} requires {', '.join(extra)}, which {base.qual} does not have", f.loc())
            missing = [p for p in bkw if p not in fkw and p not in fp and not fka]
            if missing:
                rep.fail("override", f"{c.name}.{name}:{'+'.join(missing)}", f"{f.qual} does not accept {', '.join(missing)} like {base.qual}", f.loc())
            if not name.startswith("__"):
                for i, (x, y) in enumerate(zip(bp, fp)):
                    if x != y and (y in bp or x in fp):
                        rep.fail("override", f"{c.name}.{name}:{x}", f"{f.qual} has '{y}' in the place of '{x}' of {base.qual}", f.loc())
            for x in bp + sorted(bkw):
                # an option that is optional in the interface is optional in the implementation
                if (x in fp or x in fkw) and x not in breq and x not in bkwreq and (x in freq or x in fkwreq):
                    rep.fail("override", f"{c.name}.{name}:{x}", f"{f.qual} requires '{x}', which is optional for {base.qual}", f.loc())
    rep.require("override", 200)


def unimplemented(ctx: Ctx):
    """Classes without subclasses that implement an interface implement all of it."""
    rep = ctx.rep
    for c in ctx.prog.classes:
        if not any(b.abstract_methods() for b in c.mro()[1:]) or any(f.abstract for f in c.methods.values()):
            continue
        rep.ok("implements", c.qual)
        am = c.abstract_methods()
        if am and not ctx.prog.subclasses(c):
            rep.fail("implements", f"{c.name}.{'+'.join(sorted(am))}", f"{c.qual} does not implement {', '.join(sorted(am))}", c.loc())
    rep.require("implements", 50)
