"""Program model of the analysed package: modules, imports, classes, functions.

Everything is derived from the current sources below the package root; nothing of the
analysed program is imported or executed.
"""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field
from typing import Optional

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "postbound"


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unparsable source, ...)."""


@dataclass(eq=False)
class FuncInfo:
    name: str
    qual: str
    module: "Module"
    node: ast.AST  # FunctionDef | Lambda
    cls: Optional["ClassInfo"] = None
    outer: Optional["FuncInfo"] = None
    kind: str = "function"  # function | method | static | classmethod | property | cached_property | setter
    abstract: bool = False
    overload: bool = False

    @property
    def line(self) -> int:
        return self.node.lineno

    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def arg_names(self) -> list[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self) -> list[ast.arg]:
        a = self.node.args
        out = list(a.posonlyargs) + list(a.args)
        if a.vararg:
            out.append(a.vararg)
        out += list(a.kwonlyargs)
        if a.kwarg:
            out.append(a.kwarg)
        return out

    def is_generator(self) -> bool:
        if isinstance(self.node, ast.Lambda):
            return False
        cached = getattr(self, "_isgen", None)
        if cached is None:
            cached = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
            self._isgen = cached
        return cached


def walk_own(fn: ast.AST):
    """Walk the nodes of a function body without descending into nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


@dataclass(eq=False)
class ClassInfo:
    name: str
    qual: str
    module: "Module"
    node: ast.ClassDef
    bases: list = field(default_factory=list)  # list[ClassInfo | str]
    methods: dict[str, FuncInfo] = field(default_factory=dict)
    setters: dict[str, FuncInfo] = field(default_factory=dict)
    class_attrs: dict[str, ast.AST] = field(default_factory=dict)
    annots: dict[str, ast.AST] = field(default_factory=dict)
    ann_defaults: dict[str, Optional[ast.AST]] = field(default_factory=dict)
    decorators: list[str] = field(default_factory=list)
    _mro: Optional[list] = None

    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def mro(self) -> list["ClassInfo"]:
        if self._mro is None:
            out = [self]
            seqs = [b.mro()[:] for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            # C3 merge, falling back to DFS
            res = []
            seqs2 = [list(s) for s in seqs]
            ok = True
            while any(seqs2):
                seqs2 = [s for s in seqs2 if s]
                if not seqs2:
                    break
                for s in seqs2:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs2):
                        break
                else:
                    ok = False
                    break
                res.append(cand)
                for s in seqs2:
                    if s and s[0] is cand:
                        del s[0]
            if not ok:
                res = []
                for b in self.bases:
                    if isinstance(b, ClassInfo):
                        for c in b.mro():
                            if c not in res:
                                res.append(c)
            self._mro = out + res
        return self._mro

    def external_bases(self) -> list[str]:
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out

    def find(self, name: str, after: Optional["ClassInfo"] = None) -> Optional[FuncInfo]:
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name: str) -> Optional[FuncInfo]:
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_class_attr(self, name: str):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
            if name in c.methods:
                return None
        return None

    def is_subclass(self, other: "ClassInfo") -> bool:
        return other in self.mro()

    def is_dataclass(self) -> bool:
        return any(d.split(".")[-1] == "dataclass" for d in self.decorators)

    def is_namedtuple(self) -> bool:
        return any(isinstance(b, str) and b.split(".")[-1] == "NamedTuple" for b in self.bases)

    def is_enum(self) -> bool:
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in self.external_bases())

    def record_fields(self) -> list[tuple[str, Optional[ast.AST]]]:
        """Fields (name, default) of a dataclass/NamedTuple, including inherited ones."""
        out: dict[str, Optional[ast.AST]] = {}
        for c in reversed(self.mro()):
            if c.is_dataclass() or c.is_namedtuple():
                for n in c.annots:
                    out[n] = c.ann_defaults.get(n)
        return list(out.items())

    def enum_members(self) -> list[str]:
        return [n for n in self.class_attrs if not n.startswith("_")]

    def is_abstract_own(self) -> bool:
        return any(m.abstract for m in self.methods.values())

    def abstract_methods(self) -> list[str]:
        names = {}
        for c in reversed(self.mro()):
            for n, m in c.methods.items():
                names[n] = m
            for n in c.class_attrs:
                names.pop(n, None)
        return sorted(n for n, m in names.items() if m.abstract)


@dataclass(eq=False)
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    is_pkg: bool
    imports: dict[str, tuple] = field(default_factory=dict)  # alias -> ('mod', name) | ('sym', mod, name)
    defs: dict[str, object] = field(default_factory=dict)  # name -> FuncInfo | ClassInfo
    consts: dict[str, ast.AST] = field(default_factory=dict)  # module level assignments (last one)
    type_aliases: dict[str, ast.AST] = field(default_factory=dict)


def deco_name(d: ast.AST) -> str:
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return ""


def direct_returns(tree: ast.Module) -> ast.Module:
    """Writes `x = value; return x` as `return value`, such that naming a result makes no difference to the rules."""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        uses: dict[str, int] = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                uses[n.id] = uses.get(n.id, 0) + 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    uses[x] = 99
        for n in ast.walk(f):
            for part in ("body", "orelse", "finalbody"):
                block = getattr(n, part, None)
                if not isinstance(block, list):
                    continue
                while len(block) >= 2 and isinstance(block[-1], ast.Return) and isinstance(block[-1].value, ast.Name):
                    s, name = block[-2], block[-1].value.id
                    target = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
                    if not isinstance(target, ast.Name) or target.id != name or not (uses.get(name) == 2 or _paired(f, name)):
                        break
                    block[-2:] = [ast.copy_location(ast.Return(s.value), s)]
    return tree


def _paired(f, name: str) -> bool:
    """Whether each use of a name is part of a pair `name = value; return name`."""
    total = sum(isinstance(n, ast.Name) and n.id == name for n in ast.walk(f))
    pairs = 0
    for n in ast.walk(f):
        for part in ("body", "orelse", "finalbody"):
            block = getattr(n, part, None)
            if isinstance(block, list) and len(block) >= 2 and isinstance(block[-1], ast.Return) and isinstance(block[-1].value, ast.Name) and block[-1].value.id == name:
                s = block[-2]
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
                if isinstance(t, ast.Name) and t.id == name and not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.value)):
                    pairs += 1
    return total == 2 * pairs


class Program:
    def __init__(self, repo: str = None) -> None:
        self.repo = repo or REPO
        self.modules: dict[str, Module] = {}
        self.functions: list[FuncInfo] = []
        self.classes: list[ClassInfo] = []
        self._load()
        self._collect()
        self._resolve_bases()
        self.by_name: dict[str, list[ClassInfo]] = {}
        for c in self.classes:
            self.by_name.setdefault(c.name, []).append(c)
        self._subs: dict[ClassInfo, list[ClassInfo]] = {}
        for c in self.classes:
            for b in c.mro()[1:]:
                self._subs.setdefault(b, []).append(c)

    # -- loading ---------------------------------------------------------------------------------
    def _load(self) -> None:
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        for dp, dn, fn in os.walk(root):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = direct_returns(ast.parse(src, filename=rel))
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {rel}: {e}")
                name = ".".join(parts)
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
                stub = p + "i"
                if os.path.exists(stub):
                    with open(stub, encoding="utf-8") as fh:
                        self.modules[name]._stub = ast.parse(fh.read())

    def _abs(self, mod: Module, level: int, target: Optional[str]) -> str:
        if level == 0:
            return target or ""
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        if target:
            parts += target.split(".")
        return ".".join(parts)

    def _collect(self) -> None:
        for m in self.modules.values():
            trees = [m.tree]
            if hasattr(m, "_stub"):
                trees.append(m._stub)
            for t in trees:
                for n in ast.walk(t):
                    if isinstance(n, ast.Import):
                        for a in n.names:
                            if a.asname:
                                m.imports[a.asname] = ("mod", a.name)
                            else:
                                m.imports.setdefault(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                    elif isinstance(n, ast.ImportFrom):
                        base = self._abs(m, n.level, n.module)
                        for a in n.names:
                            m.imports[a.asname or a.name] = ("sym", base, a.name)
            self._collect_body(m, m.tree.body, None, None, m.name)

    def _collect_body(self, m: Module, body, cls, outer, prefix) -> None:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._make_func(m, n, cls, outer, prefix)
                if cls is not None:
                    if f.kind == "setter":
                        cls.setters[n.name] = f
                    elif f.overload:
                        pass
                    else:
                        cls.methods[n.name] = f
                elif outer is None:
                    if not f.overload:
                        m.defs[n.name] = f
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo(n.name, f"{prefix}.{n.name}", m, n)
                c.decorators = [deco_name(d) for d in n.decorator_list]
                self.classes.append(c)
                if cls is None and outer is None:
                    m.defs[n.name] = c
                self._collect_body(m, n.body, c, outer, c.qual)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if cls is not None:
                            cls.class_attrs[t.id] = n.value
                        elif outer is None:
                            m.consts[t.id] = n.value
                    elif isinstance(t, ast.Tuple) and cls is None and outer is None:
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name) and isinstance(n.value, ast.Tuple) and i < len(n.value.elts):
                                m.consts[e.id] = n.value.elts[i]
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if cls is not None:
                    cls.annots[n.target.id] = n.annotation
                    cls.ann_defaults[n.target.id] = n.value
                elif outer is None:
                    if n.value is not None:
                        m.consts[n.target.id] = n.value
            elif isinstance(n, ast.TypeAlias) and cls is None and outer is None:
                m.type_aliases[n.name.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)) and outer is None:
                for sub in ("body", "orelse", "finalbody"):
                    self._collect_body(m, getattr(n, sub, []) or [], cls, outer, prefix)
                for h in getattr(n, "handlers", []):
                    self._collect_body(m, h.body, cls, outer, prefix)

    def _make_func(self, m, n, cls, outer, prefix) -> FuncInfo:
        decos = [deco_name(d) for d in n.decorator_list]
        tails = [d.split(".")[-1] for d in decos]
        kind = "method" if cls is not None else "function"
        if cls is not None:
            if "staticmethod" in tails:
                kind = "static"
            elif "classmethod" in tails:
                kind = "classmethod"
            elif "property" in tails:
                kind = "property"
            elif "cached_property" in tails:
                kind = "property"
            elif any(d.endswith(".setter") for d in decos):
                kind = "setter"
        f = FuncInfo(n.name, f"{prefix}.{n.name}", m, n, cls, outer, kind)
        f.abstract = "abstractmethod" in tails
        f.overload = "overload" in tails
        f.decos = decos
        self.functions.append(f)
        # nested definitions
        nested = {}
        for sub in walk_own(n):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = self._make_func(m, sub, None, f, f.qual)
                nested[sub.name] = g
        f.nested = nested
        return f

    # -- resolution ------------------------------------------------------------------------------
    def lookup(self, modname: str, name: str, _depth: int = 0):
        """Resolve a global name: FuncInfo | ClassInfo | ('module', name) | ('const', Module, name) | ('ext', dotted)."""
        if _depth > 12:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        if name in m.defs:
            return m.defs[name]
        if name in m.consts:
            # simple aliasing  A = B
            v = m.consts[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.lookup(modname, v.id, _depth + 1)
                if isinstance(r, (FuncInfo, ClassInfo)):
                    return r
            return ("const", m, name)
        if name in m.type_aliases:
            return ("alias", m, name)
        if name in m.imports:
            k = m.imports[name]
            if k[0] == "mod":
                if k[1] in self.modules:
                    return ("module", k[1])
                return ("ext", k[1])
            _, base, sym = k
            if f"{base}.{sym}" in self.modules and not (base in self.modules and sym in self.modules[base].defs):
                return ("module", f"{base}.{sym}")
            if base in self.modules:
                return self.lookup(base, sym, _depth + 1)
            return ("ext", f"{base}.{sym}")
        if f"{modname}.{name}" in self.modules:
            return ("module", f"{modname}.{name}")
        return None

    def resolve_dotted(self, modname: str, node: ast.AST):
        """Resolve Name/Attribute chains of globals (modules, classes, functions, class attributes)."""
        if isinstance(node, ast.Name):
            return self.lookup(modname, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_dotted(modname, node.value)
            return self.member(base, node.attr)
        return None

    def member(self, base, attr):
        if isinstance(base, tuple) and base[0] == "module":
            return self.lookup(base[1], attr)
        if isinstance(base, tuple) and base[0] == "ext":
            return ("ext", base[1] + "." + attr)
        if isinstance(base, ClassInfo):
            if base.is_enum() and attr in base.class_attrs:
                return ("enum", base, attr)
            f = base.find(attr)
            if f is not None:
                return f
            ca = base.find_class_attr(attr)
            if ca is not None:
                return ("classattr", ca[0], attr)
        return None

    def _resolve_bases(self) -> None:
        for c in self.classes:
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_dotted(c.module.name, b)
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                elif isinstance(r, tuple) and r[0] == "ext":
                    c.bases.append(r[1])
                else:
                    c.bases.append(ast.unparse(b))

    # -- convenience -----------------------------------------------------------------------------
    def cls(self, name: str, module: Optional[str] = None) -> ClassInfo:
        """The class with the given name; `module` is a hint only (classes may be moved)."""
        cands = self.by_name.get(name, [])
        if module is not None:
            r = self.lookup(module, name) if module in self.modules else None
            if isinstance(r, ClassInfo):
                return r
        if len(cands) == 1:
            return cands[0]
        if not cands:
            raise AnalysisError(f"class {name} not found in the analysed package")
        raise AnalysisError(f"class {name} is ambiguous")

    def has_cls(self, name: str) -> bool:
        return bool(self.by_name.get(name))

    def func(self, module: str, name: str) -> FuncInfo:
        r = None
        if module in self.modules:
            if "." in name:
                c, f = name.split(".", 1)
                cl = self.lookup(module, c)
                if isinstance(cl, ClassInfo):
                    r = cl.find(f)
            else:
                r = self.lookup(module, name)
        if not isinstance(r, FuncInfo):
            raise AnalysisError(f"function {module}.{name} not found in the analysed package")
        return r

    def find_func(self, module: str, name: str) -> Optional[FuncInfo]:
        try:
            return self.func(module, name)
        except AnalysisError:
            return None

    def subclasses(self, c: ClassInfo) -> list[ClassInfo]:
        return self._subs.get(c, [])

    def concrete_subclasses(self, c: ClassInfo, include_self: bool = True) -> list[ClassInfo]:
        cands = ([c] if include_self else []) + self.subclasses(c)
        return [x for x in cands if not x.abstract_methods()]

    # -- annotation types ------------------------------------------------------------------------
    def ty(self, module: Module, ann: Optional[ast.AST], _depth: int = 0) -> "Ty":
        if ann is None or _depth > 8:
            return ANY
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ty(module, ast.parse(ann.value, mode="eval").body, _depth + 1)
                except SyntaxError:
                    return ANY
            if ann.value is None:
                return Ty(frozenset({"None"}))
            return ANY
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return ty_union(self.ty(module, ann.left, _depth + 1), self.ty(module, ann.right, _depth + 1))
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if base == "Optional":
                return ty_union(self.ty(module, args[0], _depth + 1), Ty(frozenset({"None"})))
            if base == "Union":
                t = self.ty(module, args[0], _depth + 1)
                for a in args[1:]:
                    t = ty_union(t, self.ty(module, a, _depth + 1))
                return t
            if base in ("Literal",):
                return Ty(frozenset({"str"}))
            if base in ("TypeGuard", "ClassVar", "Final"):
                return self.ty(module, args[0], _depth + 1)
            if base in ("dict", "Mapping", "defaultdict", "frozendict", "Dict"):
                if len(args) == 2:
                    return Ty(frozenset({"dict"}), elem=self.ty(module, args[0], _depth + 1), val=self.ty(module, args[1], _depth + 1))
                return Ty(frozenset({"dict"}))
            if base in ("tuple", "Tuple"):
                ets = [self.ty(module, a, _depth + 1) for a in args if not (isinstance(a, ast.Constant) and a.value is Ellipsis)]
                if any(isinstance(a, ast.Constant) and a.value is Ellipsis for a in args):
                    return Ty(frozenset({"tuple"}), elem=ets[0] if ets else ANY)
                t = ets[0] if ets else ANY
                for e in ets[1:]:
                    t = ty_union(t, e)
                return Ty(frozenset({"tuple"}), elem=t, items=tuple(ets))
            if base in ("list", "List", "set", "Set", "frozenset", "FrozenSet", "Sequence", "Iterable", "Collection",
                        "Iterator", "deque", "MutableSequence"):
                name = {"List": "list", "Set": "set", "FrozenSet": "frozenset"}.get(base, base)
                return Ty(frozenset({name}), elem=self.ty(module, args[0], _depth + 1))
            if base in ("Generator",):
                return Ty(frozenset({"Iterable"}), elem=self.ty(module, args[0], _depth + 1))
            if base in ("type", "Type"):
                return ANY
            return self.ty(module, ann.value, _depth + 1)
        if isinstance(ann, ast.Call) and ast.unparse(ann.func).split(".")[-1] == "TypeVar":
            return next((self.ty(module, k.value, _depth + 1) for k in ann.keywords if k.arg == "bound"), ANY)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.resolve_dotted(module.name, ann)
            if isinstance(r, ClassInfo):
                return Ty(frozenset({r.qual}))
            if isinstance(r, tuple) and r[0] == "const":
                return self.ty(r[1], r[1].consts[r[2]], _depth + 1)
            if isinstance(r, tuple) and r[0] == "alias":
                return self.ty(r[1], r[1].type_aliases[r[2]], _depth + 1)
            n = ast.unparse(ann).split(".")[-1]
            if n in ("int", "str", "float", "bool", "dict", "list", "set", "tuple", "frozenset", "Iterable", "Sequence", "Path", "None"):
                return Ty(frozenset({n}))
            return ANY
        return ANY

    def param_ty(self, f: FuncInfo, ann) -> "Ty":
        """Type of an annotation within a function, which may have type parameters."""
        g = f
        while g is not None:
            for node in (g.node, g.cls.node if g.cls is not None else None):
                for tp in getattr(node, "type_params", None) or []:
                    if isinstance(ann, ast.Name) and tp.name == ann.id:
                        return self.ty(f.module, tp.bound) if getattr(tp, "bound", None) is not None else ANY
            g = g.outer
        return self.ty(f.module, ann)

    def class_of_qual(self, q: str) -> Optional[ClassInfo]:
        idx = getattr(self, "_qidx", None)
        if idx is None:
            idx = self._qidx = {c.qual: c for c in self.classes}
        return idx.get(q)


@dataclass(frozen=True)
class Ty:
    names: Optional[frozenset] = None  # None = anything
    elem: Optional["Ty"] = None
    val: Optional["Ty"] = None
    items: Optional[tuple] = None


ANY = Ty()


def ty_union(a: Ty, b: Ty) -> Ty:
    if a.names is None or b.names is None:
        # keep element info of the known half only if other is None-type
        return ANY
    if a.elem is None or b.elem is None:
        elem = a.elem or b.elem
    else:
        elem = ty_union(a.elem, b.elem) if a.elem != b.elem else a.elem
    if a.val is None or b.val is None:
        val = a.val or b.val
    else:
        val = ty_union(a.val, b.val) if a.val != b.val else a.val
    items = a.items if b.items is None else (b.items if a.items is None else (a.items if a.items == b.items else None))
    return Ty(a.names | b.names, elem, val, items)
