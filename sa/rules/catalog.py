"""B04-B06: catalog and statistics requests of the database interfaces."""
from __future__ import annotations

import ast
import itertools
import re

from ..interp import closure
from .checks import in_module
from .flow import *

DB_MODULES = (".db._db", ".postgres", ".duckdb", ".mysql", "._core")
ROWS = "rows#"

TABLE = {"table_name", "tablename", "relname", "referenced_table_name", "referenced_table", "rel_name"}
COLUMN = {"column_name", "attname", "constraint_column_names", "referenced_column_name", "referenced_column_names", "expressions"}
SCHEMA = {"table_schema", "schema_name", "schemaname", "nspname", "relnamespace", "referenced_table_schema", "constraint_schema", "index_schema"}
CATALOG = {"table_catalog", "database_name", "datname", "constraint_catalog", "catalog_name"}
CASTS = {"regclass": "table", "regnamespace": "schema"}


# ------------------------------------------------------------------------------------------------ text
def pieces(it: Interp, v: Optional[V], st: St, depth=0) -> Optional[list]:
    """The literal text and the inserted values of a string, None if it is not known."""
    if v is None or depth > 8:
        return None
    m = it.mat(v, st)
    if m.shape is None:
        return [m] if m.path is not None else None
    if m.shape[0] == "const":
        return [m.shape[1]] if isinstance(m.shape[1], str) else [str(m.shape[1])]
    if m.shape[0] == "fmt":
        out: list = []
        for p in m.shape[1]:
            sub = pieces(it, p, st, depth + 1)
            out += sub if sub is not None else [p]
        return out
    return None


def formatted(it: Interp, recv: V, args, kwargs, st: St) -> Optional[V]:
    """The result of str.format() on a known template."""
    import string
    tpl = pieces(it, recv, st)
    if tpl is None or any(not isinstance(x, str) for x in tpl):
        return None
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse("".join(tpl)):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "" or field.isdigit():
                i = int(field) if field else auto
                auto += 1
                if i >= len(args):
                    return None
                parts.append(args[i])
            elif field in kwargs:
                parts.append(kwargs[field])
            else:
                return None
    except ValueError:
        return None
    d = it.data([recv, *args, *kwargs.values()], st)
    return d.with_(shape=("fmt", parts, False), ty=Ty(frozenset({"str"})))


TOKEN = re.compile(r"'(?:[^']|'')*'|\"[^\"]*\"|%s|%\(\w+\)s|\?|::|\x00\d+\x00|[A-Za-z_][\w$]*(?:\.[A-Za-z_][\w$]*)*|\d+|<>|<=|>=|!=|\|\||[^\s]")


class Statement:
    """A SQL statement with placeholders and inserted values."""

    def __init__(self, parts: list):
        self.holes: list[V] = []
        text = ""
        for p in parts:
            if isinstance(p, str):
                text += p
            else:
                text += f"\x00{len(self.holes)}\x00"
                self.holes.append(p)
        self.text = text
        self.tokens = TOKEN.findall(text)
        self.marks = [i for i, t in enumerate(self.tokens) if t in ("%s", "?")]
        self.named = [t for t in self.tokens if re.fullmatch(r"%\(\w+\)s", t)]

    def role_at(self, i: int) -> Optional[set]:
        """The meaning of the operand at a position, according to what it is compared with."""
        t = self.tokens
        if i + 2 < len(t) + 0 and t[i + 1:i + 2] == ["::"] and t[i + 2].lower() in CASTS:
            return {CASTS[t[i + 2].lower()]}
        j = i - 1
        while j >= 0 and (t[j] == "(" or (t[j + 1] == "(" and re.fullmatch(r"[A-Za-z_]\w*", t[j]) and t[j].upper() not in ("IN", "AND", "OR", "WHERE", "NOT"))):
            j -= 1
        if j >= 1 and t[j].upper() in ("=", "<>", "!=", "LIKE", "ILIKE", "IN"):
            k = j - 1
            if t[k] == "NOT":
                k -= 1
            while k >= 0 and t[k] == ")":
                k -= 1
            # the operand may be wrapped into functions with literal arguments
            if t[k].startswith("'") or t[k] == ",":
                while k >= 0 and not re.fullmatch(r"[A-Za-z_][\w$]*(?:\.[A-Za-z_][\w$]*)+", t[k]) and t[k].upper() not in ("AND", "OR", "WHERE"):
                    k -= 1
            return name_role(t[k])
        if i + 2 < len(t) and t[i + 1] in ("=", "<>", "!="):
            return name_role(t[i + 2])
        return None

    def selected(self) -> Optional[list[str]]:
        """The columns of the result, as far as they can be told apart."""
        depth, out, cur, on = 0, [], [], False
        for t in self.tokens:
            u = t.upper()
            if not on:
                if u == "SELECT":
                    on = True
                    continue
                return None
            if depth == 0 and u == "FROM":
                break
            if t == "(":
                depth += 1
            if t == ")":
                depth -= 1
            if depth == 0 and t == ",":
                out.append(cur)
                cur = []
                continue
            if depth == 0 and u in ("DISTINCT", "ALL") and not cur and not out:
                continue
            cur.append(t)
        out.append(cur)
        if any(not c or c == ["*"] or c[-1].endswith(".*") or c[0].startswith("\x00") for c in out):
            return None
        return [" ".join(c) for c in out]


def name_role(tok: str) -> Optional[set]:
    n = tok.split(".")[-1].lower()
    if n in TABLE:
        return {"table"} if n != "relname" else {"table", "index"}
    for names, role in ((COLUMN, "column"), (SCHEMA, "schema"), (CATALOG, "catalog")):
        if n in names:
            return {role}
    return None


def column_role(text: str) -> Optional[set]:
    """The meaning of a column of the result."""
    toks = text.split(" ")
    if len(toks) == 1:
        return name_role(toks[0])
    if len(toks) == 3 and toks[1].upper() == "AS":
        return name_role(toks[0])
    return None


def value_role(v: Optional[V]) -> Optional[str]:
    if v is None or v.calls - {"full_name"}:
        pass
    if v is None:
        return None
    paths = [p for p in v.src if not p[0].startswith("@")]
    roles = {path_role(p) for p in paths}
    if v.path is not None:
        roles = {path_role(v.path)}
    roles.discard(None)
    return roles.pop() if len(roles) == 1 else None


def path_role(p: tuple) -> Optional[str]:
    last = p[-1].removesuffix("()").lstrip("!_")
    if last == "schema":
        return "schema"
    if last in ("full_name", "table_name") or (len(p) == 1 and last == "table"):
        return "table"
    if last in ("alias", "identifier", "qualified_name"):
        return "alias"
    if last == "name" and len(p) >= 2 and p[-2].lstrip("_") in ("column", "col"):
        return "column"
    if last == "database_name":
        return "catalog"
    if len(p) == 1 and last == "index":
        return "index"
    return None


# ------------------------------------------------------------------------------------------------ running
class Probe:
    """Observes the statements that a function sends to the database."""

    def __init__(self):
        self.sent: list[tuple] = []

    def hook(self, it, name, recv, args, kwargs, st):
        tail = name.split(".")[-1]
        if tail == "dedent" and args:
            return [(args[0], st)]
        if tail == "format" and recv is not None:
            v = formatted(it, recv, args, kwargs, st)
            if v is not None:
                return [(v, st)]
        if name == "execute" and recv is not None and (args or kwargs):
            q = args[0] if args else next(iter(kwargs.values()))
            rest = list(args[1:]) + [v for k, v in kwargs.items() if k not in ("query", "operation", "sql", "prepare", "binary")]
            if not args and kwargs:
                rest = [v for k, v in list(kwargs.items())[1:]]
            parts = pieces(it, q, st)
            given = it.mat(rest[0], st) if rest else None
            k = len(self.sent)
            self.sent.append((parts, given, dict(st.facts), it, st.copy()))
            s = st.copy()
            s.attrs[(("$db",), "last")] = const(f"{ROWS}{k}")
            return [(V(path=(f"cursor#{k}",), src=frozenset({(f"cursor#{k}",)})), s)]
        if name in ("fetchall", "fetchone", "fetchmany", "fetch_one", "fetch_all") and recv is not None:
            last = st.attrs.get((("$db",), "last"))
            if last is not None and is_const(last):
                root = last.shape[1]
                parts = self.sent[int(root[len(ROWS):])][0]
                cols = Statement(parts).selected() if parts is not None else None
                row = Ty(frozenset({"tuple"}), items=(ANY,) * len(cols)) if cols is not None else ANY
                return [(pathv((root,), Ty(frozenset({"list"}), elem=row)) if name not in ("fetchone", "fetch_one") else pathv((root, "*"), row), st)]
        return None


def candidates(ctx: Ctx):
    """(class, method) pairs that send statements with parameters to a database."""
    prog = ctx.prog
    for base in ("DatabaseSchema", "DatabaseStatistics", "Database"):
        for cls in prog.concrete_subclasses(prog.cls(base)):
            names = sorted({n for c in cls.mro() for n in c.methods})
            for n in names:
                f = cls.find(n)
                if f is None or f.cls is None or n.startswith("__"):
                    continue
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "execute" for x in ast.walk(f.node)):
                    yield cls, f


def element_args(ctx: Ctx, f: FuncInfo) -> dict:
    """Arguments for the tables and columns that a function is called for."""
    prog = ctx.prog
    out = {}
    for a in f.all_params()[1:]:
        ty = prog.param_ty(f, a.annotation) if a.annotation is not None else ANY
        names = {n.split(".")[-1] for n in ty.names or ()}
        if names & {"ColumnReference", "BoundColumnReference"}:
            out[a.arg] = prog.cls("BoundColumnReference") if "BoundColumnReference" in names else prog.cls("ColumnReference")
        elif "TableReference" in names:
            out[a.arg] = prog.cls("TableReference")
        elif a.arg == "column" and not ty.names:
            out[a.arg] = prog.cls("ColumnReference")
    return out


def initial_attrs(ctx: Ctx, cls: ClassInfo) -> dict:
    """Attributes that the constructor of a class sets to constants."""
    f = cls.find("__init__")
    if f is None:
        return {}
    given = {n: const(d) for n, d in defaulted(f).items() if isinstance(d, str)}
    run = Run(ctx, f, cls, inline=in_module(*DB_MODULES), args=given)
    ends = [o for o in run.outs if o.kind == "return"]
    if not run.ok or len(ends) != 1:
        return {}
    return {(("self",), n): v for (p, n), v in ends[0].s.attrs.items() if p == ("self",) and is_const(v) and isinstance(v.shape[1], str)}


def kind_facts(path: tuple) -> dict:
    return {("t", path): True, ("n", path): False}


def check_B04(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    for cls, f in candidates(ctx):
        els = element_args(ctx, f)
        attrs = initial_attrs(ctx, cls)
        tables = []
        base: dict = {}
        for n, c in els.items():
            base.update(kind_facts((n,)))
            base[("T", (n,))] = frozenset({c.qual})
            if c.name == "TableReference":
                tables.append((n,))
            else:
                tables.append((n, "table"))
                base.update(kind_facts((n, "table")))
        for t in tables:
            base[("t", t + ("virtual",))] = False
        seen: set = set()
        for schema in ((True, False) if tables else (None,)):
            facts = dict(base)
            for t in tables:
                facts[("t", t + ("schema",))] = schema
                if schema:
                    facts[("n", t + ("schema",))] = False
            probe = Probe()
            run = Run(ctx, f, cls, facts=facts, args=els, attrs=attrs, quantify=True, results=probe.hook, inline=inline_hook)
            key = f"{cls.name}.{f.name}" + ("" if schema is None else f":{'explicit' if schema else 'default'}-schema")
            if not run.ok:
                rep.skip("statement", key)
                continue
            judge(ctx, cls, f, key, probe, run, seen)
    rep.require("statement", 25)
    rep.require("placeholder", 30)
    rep.require("row", 10)


def inline_hook(it, g, r):
    if g.name in ("_fetch_columns", "_fetch_indexes", "assert_bound"):
        return True
    if g.name.startswith("_retrieve") or g.name.startswith("_calculate"):
        return False
    return None


def judge(ctx: Ctx, cls: ClassInfo, f: FuncInfo, key: str, probe: Probe, run: Run, seen: set):
    rep = ctx.rep
    results: dict[str, list] = {}
    for k, (parts, given, facts, it, st) in enumerate(probe.sent):
        if parts is None:
            rep.skip("statement", f"{key}#{k}")
            continue
        q = Statement(parts)
        rep.ok("statement", f"{key}#{k}")
        cols = q.selected()
        if cols is not None:
            results[f"{ROWS}{k}"] = cols
        want = len(q.marks)
        if q.named:
            continue
        if given is None or (is_const(given) and given.shape[1] is None):
            if want:
                rep.fail("statement", f"{cls.name}.{f.name}:missing", f"{f.qual} sends a statement with {want} placeholder(s) but without parameters ({key})", f.loc())
            continue
        items = given.shape[1] if given.shape is not None and given.shape[0] == "seq" else None
        if items is None:
            if given.path is not None and path_role(given.path) is not None and given.path[-1:] != ("schema",) and (given.ty.names == {"str"} or path_role(given.path) in ("table", "column", "alias")):
                rep.fail("statement", f"{cls.name}.{f.name}:no-sequence", f"{f.qual} passes a single string instead of a sequence of parameters: each character "
                         "counts as one parameter", f.loc())
            else:
                rep.skip("placeholder", f"{key}#{k}")
            continue
        rep.ok("placeholder", f"{key}#{k}:count")
        if len(items) != want:
            rep.fail("placeholder", f"{cls.name}.{f.name}:count", f"{f.qual} sends a statement with {want} placeholder(s) and {len(items)} parameter(s) ({key})", f.loc())
            continue
        for i, (pos, v) in enumerate(zip(q.marks, items)):
            expect, got = q.role_at(pos), value_role(it.mat(v, st))
            if expect is None or got is None:
                continue
            rep.ok("placeholder", f"{key}#{k}:{i}")
            if got not in expect:
                rep.fail("placeholder", f"{cls.name}.{f.name}:{'/'.join(sorted(expect))}", f"{f.qual} compares the {'/'.join(sorted(expect))} with the {got} "
                         f"(parameter {i + 1}, {key})", f.loc())
        for i, t in enumerate(q.tokens):
            m = re.fullmatch(r"'?\x00(\d+)\x00'?", t)
            if m is None:
                continue
            expect, got = q.role_at(i), value_role(q.holes[int(m.group(1))])
            if expect is not None and got is not None:
                rep.ok("placeholder", f"{key}#{k}:inserted{i}")
                if got not in expect:
                    rep.fail("placeholder", f"{cls.name}.{f.name}:inserted", f"{f.qual} compares the {'/'.join(sorted(expect))} with the {got} ({key})", f.loc())
    rows(ctx, cls, f, key, run, results)


def row_uses(v: V):
    """Positions of result rows that a value was taken from: (rows, position)."""
    for p in v.src:
        if p[0].startswith(ROWS) and len(p) >= 3 and p[1] == "*":
            s = p[2].strip("[]")
            if s.lstrip("-").isdigit():
                yield p[0], int(s)


def rows(ctx: Ctx, cls: ClassInfo, f: FuncInfo, key: str, run: Run, results: dict):
    rep = ctx.rep
    values = [(o.v, None) for o in run.returns if o.v is not None]
    for e, facts, _ in run.it.log:
        for n, v in (e.m or {}).items():
            if isinstance(v, V):
                values.append((v, (e.cls.name if e.cls is not None else (e.fi.name if e.fi is not None else e.name), n)))
    ret = ctx.prog.param_ty(f, f.node.returns) if f.node.returns is not None else ANY
    scalar = bool(ret.names) and ret.names <= {"int", "float", "str", "bool", "None"}
    for o in run.returns:
        if o.v is not None and o.v.path is not None and o.v.path[0].startswith(ROWS):
            rep.ok("row", f"{key}:returned")
            if scalar and o.v.path[1:] in ((), ("*",)) and o.s.facts.get(("n", o.v.path)) is not True:
                rep.fail("row", f"{cls.name}.{f.name}:row", f"{f.qual} returns a row of the result instead of a value", f.loc())
    for v, where in values:
        for root, i in row_uses(v):
            cols = results.get(root)
            if cols is None:
                continue
            rep.ok("row", f"{key}:{root}:{i}")
            if not -len(cols) <= i < len(cols):
                rep.fail("row", f"{cls.name}.{f.name}:position", f"{f.qual} reads column {i + 1} of a result with {len(cols)} column(s)", f.loc())
                continue
            if where is None:
                continue
            role = column_role(cols[i])
            want = {("ColumnReference", "name"): "column", ("BoundColumnReference", "name"): "column", ("TableReference", "full_name"): "table",
                    ("TableReference", "schema"): "schema"}.get(where)
            direct = [p for p in v.src if p[0] == root]
            if role is None or want is None or len(direct) != 1 or len(v.src) != 1:
                continue
            rep.ok("row", f"{key}:{root}:{i}:{want}")
            if want not in role:
                rep.fail("row", f"{cls.name}.{f.name}:{want}", f"{f.qual} uses the {'/'.join(sorted(role))} of the result ({cols[i]}) as {want}", f.loc())


# ------------------------------------------------------------------------------------------------ B05
LOOKUPS = {
    "DatabaseSchema": ("columns", "is_view", "is_primary_key", "primary_key_column", "has_secondary_index", "foreign_keys_on", "has_index",
                       "indexes_on", "datatype", "is_nullable"),
    "DatabaseStatistics": ("total_rows", "distinct_values", "num_distinct", "min_max", "most_common_values", "histogram"),
}
SENDING = {"execute", "execute_query", "cursor", "executemany"}


def raised(o: Outcome) -> Optional[str]:
    if o.kind != "raise" or o.v is None:
        return None
    if o.v.shape is not None and o.v.shape[0] == "ctor":
        return getattr(o.v.shape[1], "name", None)
    return None


def check_B05(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    for base, names in LOOKUPS.items():
        for cls in prog.concrete_subclasses(prog.cls(base)):
            for n in names:
                f = cls.find(n)
                if f is None:
                    raise AnalysisError(f"{cls.name} has no operation {n}")
                els = element_args(ctx, f)
                if not els:
                    rep.skip("guard", f"{cls.name}.{n}")
                    continue
                p, c = next(iter(els.items()))
                cases = []
                if c.name == "TableReference":
                    cases.append(("virtual", {("t", (p, "virtual")): True}, "VirtualTableError"))
                else:
                    there = kind_facts((p, "table"))
                    cases.append(("virtual", {**there, ("t", (p, "table", "virtual")): True}, "VirtualTableError"))
                    cases.append(("unbound", {("n", (p, "table")): True, ("t", (p, "table")): False}, "UnboundColumnError"))
                for what, facts, exc in cases:
                    args = {p: prog.cls("ColumnReference") if c.name != "TableReference" else c}
                    facts = {**facts, **kind_facts((p,))}
                    run = Run(ctx, f, cls, facts=facts, args=args, quantify=True, inline=guarded)
                    key = f"{cls.name}.{n}:{what}"
                    if not run.ok:
                        rep.skip("guard", key)
                        continue
                    rep.ok("guard", key)
                    site = f"{(f.cls or cls).name}.{n}:{what}"
                    if not run.outs and run.log(*SENDING):  # every path raises
                        rep.fail("guard", site, f"{f.qual} contacts the database for {'a virtual table' if what == 'virtual' else 'an unbound column'} "
                                 f"before it is rejected", f.loc())
                    for o in run.outs:
                        sent = [e for e in o.events if e.name in SENDING and e.recv is not None]
                        if sent:
                            rep.fail("guard", site, f"{f.qual} contacts the database for {'a virtual table' if what == 'virtual' else 'an unbound column'} "
                                     f"before it is rejected", f.loc())
                            break
                        if o.kind == "return":
                            rep.fail("guard", site, f"{f.qual} accepts {'a virtual table' if what == 'virtual' else 'an unbound column'}", f.loc())
                            break
                        got = raised(o)
                        if got is not None and got != exc:
                            rep.fail("guard", site, f"{f.qual} raises {got} instead of {exc} for {'a virtual table' if what == 'virtual' else 'an unbound column'}",
                                     f.loc())
                            break
    # an ordinary table or column is not rejected
            for n in names:
                f = cls.find(n)
                els = element_args(ctx, f)
                if not els:
                    continue
                p, c = next(iter(els.items()))
                table = (p,) if c.name == "TableReference" else (p, "table")
                facts = {**kind_facts((p,)), **kind_facts(table), ("t", table + ("virtual",)): False}
                run = Run(ctx, f, cls, facts=facts, args={p: prog.cls("ColumnReference") if c.name != "TableReference" else c}, quantify=True, inline=guarded)
                key = f"{cls.name}.{n}:ordinary"
                if not run.ok:
                    rep.skip("guard", key)
                    continue
                rep.ok("guard", key)
                for o in run.outs:
                    if raised(o) in ("VirtualTableError", "UnboundColumnError"):
                        rep.fail("guard", f"{(f.cls or cls).name}.{n}:ordinary", f"{f.qual} rejects an ordinary table or column", f.loc())
                        break
    rep.require("guard", 60)


def guarded(it, g, r):
    """Follow everything within the interfaces except for the operations that contact the database."""
    if g.cls is not None and g.name in ("__init__", "__post_init__"):
        return None
    if g.name in SENDING:
        return False
    if any(g.module.name.endswith(m) for m in (".db._db", ".postgres", ".duckdb", ".mysql")):
        return True
    if g.name in ("assert_bound", "is_bound"):
        return True
    return None


# ------------------------------------------------------------------------------------------------ B06
REQUESTS = ("total_rows", "distinct_values", "num_distinct", "min_max", "most_common_values", "histogram")


def flag_of(v: Optional[V], default) -> object:
    """True, False, None for constants, the access path of anything else."""
    if v is None:
        return default
    if is_const(v):
        return v.shape[1]
    return v.path if v.path is not None else frozenset(v.src)


def check_B06(ctx: Ctx):
    prog, rep = ctx.prog, ctx.rep
    base = prog.cls("DatabaseStatistics")
    catalog = set(base.abstract_methods())

    def follow(it, g, r):
        if g.name in SENDING or g.name in catalog:
            return False
        if any(g.module.name.endswith(m) for m in (".db._db", ".postgres", ".duckdb", ".mysql")) and g.name not in ("__init__",):
            return True
        return None if g.name not in ("_infer_histogram_bounds",) else False

    own = stored_flag(ctx, base, "emulated"), stored_flag(ctx, base, "cache_enabled"), stored_flag(ctx, base, "enable_emulation_fallback")
    for cls in [base] + [c for c in prog.concrete_subclasses(base) if c is not base]:
        for n in REQUESTS:
            f = cls.find(n)
            if f is None:
                raise AnalysisError(f"{cls.name} has no request {n}")
            if cls is not base and f.cls is base and not any(m in c.methods for c in cls.mro() if c is not base for m in calc_names(base)):
                continue  # the same code
            emulation(ctx, cls, f, own, catalog, follow)
        if cls is not base:
            fallback(ctx, cls, own, catalog, follow)
    for cls in prog.concrete_subclasses(prog.cls("Database")):
        caching(ctx, cls)
    rep.require("emulation", 30)
    rep.require("cache", 15)
    rep.require("request", 10)
    rep.require("fallback", 6)
    rep.require("query-cache", 12)


def calc_names(base: ClassInfo):
    return [n for n in base.methods if n.startswith("_calculate") or n.startswith("_determine")]


def stored_flag(ctx: Ctx, cls: ClassInfo, name: str) -> tuple:
    """The attribute in which the constructor stores an option."""
    f = cls.find("__init__")
    run = Run(ctx, f, cls, inline=in_module(*DB_MODULES))
    for o in run.outs:
        for (p, n), v in o.s.attrs.items():
            if p == ("self",) and v.path == (name,):
                return ("self", n)
    return ("self", name)


def emulation(ctx: Ctx, cls: ClassInfo, f: FuncInfo, own, catalog, follow):
    prog, rep = ctx.prog, ctx.rep
    els = element_args(ctx, f)
    if not els:
        rep.skip("emulation", f"{cls.name}.{f.name}")
        return
    p, c = next(iter(els.items()))
    table = (p,) if c.name == "TableReference" else (p, "table")
    names = {a.arg for a in f.all_params()}
    for choice, default in itertools.product((True, False, None), (True, False)):
        use = default if choice is None else choice
        for cache, cdefault in ((True, False), (False, True), (None, "default")):
            facts = {**kind_facts((p,)), **kind_facts(table), ("t", table + ("virtual",)): False, ("t", own[0]): default, ("n", own[0]): False}
            if cdefault is not None and cdefault != "default":
                facts[("t", own[1])] = cdefault
            args = {p: prog.cls("ColumnReference") if c.name != "TableReference" else c, "emulated": const(choice), "cache_enabled": const(cache)}
            if not {"emulated", "cache_enabled"} <= names:
                raise AnalysisError(f"{f.qual} lacks the options of a statistics request")
            if "n_bins" in names:
                facts.update(kind_facts(("n_bins",)))
                args["n_bins"] = pathv(("n_bins",), Ty(frozenset({"int"})))
            run = Run(ctx, f, cls, facts=facts, args=args, quantify=True, inline=follow, results=Probe().hook)
            key = f"{cls.name}.{f.name}:emulated={choice}/{default}:cache={cache}"
            if not run.ok:
                rep.skip("emulation", key)
                continue
            rep.ok("emulation", key)
            site = f"{(f.cls or cls).name}.{f.name}"
            what = f"emulated={choice}" + (f" and a default of {default}" if choice is None else "")
            for o in run.returns:
                sent = [e for e in o.events if e.name == "execute_query"]
                looked = [e for e in o.events if e.name in catalog]
                if use and (looked or not sent):
                    rep.fail("emulation", f"{site}:{choice}/{default}", f"{f.qual} does not compute the statistics itself for {what}", f.loc())
                if not use and (sent or not looked):
                    rep.fail("emulation", f"{site}:{choice}/{default}", f"{f.qual} does not consult the catalog for {what}", f.loc())
                for e in looked:
                    for a, v in (e.m or {}).items():
                        if isinstance(v, V) and a == p and not any(q[:1] == (p,) for q in v.src):
                            rep.fail("emulation", f"{site}:object", f"{f.qual} requests the statistics of another object", f.loc())
            uses_all_params(ctx, "request", run, site, ignore={"self", "emulated", "cache_enabled", *(("n_bins",) if not use else ())})
            if use:
                asked(ctx, run, f, site, p, c.name == "TableReference")
            if not run.returns:
                rep.fail("emulation", f"{site}:{choice}/{default}:none", f"{f.qual} never returns for {what}", f.loc())
            for e, facts2, _ in run.it.log:
                if e.name != "execute_query":
                    continue
                v = arg(e, "cache_enabled")
                got = flag_of(v, None)
                want = own[1] if cache is None else cache
                rep.ok("cache", f"{key}:{getattr(e.func, 'name', '')}")
                if got is not want and got != want:
                    if isinstance(got, frozenset) and cache is None and own[1] in got:
                        continue
                    rep.fail("cache", f"{site}:{getattr(e.func, 'name', '?')}", f"{f.qual} does not pass the cache choice of its caller on to a query "
                             f"(cache_enabled={cache})", f"{f.module.rel}:{getattr(e.node, 'lineno', 0)}")


def asked(ctx: Ctx, run: Run, f: FuncInfo, site: str, p: str, table: bool):
    """The statements of emulated requests are about the requested table and column."""
    rep = ctx.rep
    about: list = []
    for o in run.returns:
        for e in [e for e in o.events if e.name == "execute_query"]:
            parts = pieces(run.it, e.args[0] if e.args else None, o.s)
            if parts is None:
                return
            roles = set()
            for x in parts:
                if isinstance(x, V):
                    roles |= {path_role(q) for q in x.src if q[:1] == (p,)}
            rep.ok("request", f"{site}:{getattr(e.func, 'name', '')}")
            if "table" not in roles:
                rep.fail("request", f"{site}:table", f"{f.qual} sends a statement that is not about the requested table", f.loc())
            about.append(roles)
            text = "".join(x if isinstance(x, str) else "?" for x in parts).upper()
            if "MIN(" in text and "MAX(" in text and text.index("MAX(") < text.index("MIN("):
                rep.fail("request", f"{site}:order", f"{f.qual} requests the maximum before the minimum", f.loc())
    if about and not table and not any("column" in r for r in about):
        rep.fail("request", f"{site}:column", f"{f.qual} sends statements that are not about the requested column", f.loc())


def fallback(ctx: Ctx, cls: ClassInfo, own, catalog, follow):
    """Without permission to emulate, no catalog request computes anything itself."""
    prog, rep = ctx.prog, ctx.rep
    for n in sorted(catalog):
        f = cls.find(n)
        if f is None or f.cls is None or f.cls.name == "DatabaseStatistics":
            continue
        els = element_args(ctx, f)
        args = dict(els)
        facts = {("t", own[2]): False}
        for p, c in els.items():
            facts.update(kind_facts((p,)))
            if c.name != "TableReference":
                facts.update(kind_facts((p, "table")))

        def inner(it, g, r, n=n):
            if g.name in SENDING or g.name == "_array_cast":
                return False
            if any(g.module.name.endswith(m) for m in (".db._db", ".postgres", ".duckdb", ".mysql")) and g.name not in ("__init__",):
                return True
            return None
        run = Run(ctx, f, cls, facts=facts, args=args, quantify=True, inline=inner)
        key = f"{cls.name}.{n}"
        if not run.ok:
            rep.skip("fallback", key)
            continue
        rep.ok("fallback", key)
        for e, fa, _ in run.it.log:
            if e.name == "execute_query":
                rep.fail("fallback", key, f"{f.qual} computes statistics itself although the emulation fallback is disabled",
                         f"{f.module.rel}:{getattr(e.node, 'lineno', 0)}")
                break


def truthiness_of_cached(f: FuncInfo, cache: str) -> bool:
    """Whether the decision to use a cached value depends on its truth value (empty results are results, too)."""
    def cached(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and norm(ast.unparse(n.func.value).split(".")[-1]) == cache
    names = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and cached(n.value) for t in n.targets if isinstance(t, ast.Name)}
    names |= {n.target.id for n in ast.walk(f.node) if isinstance(n, ast.NamedExpr) and cached(n.value)}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            todo = [n.test]
            while todo:
                t = todo.pop()
                if isinstance(t, ast.BoolOp):
                    todo += t.values
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    todo.append(t.operand)
                elif isinstance(t, ast.Name) and t.id in names or isinstance(t, ast.NamedExpr) and cached(t.value) or cached(t):
                    return True
    return False


def result_form(ctx: Ctx, f: FuncInfo, cls: ClassInfo, cache: str, **kw):
    """Cached answers have the same form as computed ones, the form of the stored results does not depend on the form of the answer."""
    rep, key = ctx.rep, f"{cls.name}.{f.name}"
    plain = {"get", "fetchall", "execute_with_timeout"}

    def simplified(v) -> bool:
        return v is not None and "simplify_result_set" in v.calls | {x.removesuffix("()") for p in v.src for x in p}
    stored = {}
    for raw in (True, False):
        args, facts = {}, {}
        if any(a.arg == "raw" for a in f.all_params()):
            args["raw"] = const(raw)
        else:
            facts[("t", ("kwargs", "raw"))] = raw
        run = Run(ctx, f, cls, args={**args, **kw.get("args", {})}, facts={**facts, **kw.get("facts", {})}, quantify=True,
                  inline=lambda it, g, r: g.module is f.module and any("raw" == x.arg for x in g.all_params()) and g is not f and g.name != f.name and None,
                  results=lambda it, name, o, a, k, st: [(const(raw), st)] if name == "get" and a and is_const(a[0]) and a[0].shape[1] == "raw" else None)
        if not run.ok or not run.returns:
            rep.skip("query-cache", f"{key}:form")
            return
        hit = [o for o in run.returns if o.v is not None and any(cache in p for p in o.v.src)]
        other = [o for o in run.returns if o not in hit and o.v is not None and plain & {e.name for e in o.events}]
        if not any(a.arg == "raw" for a in f.all_params()) and not any(e.name == "get" and e.args and is_const(e.args[0]) and e.args[0].shape[1] == "raw" for o in run.outs for e in o.events):
            # the choice of the caller is not known, both forms have to be provided
            rep.ok("query-cache", f"{key}:form")
            if hit and len({simplified(o.v) for o in hit}) < 2:
                rep.fail("query-cache", f"{key}:form:{not raw}", f"{f.qual} provides cached results in one form only", f.loc())
            return
        rep.ok("query-cache", f"{key}:form:{raw}")
        if raw and any(simplified(o.v) for o in hit) and any(not simplified(o.v) for o in other):
            rep.fail("query-cache", f"{key}:form:{raw}", f"{f.qual} simplifies cached results even though raw results are requested", f.loc())
        if not raw and any(not simplified(o.v) for o in hit) and (any(simplified(o.v) for o in other) or kw.get("simplifies")):
            rep.fail("query-cache", f"{key}:form:{raw}", f"{f.qual} does not simplify cached results, but computed ones", f.loc())
        stored[raw] = {simplified(o.it.mat(v, o.s)) for o in run.returns for (p, n), v in o.s.attrs.items() if n == cache and p[:1] == ("self",)}
    if any(True in x for x in stored.values()):
        rep.fail("query-cache", f"{key}:form:stored", f"{f.qual} caches simplified results, such that raw results can no longer be provided", f.loc())


def caching(ctx: Ctx, cls: ClassInfo):
    """Results are taken from and added to the query cache exactly if caching is in effect for this call."""
    prog, rep = ctx.prog, ctx.rep
    f = cls.find("execute_query")
    base = prog.cls("Database")
    if f is None or f.cls is base:
        return
    flag = stored_flag(ctx, base, "cache_enabled")
    init = Run(ctx, base.find("__init__"), base, inline=lambda it, g, r: False)
    caches = {n for o in init.outs for (p, n), v in o.s.attrs.items() if p == ("self",) and o.it.mat(v, o.s).shape is not None and o.it.mat(v, o.s).shape[0] == "dict"}
    if len(caches) != 1:
        rep.skip("query-cache", cls.name)
        return
    cache = next(iter(caches))
    names = {a.arg for a in f.all_params()}
    for choice, default, limited in itertools.product((True, False, None), (True, False), (False, True)):
        if limited and "timeout" not in names:
            continue
        use = default if choice is None else choice
        args = {"cache_enabled": const(choice)}
        facts = {("t", flag): default, ("n", flag): False}
        if limited:
            facts.update({("n", ("timeout",)): False, ("t", ("timeout",)): True})
        elif "timeout" in names:
            args["timeout"] = const(None)
        run = Run(ctx, f, cls, facts=facts, args=args, quantify=True,
                  inline=lambda it, g, r: False)
        key = f"{cls.name}.execute_query:{choice}/{default}" + (":timeout" if limited else "")
        if not run.ok or not run.returns:
            rep.skip("query-cache", key)
            continue
        rep.ok("query-cache", key)
        what = f"cache_enabled={choice}" + (f" and a default of {default}" if choice is None else "")
        hit = [o for o in run.returns if o.v is not None and any(p[:2] == ("self", cache) for p in o.v.src)]
        store = [o for o in run.returns if (("self",), cache) in o.s.attrs]
        if not use and hit:
            rep.fail("query-cache", f"{key}:hit", f"{f.qual} returns cached results for {what}", f.loc())
        if not use and store:
            rep.fail("query-cache", f"{key}:store", f"{f.qual} caches results for {what}", f.loc())
        executed = [o for o in run.returns if any(e.name in ("fetchall", "execute_with_timeout") for e in o.events)]
        if use and hit and not limited and truthiness_of_cached(f, cache):
            rep.fail("query-cache", f"{key}:empty", f"{f.qual} does not use cached results that are empty for {what}", f.loc())
        if use and not hit and (executed or not limited):
            rep.fail("query-cache", f"{key}:hit", f"{f.qual} never uses the query cache for {what}", f.loc())
        if use and any(o not in hit and o not in store for o in executed):
            rep.fail("query-cache", f"{key}:store", f"{f.qual} does not cache all results for {what}", f.loc())
    result_form(ctx, f, cls, cache, args={"cache_enabled": const(True), **({"timeout": const(None)} if "timeout" in names else {})})
    for other in [c for c in prog.classes if c.module is f.module and c is not cls and f.name in c.methods and not c.is_subclass(base)]:
        result_form(ctx, other.methods[f.name], other, cache, simplifies=True)
