"""Program model of the dascore package: modules, symbols, classes, resolution.

Everything is derived from the source text under REPO (default /repo); nothing
from the repository is imported or executed.
"""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field
from pathlib import Path

from .normal import normalise

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable file)."""


@dataclass(eq=False)
class FunctionInfo:
    qual: str
    name: str
    node: ast.AST
    module: "Module"
    cls: "ClassInfo | None" = None
    parent: "FunctionInfo | None" = None
    children: dict = field(default_factory=dict)
    _locals: set | None = None
    _imports: dict | None = None

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def body(self):
        return self.node.body if not isinstance(self.node, ast.Lambda) else [
            ast.Return(value=self.node.body)]

    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    def is_public(self):
        return not any(p.startswith("_") for p in self.qual.split(".")[1:])

    @property
    def file(self):
        return self.module.relpath

    def where(self, node=None):
        line = getattr(node, "lineno", None) or getattr(self.node, "lineno", 0)
        return f"{self.module.relpath}:{line} in {self.qual}"


@dataclass(eq=False)
class ClassInfo:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)      # class-level assignments name->expr
    annots: dict = field(default_factory=dict)
    base_quals: list = field(default_factory=list)


@dataclass(eq=False)
class Module:
    name: str
    path: Path
    relpath: str
    tree: ast.Module
    source: str
    is_pkg: bool
    imports: dict = field(default_factory=dict)    # local name -> qualified
    stars: list = field(default_factory=list)
    funcs: dict = field(default_factory=dict)
    classes: dict = field(default_factory=dict)
    variables: dict = field(default_factory=dict)  # name -> list[expr]
    dunder_all: list | None = None


def _stmts_flat(body):
    """Yield statements of a body incl. those nested in if/try/with/for (no defs)."""
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if sub and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
                if isinstance(sub, list):
                    yield from _stmts_flat(sub)
        for h in getattr(s, "handlers", []) or []:
            yield from _stmts_flat(h.body)
        for c in getattr(s, "cases", []) or []:
            yield from _stmts_flat(c.body)


def walk_own(node):
    """Walk nodes of a function body without entering nested defs/classes/lambdas."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def dotted(expr):
    """a.b.c -> ['a','b','c'] or None."""
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return parts[::-1]
    return None


class Program:
    def __init__(self, repo: Path | None = None, package="dascore", sources: dict | None = None):
        self.repo = Path(repo or REPO)
        self.package = package
        self.modules: dict[str, Module] = {}
        self.functions: dict[str, FunctionInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        if sources is not None:  # in-memory program (self-tests of the rules)
            for rel, src in sources.items():
                self._load(self.repo / rel, src)
        else:
            root = self.repo / package
            if not root.is_dir():
                raise AnalysisError(f"package directory {root} not found")
            for path in sorted(root.rglob("*.py")):
                self._load(path)
            normalise({n: m.tree for n, m in self.modules.items()})
        for m in self.modules.values():
            self._collect(m)
        self._resolve_cache = {}
        for c in self.classes.values():
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                q = self.resolve(c.module, None, base)
                if q:
                    c.base_quals.append(q)
        self._mro_cache = {}
        self._sub = {}
        for c in self.classes.values():
            for q in self.mro(c.qual)[1:]:
                self._sub.setdefault(q, []).append(c.qual)

    # --- loading
    def _load(self, path, src=None):
        rel = path.relative_to(self.repo)
        parts = list(rel.with_suffix("").parts)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        src = path.read_text() if src is None else src
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        name = ".".join(parts)
        self.modules[name] = Module(name, path, str(rel), tree, src, is_pkg)

    def _import_map(self, mod, stmts):
        imports, stars = {}, []
        for s in stmts:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        imports[a.asname] = a.name
                    else:
                        imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = mod.name.split(".")
                    if not mod.is_pkg:
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        stars.append(base)
                    else:
                        imports[a.asname or a.name] = f"{base}.{a.name}"
        return imports, stars

    def _collect(self, mod):
        stmts = list(_stmts_flat(mod.tree.body))
        mod.imports, mod.stars = self._import_map(mod, stmts)
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(mod, s, f"{mod.name}.{s.name}", None, None)
                mod.funcs[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                mod.classes[s.name] = self._add_class(mod, s, f"{mod.name}.{s.name}")
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        mod.variables.setdefault(t.id, []).append(s.value)
                        if t.id == "__all__" and isinstance(s.value, (ast.Tuple, ast.List)):
                            mod.dunder_all = [e.value for e in s.value.elts if isinstance(e, ast.Constant)]
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                mod.variables.setdefault(s.target.id, []).append(s.value)

    def _add_class(self, mod, node, qual):
        ci = ClassInfo(qual, node.name, node, mod)
        self.classes[qual] = ci
        for s in _stmts_flat(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(mod, s, f"{qual}.{s.name}", ci, None)
                ci.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ci.annots[s.target.id] = s.annotation
                if s.value is not None:
                    ci.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._add_class(mod, s, f"{qual}.{s.name}")
        return ci

    def _add_func(self, mod, node, qual, cls, parent):
        fi = FunctionInfo(qual, node.name, node, mod, cls, parent)
        # several definitions under the same name (if/else, overload): keep the last
        self.functions[qual] = fi
        for s in _stmts_flat(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi.children[s.name] = self._add_func(mod, s, f"{qual}.{s.name}", cls, fi)
            elif isinstance(s, ast.ClassDef):
                self._add_class(mod, s, f"{qual}.{s.name}")
        return fi

    # --- resolution
    def local_names(self, fi: FunctionInfo):
        if fi._locals is None:
            out = set(fi.all_params)
            node = fi.node
            globs = set()
            for n in walk_own(node if not isinstance(node, ast.Lambda) else [node.body]):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    globs.update(n.names)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
            fi._locals = out - globs
            fi._imports, _ = self._import_map(fi.module, _stmts_flat(
                node.body if not isinstance(node, ast.Lambda) else []))
        return fi._locals

    def local_imports(self, fi):
        self.local_names(fi)
        return fi._imports

    def resolve_name(self, mod: Module, fi: FunctionInfo | None, name: str):
        """Qualified name for an identifier or None for a plain local variable."""
        f = fi
        while f is not None:
            if name in f.children:
                return f.children[name].qual
            if name in self.local_imports(f):
                return self.canonical(f._imports[name])
            if f"{f.qual}.{name}" in self.classes:
                return f"{f.qual}.{name}"
            if name in self.local_names(f):
                return None
            f = f.parent
        return self.module_member(mod, name)

    def module_member(self, mod: Module, name: str, seen=()):
        key = (mod.name, name)
        if key in seen:
            return None
        if name in mod.funcs:
            return mod.funcs[name].qual
        if name in mod.classes:
            return mod.classes[name].qual
        if name in mod.variables and name not in mod.imports:
            return f"{mod.name}.{name}"
        if name in mod.imports:
            return self.canonical(mod.imports[name], seen + (key,))
        if not name.startswith("_"):
            for star in reversed(mod.stars):
                m2 = self.modules.get(star)
                if m2 is None or (m2.dunder_all is not None and name not in m2.dunder_all):
                    continue
                r = self.module_member(m2, name, seen + (key,))
                if r and not r.startswith("builtins."):
                    return r
        if f"{mod.name}.{name}" in self.modules:
            return f"{mod.name}.{name}"
        import builtins
        if hasattr(builtins, name):
            return f"builtins.{name}"
        return None

    def canonical(self, qual: str, seen=()):
        """Follow re-exports inside the package to the defining module."""
        if qual in self._canon_cache():
            return self._canon[qual]
        out = self._canonical(qual, seen)
        self._canon[qual] = out
        return out

    def _canon_cache(self):
        if not hasattr(self, "_canon"):
            self._canon = {}
        return self._canon

    def _canonical(self, qual, seen=()):
        if qual in self.modules or qual in self.functions or qual in self.classes:
            return qual
        parts = qual.split(".")
        if parts[0] != self.package:
            return qual
        # longest module prefix
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            r = self.module_member(m, rest[0], seen)
            if r is None or r.startswith("builtins."):
                return qual
            if len(rest) == 1:
                return r
            if r == ".".join(parts[: i + 1]) and r not in self.modules:
                return qual
            return self.member(r, rest[1:]) or ".".join([r] + rest[1:])
        return qual

    def member(self, qual, rest):
        """Resolve attribute chain on a resolved entity."""
        for a in rest:
            if qual in self.modules:
                q = self.module_member(self.modules[qual], a)
                qual = q if q and not q.startswith("builtins.") else f"{qual}.{a}"
            elif qual in self.classes:
                q = self.class_member(qual, a)
                qual = q or f"{qual}.{a}"
            else:
                qual = f"{qual}.{a}"
                if qual.split(".")[0] == self.package:
                    qual = self.canonical(qual)
        return qual

    def class_member(self, cqual, name):
        """Qualified name of a function bound in a class body (through the MRO)."""
        for q in self.mro(cqual):
            c = self.classes.get(q)
            if c is None:
                continue
            if name in c.methods:
                return c.methods[name].qual
            if name in c.attrs:
                r = None
                v = c.attrs[name]
                if isinstance(v, ast.Name) and v.id in c.methods:
                    return c.methods[v.id].qual
                if isinstance(v, (ast.Name, ast.Attribute)):
                    r = self.resolve(c.module, None, v)
                if r and (r in self.functions or r in self.classes):
                    return r
                return f"{q}.{name}"
        return None

    def class_attr_expr(self, cqual, name):
        for q in self.mro(cqual):
            c = self.classes.get(q)
            if c and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def resolve(self, mod: Module, fi: FunctionInfo | None, expr):
        """Resolve Name/Attribute expression to a qualified name (or None)."""
        parts = dotted(expr)
        if not parts:
            return None
        base = self.resolve_name(mod, fi, parts[0])
        if base is None:
            return None
        if len(parts) == 1:
            return base
        if base.split(".")[0] == self.package:
            return self.member(base, parts[1:])
        return ".".join([base] + parts[1:])

    def mro(self, qual):
        if qual in self._mro_cache:
            return self._mro_cache[qual]
        out = [qual]
        c = self.classes.get(qual)
        if c:
            for b in c.base_quals:
                for q in self.mro(b):
                    if q not in out:
                        out.append(q)
        self._mro_cache[qual] = out
        return out

    def subclasses(self, qual):
        return self._sub.get(qual, [])

    def is_subclass(self, qual, base):
        return base in self.mro(qual)

    def func(self, qual, required=True):
        f = self.functions.get(self.canonical(qual))
        if f is None and required:
            raise AnalysisError(f"anchor {qual} not found")
        return f

    def all_functions(self):
        return self.functions.values()

    def external(self, q):
        """Qualified name behind a module variable bound to a lazily imported object."""
        if not q or q.split(".")[0] != self.package or q in self.functions or q in self.classes:
            return q
        mod, _, name = q.rpartition(".")
        m = self.modules.get(mod)
        v = (m.variables.get(name) or [None])[-1] if m is not None else None
        if isinstance(v, ast.Call) and (dotted(v.func) or [""])[-1] in ("lazy_import", "optional_import"):
            parts = [a.value for a in v.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if parts and len(parts) == len(v.args):
                return ".".join(parts)
        return q

    def call_target(self, fi, call):
        return self.resolve(fi.module, fi, call.func)


_PROGRAM = {}


def program(repo=None):
    repo = str(repo or REPO)
    if repo not in _PROGRAM:
        _PROGRAM[repo] = Program(Path(repo))
    return _PROGRAM[repo]
