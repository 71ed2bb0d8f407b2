"""C19: the library works without its optional dependencies."""
from __future__ import annotations

import ast
import re
import sys
import tomllib
from pathlib import Path

from ..contrib import Env, Explorer
from ..flow import defs_of
from ..guards import ends_raise
from ..model import AnalysisError, dotted, walk_own
from .c11 import parents
from .c12 import Unknown, const_eval, dead_under

# packages which a required dependency always installs
BROUGHT = {"platformdirs": ("pint", "pooch"), "dateutil": ("pandas",), "pydantic_core": ("pydantic",)}
MODULE_OF = {"tables": "tables", "typing-extensions": "typing_extensions"}
CATCHES = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
# operations which exist for, or are documented to need, an optional package
NEEDS = {"xarray": ("utils.io.patch_to_xarray", "utils.io.xarray_to_patch"), "obspy": ("utils.io.patch_to_obspy", "utils.io.obspy_to_patch"), "segyio": ("io.segy.",)}


def config(prog):
    p = Path(prog.repo) / "pyproject.toml"
    if not p.exists():
        raise AnalysisError("pyproject.toml not found")
    d = tomllib.loads(p.read_text())["project"]
    name = lambda x: re.match(r"[A-Za-z0-9_.-]+", x).group().lower().replace("-", "_")
    req = {name(x) for x in d["dependencies"]}
    opt = {name(x) for x in d.get("optional-dependencies", {}).get("extras", [])}
    return req, opt


def names_caught(t):
    if t is None:
        return {"BaseException"}
    return {(dotted(x) or ["?"])[-1] for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])}


def module_parents(m):
    if not hasattr(m, "_par19"):
        m._par19 = {id(c): n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
    return m._par19


def import_guard(m, node):
    """The try/with statement which catches a failure of an import, 'typing', or None."""
    par = module_parents(m)
    n = node
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, ast.Try) and any(n is s for s in up.body):
            if any(names_caught(h.type) & CATCHES for h in up.handlers):
                return up
        if isinstance(up, (ast.With, ast.AsyncWith)):
            for i in up.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and (dotted(c.func) or [""])[-1] == "suppress" and any((dotted(a) or [""])[-1] in CATCHES for a in c.args):
                    return up
        if isinstance(up, ast.If) and any(n is s for s in up.body) and (dotted(up.test) or [""])[-1] == "TYPE_CHECKING":
            return "typing"
        if isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return None
        n = up
    return None


def owner(m, prog):
    if not hasattr(m, "_own19"):
        m._own19 = {}
        for f in prog.functions.values():
            if f.module is m:
                for n in walk_own(f.node):
                    m._own19[id(n)] = f
    return m._own19


def const_str(prog, f, m, e):
    """Constant string values of an expression (names, class attributes)."""
    if isinstance(e, ast.Constant):
        return {e.value}
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f is not None and f.cls is not None:
        out = set()
        for q in [f.cls.qual] + list(prog.subclasses(f.cls.qual)):
            v = prog.class_attr_expr(q, e.attr)
            v = v[1] if isinstance(v, tuple) else v
            if isinstance(v, ast.Constant):
                out.add(v.value)
        return out
    if isinstance(e, ast.Name):
        if f is not None:
            out = set()
            for s, src, how in defs_of(f).reaching(e.id, e):
                if isinstance(src, ast.Constant):
                    out.add(src.value)
            if out:
                return out
        v = m.variables.get(e.id) or []
        return {x.value for x in v if isinstance(x, ast.Constant)}
    return set()


def imports(ctx, prog, req, opt):
    """Import statements and dynamic imports by constant name."""
    std = set(sys.stdlib_module_names) | {"__future__"}
    fine = std | req | {prog.package} | {k for k, v in BROUGHT.items() if set(v) & req}
    for m in prog.modules.values():
        own = owner(m, prog)
        for n in ast.walk(m.tree):
            names = []
            if isinstance(n, ast.Import):
                names = [a.name.split(".")[0] for a in n.names]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                names = [(n.module or "").split(".")[0]]
            elif isinstance(n, ast.Call):
                f = own.get(id(n))
                q = prog.resolve(m, f, n.func) or ".".join(dotted(n.func) or [])
                if q in ("importlib.import_module", "__import__", "importlib.__import__") and n.args:
                    names = [str(x).split(".")[0] for x in const_str(prog, f, m, n.args[0]) if not str(x).startswith(".")]
                elif q.endswith("lazy_import") and n.args and q in prog.functions:
                    ctx.count("lazy_imports")
                    for x in const_str(prog, f, m, n.args[0]):
                        if x.split(".")[0] not in fine:
                            ctx.violation(f"lazy:{m.name}:{x}", f"{m.relpath}:{n.lineno}: `{x}` is not a required dependency, and its absence would raise an error other than the documented missing-dependency one")
                    continue
            for x in names:
                ctx.count("imports")
                if x in fine or not x:
                    continue
                g = import_guard(m, n)
                if g is None:
                    f = own.get(id(n))
                    where = f"{m.relpath}:{n.lineno}" + (f" in {f.qual}" if f else "")
                    ctx.violation(f"import:{m.name}:{x}", f"{where}: `{ast.unparse(n)[:70]}` imports {'the optional package' if x in opt else 'the undeclared package'} {x} without handling its absence")
                elif g != "typing":
                    ctx.count("guarded_imports")
                    fallback(ctx, prog, m, own.get(id(n)), n, g)


def fallback(ctx, prog, m, f, n, guard):
    """A name imported under a guard must be bound when the import fails."""
    if not isinstance(n, (ast.Import, ast.ImportFrom)):
        return
    scope = f.node if f is not None else m.tree
    inside = {id(x) for s in guard.body for x in ast.walk(s)}
    for a in n.names:
        nm = a.asname or a.name.split(".")[0]
        bound = False
        for x in (walk_own(scope) if f is not None else ast.walk(scope)):
            if id(x) in inside:
                continue
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) or isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == nm and x is not scope or isinstance(x, ast.alias) and (x.asname or x.name) == nm:
                bound = True
        leaves = isinstance(guard, ast.Try) and all(ends_raise(h.body) or (h.body and isinstance(h.body[-1], (ast.Return, ast.Continue))) for h in guard.handlers if names_caught(h.type) & CATCHES)
        used = f is None or any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(scope if f is not None else m.tree))
        in_else = isinstance(guard, ast.Try) and all(any(x is y for s in guard.orelse for y in ast.walk(s)) for x in ast.walk(scope) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and id(x) not in inside)
        if used and not bound and not leaves and not in_else:
            ctx.violation(f"fallback:{m.name}:{nm}", f"{m.relpath}:{n.lineno}: `{nm}` is unbound when the package is absent, yet used")


class Optional:
    """Calls of optional_import."""

    def __init__(self, prog, opt):
        self.p, self.opt = prog, opt
        self.fn = next((f for f in prog.functions.values() if f.name == "optional_import"), None)
        if self.fn is None:
            raise AnalysisError("optional_import not found")
        self.x = {}

    def is_call(self, m, f, n):
        return isinstance(n, ast.Call) and self.p.resolve(m, f, n.func) == self.fn.qual

    def arg(self, call, name):
        names = [a.arg for a in self.fn.node.args.args]
        for k in call.keywords:
            if k.arg == name:
                return k.value
        i = names.index(name)
        return call.args[i] if i < len(call.args) else None

    def raising(self, m, f, call):
        b = self.arg(call, "on_missing")
        return b is None or const_str(self.p, f, m, b) == {"raise"} or not const_str(self.p, f, m, b)


def helper_itself(ctx, prog, o):
    """optional_import turns a failed import into the documented error."""
    f = o.fn
    a = f.node.args
    dflt = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    d = dflt.get("on_missing")
    if not (isinstance(d, ast.Constant) and d.value == "raise"):
        ctx.violation("helper:default", f"{f.where()}: by default a missing package is not reported by an exception")
    ok = False
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] in ("import_module", "__import__"):
            ctx.count("helper_imports")
            g = import_guard(f.module, n)
            if not isinstance(g, ast.Try):
                ctx.violation("helper:guard", f"{f.where(n)}: a failed import is not turned into the documented missing-dependency error")
                continue
            for h in g.handlers:
                if names_caught(h.type) & CATCHES:
                    if any(isinstance(x, (ast.Name, ast.Attribute)) and (dotted(x) or [""])[-1] == "MissingOptionalDependencyError" for s in h.body for x in ast.walk(s)) or _raises_via(prog, f, h):
                        ok = True
                    if names_caught(h.type) == {"ModuleNotFoundError"}:
                        pass
    if not ok:
        ctx.violation("helper:error", f"{f.where()}: a missing package does not lead to MissingOptionalDependencyError")
    c = prog.classes.get(prog.package + ".exceptions.MissingOptionalDependencyError")
    if c is None:
        raise AnalysisError("MissingOptionalDependencyError not found")


def _raises_via(prog, f, h):
    for s in h.body:
        for c in ast.walk(s):
            if isinstance(c, ast.Call):
                g = prog.functions.get(prog.resolve(f.module, f, c.func) or "")
                if g is not None and any(isinstance(x, ast.Name) and x.id == "MissingOptionalDependencyError" for x in ast.walk(g.node)):
                    return True
    # a flag left for later
    return any(isinstance(x, ast.Name) and x.id == "MissingOptionalDependencyError" for x in ast.walk(f.node))


def import_time(prog):
    """(module, function or None, call) of the calls executed when a module is imported (transitively)."""
    todo, seen = [], set()

    def now(stmts, in_class=False):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from s.decorator_list
                yield from s.args.defaults
                yield from [d for d in s.args.kw_defaults if d is not None]
            elif isinstance(s, ast.ClassDef):
                yield from s.decorator_list
                yield from s.bases
                yield from [k.value for k in s.keywords]
                yield from now(s.body)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(s, ast.If) and ((dotted(s.test) or [""])[-1] == "TYPE_CHECKING" or isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__"):
                    yield from now(s.orelse)
                    continue
                for fld in ("test", "iter"):
                    if hasattr(s, fld):
                        yield getattr(s, fld)
                for i in getattr(s, "items", []):
                    yield i.context_expr
                for fld in ("body", "orelse", "finalbody"):
                    yield from now(getattr(s, fld, []) or [])
                for h in getattr(s, "handlers", []):
                    yield from now(h.body)
            else:
                yield s

    for m in prog.modules.values():
        for e in now(m.tree.body):
            stack = [e]
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, ast.Call):
                    yield m, None, n, ()
                    todo.append((m, None, n.func, (f"{m.relpath}:{n.lineno}",)))
                elif isinstance(n, (ast.Name, ast.Attribute)) and any(n is d for d in [e]):
                    todo.append((m, None, n, (f"{m.relpath}:{n.lineno}",)))      # a bare decorator
                stack.extend(ast.iter_child_nodes(n))
    while todo:
        m, f, fn, ch = todo.pop()
        q = prog.resolve(m, f, fn)
        g = prog.functions.get(q or "")
        if g is None or g.qual in seen:
            continue
        seen.add(g.qual)
        for n in walk_own(g.node):
            if isinstance(n, ast.Call):
                yield g.module, g, n, ch
                todo.append((g.module, g, n.func, ch + (g.qual,)))


def optional_calls(ctx, prog, o, req, opt):
    for m, f, n, ch in import_time(prog):
        ctx.count("import_time_calls")
        if o.is_call(m, f, n) and o.raising(m, f, n):
            pk = const_str(prog, f, m, o.arg(n, "package_name"))
            if pk & req or import_guard(m, n) is not None:
                continue
            ctx.violation(f"eager:{m.name}:{sorted(map(str, pk))}", f"{m.relpath}:{n.lineno}: `{ast.unparse(n)[:60]}` runs when the library is imported and fails when the package is absent" + (f" (via {' > '.join(ch)})" if ch else ""))
    for m in prog.modules.values():
        own = owner(m, prog)
        for n in ast.walk(m.tree):
            f = own.get(id(n))
            if not o.is_call(m, f, n):
                continue
            ctx.count("optional_imports")
            for x in const_str(prog, f, m, o.arg(n, "package_name")):
                if str(x).split(".")[0] not in opt | req:
                    ctx.violation(f"undeclared:{m.name}:{x}", f"{m.relpath}:{n.lineno}: {x} is not among the declared optional dependencies")
            if not o.raising(m, f, n):
                maybe_none(ctx, prog, m, f, n)


def maybe_none(ctx, prog, m, f, call):
    """A module that may be None is only used where it was tested."""
    par = module_parents(m)
    st = par.get(id(call))
    if isinstance(st, ast.Attribute):
        ctx.violation(f"none:{m.name}:attr", f"{m.relpath}:{call.lineno}: attribute of a package which may be absent")
        return
    if not isinstance(st, ast.Assign) or not isinstance(st.targets[0], ast.Name):
        return
    nm = st.targets[0].id
    scope = f.node if f is not None else m.tree
    for x in ast.walk(scope):
        if not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == nm):
            continue
        ctx.count("uses_of_maybe_absent")
        if not tested(m, x, nm):
            ctx.violation(f"none:{m.name}:{nm}.{x.attr}", f"{m.relpath}:{x.lineno}: `{nm}` is None when its package is absent, and is used untested")


def tested(m, x, nm):
    par = module_parents(m)
    n = x
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, (ast.If, ast.IfExp)) and n is not up.test and any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(up.test)):
            return True
        if isinstance(up, ast.BoolOp) and any(isinstance(y, ast.Name) and y.id == nm for v in up.values if v is not n for y in ast.walk(v)):
            return True
        for fld in ("body", "orelse"):
            blk = getattr(up, fld, None)
            if isinstance(blk, list) and any(n is s for s in blk):
                for s in blk[: [n is s for s in blk].index(True)]:
                    if isinstance(s, ast.If) and any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(s.test)) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                        return True
        if isinstance(up, ast.Try) and any(names_caught(h.type) & {"AttributeError", "Exception"} for h in up.handlers):
            return True
        n = up
    return False


def demands(ctx, prog, o, req, opt):
    """With its default arguments no operation demands an optional package it is not documented to need."""
    known = {f.qual for f in prog.functions.values()}
    patch = prog.package + ".core.patch.Patch"
    entries = []
    for f in prog.functions.values():
        if f.parent is not None or f.name.startswith("_") and not (f.name.startswith("__") and f.cls is not None):
            continue
        entries.append(f)
    for f in entries:
        if any(f.qual.startswith(prog.package + "." + p) for v in NEEDS.values() for p in v):
            continue
        ctx.count("operations")
        hit = reach(prog, o, f, req)
        for pk, chain, n in hit:
            if any(g.qual.startswith(prog.package + "." + p) for g, _ in chain for p in NEEDS.get(pk, ())):
                continue
            ctx.violation(f"demand:{chain[-1][0].qual}:{pk}", f"{chain[-1][0].where(n)}: {f.qual} demands {pk} with its default arguments ({' > '.join(g.name for g, _ in chain)})")
            break


def defaults_env(prog, g):
    a = g.node.args
    out = {}
    for n, v in list(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1])) + [(x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]:
        if isinstance(v, ast.Constant):
            out[n] = v.value
    return out


def reach(prog, o, f, req, env=None, chain=(), seen=None):
    """[(package, chain, node)] of raising optional imports reached under constant arguments."""
    seen = set() if seen is None else seen
    env = defaults_env(prog, f) if env is None else env
    key = (f.qual, tuple(sorted((k, repr(v)) for k, v in env.items())))
    if key in seen or len(chain) > 8:
        return []
    seen.add(key)
    stored = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    env = {k: v for k, v in env.items() if k not in stored}
    for s in f.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and sum(isinstance(n, ast.Name) and n.id == s.targets[0].id and isinstance(n.ctx, ast.Store) for n in walk_own(f.node)) == 1:
            try:
                env[s.targets[0].id] = const_eval(prog, s.value, env)
            except (Unknown, TypeError, IndexError, AttributeError):
                pass
    chain = chain + ((f, None),)
    out = []
    x = o.x.setdefault(f.cls.qual if f.cls else None, Explorer(prog, f.cls.qual if f.cls else None))
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        if o.is_call(f.module, f, n):
            if o.raising(f.module, f, n) and import_guard(f.module, n) is None and not dead_under(prog, f, n, env):
                for pk in const_str(prog, f, f.module, o.arg(n, "package_name")):
                    if str(pk).split(".")[0] not in req:
                        out.append((str(pk).split(".")[0], chain, n))
            continue
        g = x.callees(f, n)
        if g is None or g is f or dead_under(prog, f, n, env):
            continue
        b = x.bind(f, n, g, Env())
        e2 = {}
        for k, (h, v, _) in b.items():
            if k == "**":
                continue
            try:
                e2[k] = const_eval(prog, v, env if h is f else {})
            except (Unknown, TypeError, IndexError, AttributeError):
                pass
        if any(kw.arg is None for kw in n.keywords):
            given = {kw.arg for kw in n.keywords if kw.arg}
            pos = set(list(b)[: len(n.args)])
            e2 = {k: v for k, v in e2.items() if k in given | pos}
        out += reach(prog, o, g, req, e2, chain, seen)
    return out


def stand_ins(ctx, prog):
    """What is used of a stand-in injected for an absent package exists on the stand-in."""
    for c in prog.classes.values():
        if not c.name.startswith("_Dummy"):
            continue
        pk = c.name[len("_Dummy"):].lower()
        have = set(c.methods) | set(c.attrs)
        for f in prog.functions.values():
            if not any((dotted(d.func if isinstance(d, ast.Call) else d) or [""])[-1].endswith("jit") for d in f.decorators()):
                continue
            ctx.count("compiled_functions")
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == pk and n.attr not in have and prog.resolve_name(f.module, f, pk) is None:
                    ctx.violation(f"standin:{f.qual}:{n.attr}", f"{f.where(n)}: `{pk}.{n.attr}` does not exist on the stand-in used when {pk} is absent")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every import (statement, import_module or lazy import by constant name) of a package that is not standard, required, or installed by a required one is inside a handler for ImportError which leaves its name bound; "
             "optional_import turns a failed import into MissingOptionalDependencyError by default; no call executed at import time demands an optional package; a package that may be None is tested before use; "
             "with default arguments no public operation reaches a raising optional import, except the conversions and the format named after the package")
    ctx.assumptions += [f"{k} is installed by {' and '.join(v)}." for k, v in BROUGHT.items() if k == "platformdirs"]
    ctx.assumptions.append("Paths through calls on receivers of unknown type are not followed when looking for demands.")
    req, opt = config(prog)
    o = Optional(prog, opt)
    imports(ctx, prog, req, opt)
    helper_itself(ctx, prog, o)
    optional_calls(ctx, prog, o, req, opt)
    demands(ctx, prog, o, req, opt)
    stand_ins(ctx, prog)
    ctx.require("imports", 500)
    ctx.require("guarded_imports", 1)
    ctx.require("optional_imports", 5)
    ctx.require("import_time_calls", 50)
    ctx.require("operations", 300)
    ctx.require("helper_imports", 1)
