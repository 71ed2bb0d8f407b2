"""C11: files the library opens are closed on every exit; files of the caller stay open."""
from __future__ import annotations

import ast

from ..flow import defs_of
from ..model import AnalysisError, dotted, walk_own
from .c12 import handle_classes

EXT_OPEN = {"builtins.open", "io.open", "tables.open_file", "h5py.File", "tables.File", "tables.file.File", "tables.file.open_file", "pandas.HDFStore", "zipfile.ZipFile", "tarfile.open", "tarfile.TarFile",
            "wave.open", "gzip.open", "bz2.open", "lzma.open", "urllib.request.urlopen", "os.open", "os.fdopen", "sqlite3.connect", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile",
            "codecs.open", "socket.socket", "numpy.DataSource"}
RELEASE = {"close", "__exit__", "release", "unlock"}
MANAGER = "dascore.utils.io.IOResourceManager"


class Sites:
    def __init__(self, prog):
        self.p = prog
        self.handles = handle_classes(prog)
        self.returns = {}           # functions whose result is a freshly opened file
        self.cms = {f.qual for f in prog.functions.values() if any((dotted(d) or [""])[-1] in ("contextmanager", "asynccontextmanager") for d in f.decorators())}
        changed = True
        while changed:
            changed = False
            for f in prog.functions.values():
                if f.qual in self.returns or f.qual in self.cms:
                    continue
                if self._returns_open(f):
                    self.returns[f.qual] = True
                    changed = True

    def _returns_open(self, f):
        for n in walk_own(f.node):
            if isinstance(n, (ast.Return,)) and n.value is not None:
                for e in self._forms(f, n.value):
                    if isinstance(e, ast.Call) and self.opens(f, e):
                        return True
        return False

    def _forms(self, f, e, depth=4):
        if isinstance(e, ast.IfExp):
            yield from self._forms(f, e.body, depth)
            yield from self._forms(f, e.orelse, depth)
        elif isinstance(e, ast.Name) and depth:
            for s, src, how in defs_of(f).reaching(e.id, e):
                if how == "=" and src is not None:
                    yield from self._forms(f, src, depth - 1)
        else:
            yield e

    def opens(self, f, c):
        """Description when a call hands out a newly opened file, else None."""
        q0 = self.p.resolve(f.module, f, c.func)
        q = self.p.external(q0) or ""
        if q in EXT_OPEN:
            return q
        name = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if q0 in self.p.classes:
            m = {self.p.external(x) or x for x in self.p.mro(q0)}
            if MANAGER in m:
                return q0
            if m & EXT_OPEN:
                return q0
            return None
        if q0 in self.returns:
            return q0
        if isinstance(c.func, ast.Attribute):
            v = c.func.value
            if name == "get_handle":
                return "get_handle"
            if name == "constructor":
                return "the handle class's constructor"
            if name == "open" and not q0:
                # Path.open / an optional module's open
                if isinstance(v, ast.Name):
                    srcs = [s for _, s, h in defs_of(f).reaching(v.id, v) if isinstance(s, ast.Call)]
                    if any(getattr(s.func, "id", getattr(s.func, "attr", "")) == "optional_import" for s in srcs):
                        return f"{v.id}.open"
                    if v.id in ("self", "cls"):
                        return None
                return "Path.open"
            if name == "create" and isinstance(v, ast.Name) and v.id == "segyio":
                return "segyio.create"
            if name in ("File", "HDFStore", "open_file") and not q0:
                return name
            if isinstance(v, ast.Name) and v.id in ("self", "cls") and f.cls is not None:
                m = self.p.class_member(f.cls.qual, name)
                if m in self.returns:
                    return m
        return None


def parents(f):
    out = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def blocks(f):
    """id(stmt) -> (list, index)"""
    out = {}
    for n in ast.walk(f.node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, ast.stmt):
                        out[id(s)] = (b, i)
    return out


def names_of(f, name):
    """Names that are plain copies of the given one."""
    out = {name}
    for _ in range(3):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in out:
                out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def closes(prog, f, node, names, depth=2):
    """Call nodes under `node` which close one of the names."""
    out = []
    for n in ast.walk(node):
        if not isinstance(n, ast.Call):
            continue
        if isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
            out.append(n)
        elif isinstance(n.func, ast.Call) and getattr(n.func.func, "id", "") == "getattr" and len(n.func.args) >= 2 and isinstance(n.func.args[0], ast.Name) and n.func.args[0].id in names \
                and isinstance(n.func.args[1], ast.Constant) and n.func.args[1].value in RELEASE:
            out.append(n)
        elif depth and isinstance(n.func, ast.Name):
            g = prog.functions.get(prog.resolve(f.module, f, n.func) or "")
            if g is not None:
                for p, a in zip(g.params, n.args):
                    if isinstance(a, ast.Name) and a.id in names and any(_unconditional(prog, g, c, {p}) for c in closes(prog, g, g.node, {p}, depth - 1)):
                        out.append(n)
                        break
    return out


def _harmless_test(t, names):
    """A condition that only asks whether the file is ours, exists or can be closed."""
    if isinstance(t, ast.BoolOp):
        return all(_harmless_test(v, names) for v in t.values)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return _harmless_test(t.operand, names)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
        return any(isinstance(x, ast.Name) and x.id in names for x in [t.left] + t.comparators)
    if isinstance(t, ast.Name):
        return t.id in names
    if isinstance(t, ast.Call) and getattr(t.func, "id", "") in ("hasattr", "isinstance", "callable", "getattr"):
        return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(t))
    return False


def _own_test(f, t, names):
    if _harmless_test(t, names):
        return True
    if isinstance(t, ast.Name):
        srcs = [s for _, s, h in defs_of(f).reaching(t.id, t) if h == "=" and s is not None]
        return bool(srcs) and all(_harmless_test(s, names) for s in srcs)
    if isinstance(t, ast.BoolOp):
        return all(_own_test(f, v, names) for v in t.values)
    return False


def _unconditional(prog, f, call, names, top=None):
    """Is the closing call only inside conditions that ask about the file itself?"""
    par = parents(f)
    n = call
    while id(n) in par:
        up = par[id(n)]
        if up is top:
            break
        if isinstance(up, ast.If) and n is not up.test and not _own_test(f, up.test, names):
            return False
        if isinstance(up, (ast.For, ast.While)) and n not in (getattr(up, "iter", None),) and top is not None:
            return False
        if isinstance(up, ast.IfExp) and n is not up.test and not _own_test(f, up.test, names):
            return False
        if isinstance(up, ast.BoolOp) and n is not up.values[0] and not all(_own_test(f, v, names) for v in up.values[:up.values.index(n)]):
            return False
        n = up
    return True


SAFE = (ast.Constant, ast.Name)


def _quiet(s, prog=None):
    """Statements that cannot reasonably raise."""
    if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        v = s.value
        tg = s.targets if isinstance(s, ast.Assign) else [s.target]
        if not all(isinstance(t, (ast.Name, ast.Subscript, ast.Attribute)) for t in tg):
            return False
        return v is None or not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Await, ast.Yield)) for x in ast.walk(v))
    return False


def discharge(prog, sites, f, c, par, blk):
    """None when the file opened by call c is certainly closed or handed over, else the reason."""
    n = c
    up = par.get(id(n))
    while isinstance(up, (ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Await)) and n is not getattr(up, "test", None):
        if isinstance(up, ast.NamedExpr):
            break
        n, up = up, par.get(id(up))
    if isinstance(up, ast.withitem):
        return None
    if isinstance(up, ast.Call):
        nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
        if nm in ("closing", "aclosing", "nullcontext") and isinstance(par.get(id(up)), ast.withitem):
            return None
        if nm in ("enter_context", "push"):
            return None
        q = prog.resolve(f.module, f, up.func)
        if q in prog.classes and MANAGER in prog.mro(q):
            return "handed to a resource manager, which treats it as the caller's"
        return f"passed to `{ast.unparse(up.func)}` without being kept, so it cannot be closed"
    if isinstance(up, ast.Attribute) and up.attr in RELEASE and isinstance(par.get(id(up)), ast.Call):
        return None
    if isinstance(up, ast.Attribute):
        return f"used as `{ast.unparse(up)[:60]}` without being kept, so it cannot be closed"
    if isinstance(up, (ast.Return,)):
        return None
    if isinstance(up, ast.Lambda):
        return None
    if isinstance(up, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
        tg = up.targets if isinstance(up, ast.Assign) else [up.target]
        for t in tg:
            if isinstance(t, (ast.Attribute, ast.Subscript)) and _self_store(t):
                return _owner(prog, f, t)
        names = {t.id for t in tg if isinstance(t, ast.Name)}
        if not names:
            return "stored where it is not closed"
        stmt = up if isinstance(up, ast.stmt) else defs_of(f).stmt_of.get(id(up))
        names = set().union(*[names_of(f, x) for x in names])
        return named(prog, sites, f, stmt, names, par, blk)
    if isinstance(up, ast.Expr):
        return "opened and dropped"
    return f"used inside `{ast.unparse(up)[:60] if up is not None else '?'}` without being kept"


def _self_store(t):
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
    return isinstance(t, ast.Name) and t.id in ("self", "cls")


def _owner(prog, f, t):
    """A file stored in an object: the object's class must close what it holds in that attribute."""
    x = t
    while isinstance(x, ast.Subscript):
        x = x.value
    attr = x.attr if isinstance(x, ast.Attribute) else None
    if f.cls is None or attr is None:
        return "stored where it is not closed"
    ext = {prog.external(q) or q for q in prog.mro(f.cls.qual)}
    has_exit = any(prog.class_member(f.cls.qual, m) for m in ("__exit__", "close")) or ext & EXT_OPEN
    mentions = any(isinstance(n, ast.Attribute) and n.attr == attr for m in f.cls.methods.values() if any(isinstance(k, ast.Call) and (getattr(k.func, "attr", "") in RELEASE or any(isinstance(z, ast.Constant) and z.value in RELEASE for z in ast.walk(k))) for k in ast.walk(m.node))
                   for n in ast.walk(m.node))
    if has_exit and mentions:
        return None
    return f"stored in self.{attr}, which no method of {f.cls.name} closes"


def named(prog, sites, f, stmt, names, par, blk):
    # inside a try whose finally closes it
    n = stmt
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, ast.Try) and any(n is s for s in up.body):
            for s in up.finalbody:
                if any(_unconditional(prog, f, c, names, up) for c in closes(prog, f, s, names)):
                    return None
        n = up
    lst, i = blk.get(id(stmt), (None, None))
    # a try body holding only the opening continues behind the try
    steps = []
    cur = stmt
    while lst is not None:
        steps.append((lst, i))
        owner = par.get(id(cur))
        last = all(_quiet(x) for x in lst[i + 1:])
        if last and (isinstance(owner, ast.Try) and (lst is owner.body or lst is owner.orelse) or isinstance(owner, ast.If)):
            cur = owner
            lst, i = blk.get(id(cur), (None, None))
        else:
            break
    for lst, i in steps:
        for s in lst[i + 1:]:
            if isinstance(s, ast.Try):
                if any(_unconditional(prog, f, c, names, s) for x in s.finalbody for c in closes(prog, f, x, names)):
                    return None
                broad = [h for h in s.handlers if h.type is None or any(isinstance(x, ast.Name) and x.id in ("BaseException", "Exception") for x in ast.walk(h.type))]
                if broad and all(any(closes(prog, f, x, names) for x in h.body) for h in s.handlers):
                    rest = s.orelse + lst[lst.index(s) + 1:]
                    if any(closes(prog, f, x, names) for x in rest) or any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id in names for x in rest):
                        return None
                return f"the try at line {s.lineno} does not close it in a finally"
            if isinstance(s, (ast.With, ast.AsyncWith)) and any(_enters(w.context_expr, names) for w in s.items[:1]):
                return None
            if isinstance(s, ast.Return):
                if s.value is not None and any(isinstance(x, ast.Name) and x.id in names for x in ([s.value] if isinstance(s.value, ast.Name) else [])):
                    return None
                if isinstance(s.value, (ast.Subscript, ast.Attribute)) and _self_store(s.value):
                    return None
                return f"line {s.lineno} returns without closing it"
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in names and any(_self_store(t) for t in s.targets):
                t = next(t for t in s.targets if _self_store(t))
                return _owner(prog, f, t)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and any(c is s.value for c in closes(prog, f, s, names)):
                return None
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("enter_context", "push", "callback"):
                return None
            if isinstance(s, ast.If) and _harmless_test(s.test, names) and not s.orelse and all(_quiet(x) for x in s.body):
                continue
            if not _quiet(s):
                return f"line {s.lineno} may raise before it is closed"
    return "it is never closed"


def _enters(e, names):
    if isinstance(e, ast.Name):
        return e.id in names
    return isinstance(e, ast.Call) and getattr(e.func, "id", getattr(e.func, "attr", "")) in ("closing",) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in names


def manager(ctx, prog):
    c = prog.classes.get(MANAGER)
    if c is None:
        raise AnalysisError("resource manager class vanished")
    ex = prog.functions.get(prog.class_member(MANAGER, "__exit__") or "")
    if ex is None:
        ctx.violation("manager:exit", f"{c.module.relpath}:{c.node.lineno} {c.name} has no __exit__")
        return
    # the function which closes everything: __exit__ or what it certainly calls
    from ..flow import Flow
    closer, seen = None, [ex]
    todo = [ex]
    while todo:
        g = todo.pop()
        if any(isinstance(n, ast.For) and _closing_loop(prog, g, n) is not None for n in walk_own(g.node)):
            closer = g
            break
        must = set()
        fl = Flow(g, lambda n: {ast.unparse(n.func)} if isinstance(n, ast.Call) else ())
        facts = fl.at_exit() or ()
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                h = prog.functions.get(prog.class_member(MANAGER, n.func.attr) or "")
                if h is not None and h not in seen:
                    seen.append(h)
                    if ast.unparse(n.func) in facts:
                        todo.append(h)
    if closer is None:
        ctx.violation("manager:close", f"{ex.where()}: leaving the resource manager does not certainly close the files it opened")
        return
    ctx.count("manager_close_loops")
    for n in walk_own(closer.node):
        if isinstance(n, ast.For):
            why = _closing_loop(prog, closer, n)
            if why:
                ctx.violation("manager:skip", f"{closer.where(n)}: {why}")
            elif why == "":
                src = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)} | {x.attr for y in [s for _, s, _ in defs_of(closer).defs.get(getattr(n.iter, "id", ""), [])] if y is not None for x in ast.walk(y) if isinstance(x, ast.Attribute)}
                own = [t for t in ast.walk(n) if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.IsNot))]
                if not own:
                    ctx.violation("manager:caller", f"{closer.where(n)}: handles the caller passed in are closed too")
    # everything opened on behalf of a manager is remembered
    g = prog.functions.get(prog.class_member(MANAGER, "get_resource") or "")
    if g is not None:
        par = parents(g)
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("get_handle_from_resource", "get_handle"):
                ctx.count("manager_opens")
                names = {t.id for s in [par.get(id(n))] if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                stored = any(isinstance(t, ast.Subscript) and _self_store(t) for s in [par.get(id(n))] if isinstance(s, ast.Assign) for t in s.targets)
                for s in walk_own(g.node):
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in names and any(isinstance(t, ast.Subscript) and _self_store(t) for t in s.targets):
                        stored = True
                    if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("append", "setdefault", "add") and _self_store(s.func.value) and any(isinstance(a, ast.Name) and a.id in names for a in s.args):
                        stored = True
                if not stored:
                    ctx.violation("manager:remember", f"{g.where(n)}: a file opened for the caller is not remembered for closing")


def _closing_loop(prog, f, loop):
    """'' when the loop closes every element it visits (bar identity skips); text when not; None when it is no closing loop."""
    tg = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    cl = [c for s in loop.body for c in closes(prog, f, s, tg)]
    if not cl:
        return None
    it = {n.attr for n in ast.walk(loop.iter) if isinstance(n, ast.Attribute)}
    if isinstance(loop.iter, ast.Name):
        for s, src, h in defs_of(f).reaching(loop.iter.id, loop.iter):
            if src is not None:
                it |= {n.attr for n in ast.walk(src) if isinstance(n, ast.Attribute)}
    if "_cache" not in it and not any(isinstance(n, ast.Attribute) for n in ast.walk(loop.iter)):
        return None
    if any(isinstance(x, ast.Subscript) for x in ast.walk(loop.iter)) or any(isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) in ("islice", "next", "filter") for x in ast.walk(loop.iter)):
        return "only some of the opened files are closed"
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Return)):
                return "the loop stops before every opened file is closed"
            if isinstance(n, ast.If):
                t = n.test
                leaves = any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b))
                inside = any(c is x for c in cl for b in n.body for x in ast.walk(b))
                if (leaves or inside) and not _skip_ok(t, tg):
                    return f"files are skipped when `{ast.unparse(t)}`"
    return ""


def _skip_ok(t, tg):
    if isinstance(t, ast.BoolOp):
        return all(_skip_ok(v, tg) for v in t.values)
    if isinstance(t, ast.UnaryOp):
        return _skip_ok(t.operand, tg)
    if isinstance(t, ast.Compare):
        return len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Name) and x.id in tg for x in ast.walk(t))
    if isinstance(t, ast.Call):
        return getattr(t.func, "id", "") in ("hasattr", "callable", "getattr") or getattr(t.func, "attr", "") in ("closed",)
    return isinstance(t, ast.Name) and t.id in tg


def caller_files(ctx, prog):
    """No function closes a file it was given by its caller."""
    mods = ("dascore.io", "dascore.utils.io", "dascore.utils.hdf5", "dascore.clients")
    for f in prog.functions.values():
        if not f.module.name.startswith(mods):
            continue
        ps = [p for p in f.all_params if p not in ("self", "cls")]
        if not ps:
            continue
        d = defs_of(f)
        ctx.count("functions_given_files")

        def is_param(e):
            return isinstance(e, ast.Name) and e.id in ps and any(s is None for s, _, _ in d.reaching(e.id, e))

        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and is_param(n.func.value):
                ctx.violation(f"caller:{f.qual}:{n.func.value.id}", f"{f.where(n)}: `{ast.unparse(n)}` closes the file the caller passed as `{n.func.value.id}`")
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    e = i.context_expr
                    if isinstance(e, ast.Call) and getattr(e.func, "id", getattr(e.func, "attr", "")) == "closing" and e.args:
                        e = e.args[0]
                    if is_param(e) and e.id not in ("lock", "context", "tracker", "progress"):
                        ctx.violation(f"caller:{f.qual}:{e.id}", f"{f.where(n)}: the with block closes the file the caller passed as `{e.id}`")
            if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("TextIOWrapper", "BufferedReader", "GzipFile") and n.args and is_param(n.args[0]):
                if not any(isinstance(x, ast.Attribute) and x.attr == "detach" for x in ast.walk(f.node)):
                    ctx.violation(f"caller:{f.qual}:{n.args[0].id}", f"{f.where(n)}: a wrapper around the caller's `{n.args[0].id}` closes it when collected")


def caster(ctx, prog):
    """The wrapper which opens paths for the plugin methods must not close what it did not open."""
    for f in prog.functions.values():
        if f.module.name != "dascore.io.core" or f.parent is None:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "get_handle_from_resource":
                ctx.count("casting_wrappers")
                par = parents(f)
                st = par.get(id(n))
                names = {t.id for t in getattr(st, "targets", []) if isinstance(t, ast.Name)}
                given = {a.id for a in n.args[:1] if isinstance(a, ast.Name)}
                for c in closes(prog, f, f.node, names):
                    m, ok = c, False
                    while id(m) in par:
                        up = par[id(m)]
                        if isinstance(up, ast.If) and m is not up.test:
                            tests = [up.test]
                            if isinstance(up.test, ast.Name):
                                tests += [s for _, s, _ in defs_of(f).reaching(up.test.id, up.test) if s is not None]
                            for t in tests:
                                for k in ast.walk(t):
                                    if isinstance(k, ast.Compare) and isinstance(k.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                                        ids = {x.id for x in ast.walk(k) if isinstance(x, ast.Name)}
                                        ok |= bool(ids & names) and bool(ids & given)
                        m = up
                    if not ok:
                        ctx.violation("caster:caller", f"{f.where(c)}: the file is closed although the caller may have passed it in")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every construct that opens a file (builtin/Path open, pytables, h5py, HDFStore, segyio, handle classes, package functions returning an opened file, the resource manager) is entered by a with, closed in a finally "
             "that covers everything after the opening, returned, or stored in an object which closes it; leaving the resource manager certainly closes every file it remembered except the caller's own; no function "
             "closes a file passed in by its caller")
    ctx.assumptions += ["Third-party one-shot readers (pandas.read_hdf, numpy.loadtxt, pooch) close what they open.", "numpy.memmap and mmap keep only a mapping owned by the arrays made from it.",
                        "Statements without calls, subscripts or arithmetic do not raise."]
    sites = Sites(prog)
    ctx.count("functions_returning_open_files", len(sites.returns))
    for f in prog.functions.values():
        par = blk = None
        for n in walk_own(f.node):
            calls = [n] if isinstance(n, ast.Call) else [x for x in ast.walk(n.body) if isinstance(x, ast.Call)] if isinstance(n, ast.Lambda) else []
            for c in calls:
                what = sites.opens(f, c)
                if what is None and isinstance(c.func, (ast.Name, ast.Attribute)):
                    q = prog.resolve(f.module, f, c.func)
                    if q in sites.cms:
                        up = parents(f).get(id(c))
                        nm = getattr(getattr(up, "func", None), "attr", "")
                        if isinstance(up, ast.Expr) and "open" in q.rsplit(".", 1)[-1]:
                            ctx.violation(f"open:{f.qual}:{ast.unparse(c.func)}", f"{f.where(c)}: the context manager `{ast.unparse(c)[:60]}` is never entered")
                    continue
                if what is None:
                    continue
                if par is None:
                    par, blk = parents(f), blocks(f)
                ctx.count("opening_sites")
                why = discharge(prog, sites, f, c, par, blk)
                if why:
                    ctx.violation(f"open:{f.qual}:{ast.unparse(c.func)}", f"{f.where(c)}: `{ast.unparse(c)[:70]}` opens a file; {why}")
                else:
                    ctx.sample(f"{f.where(c)}: {what}")
    manager(ctx, prog)
    caller_files(ctx, prog)
    caster(ctx, prog)
    ctx.require("opening_sites", 15)
    ctx.require("manager_close_loops", 1)
    ctx.require("manager_opens", 1)
    ctx.require("casting_wrappers", 1)
