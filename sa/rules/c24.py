"""C24: errors are never silently swallowed.

Every except clause, `suppress` context, `finally` exit and `__exit__` result of the package is enumerated.  A
clause is *silent* when some path through it neither raises nor warns nor repeats the attempted operation.  A
silent clause must be justified by its class (specific) and by the code it covers (elementary).
"""
from __future__ import annotations

import ast
import builtins

from ..calls import fiber_classes, graph
from ..flow import defs_of
from ..guards import ends_raise
from ..model import dotted, walk_own
from .c11 import parents
from .c14 import Isolation, _warn_call, exc_names

BROAD = {"Exception", "BaseException", "DASCoreError"}
# builtin (or library base) classes raised for arbitrary programming and input mistakes
MEDIUM = {"ValueError", "TypeError", "KeyError", "IndexError", "LookupError", "AttributeError", "RuntimeError", "OSError",
          "IOError", "EnvironmentError", "ArithmeticError", "AssertionError", "NameError", "NotImplementedError",
          "StopIteration", "HDF5ExtError", "EOFError", "MemoryError", "BufferError", "FloatingPointError", "ZeroDivisionError",
          "UnicodeError", "UnicodeDecodeError", "SystemError", "ReferenceError", "RecursionError"}
# library classes which tell the caller that the input was wrong
INPUT = {"DimensionalityError", "UndefinedUnitError", "OffsetUnitCalculusError", "PintError", "ValidationError", "LinAlgError",
         "error", "ParserError", "OutOfBoundsDatetime", "OutOfBoundsTimedelta", "MergeError", "PydanticUserError", "ParseError"}
# reviewed silent clauses: (module, caught classes) -> how many, why
REVIEWED = {
    ("dascore.core.coords", frozenset({"Exception"})): (1, "probe whether a reducer commutes with a shift; the reducer runs again, unguarded"),
    ("dascore.core.coords", frozenset({"CoordError"})): (1, "a request that selects everything needs no order"),
    ("dascore.core.coords", frozenset({"ValidationError", "CoordError"})): (1, "incomplete description: documented partial coordinate"),
    ("dascore.utils.chunk", frozenset({"ChunkError"})): (1, "documented: a segment shorter than one chunk yields no chunk"),
    ("dascore.io.core", frozenset({"UnknownFiberFormatError"})): (1, "scan skips files which are not of a known format (documented)"),
    ("dascore.utils.hdf5", frozenset({"FileNotFoundError"})): (1, "no index file yet: no version"),
    ("dascore.utils.hdf5", frozenset({"FileNotFoundError", "ValueError", "KeyError", "OSError"})): (1, "metadata table created, then read unguarded"),
    ("dascore.utils.hdf5", frozenset({"OSError", "IndexError", "ValueError", "KeyError", "AttributeError"})): (1, "no update time stored: everything is scanned"),
    ("dascore.io.indexer", frozenset({"OSError", "JSONDecodeError"})): (1, "corrupt map of index locations is discarded (documented)"),
}
NUMPY_OK = {"array", "asarray", "asanyarray", "isclose", "allclose", "append", "dtype", "atleast_1d", "all", "any", "isnan", "isnull",
            "memmap", "frombuffer", "issubdtype", "datetime64", "timedelta64", "array_equal", "shape", "ndim"}
WRITERS = {"create_array", "create_group", "create_table", "create_carray", "create_dataset", "append", "put", "dump", "dumps", "write",
           "to_hdf", "tofile", "save", "savetxt", "remove_node", "write_update", "flush"}
READERS = {"load", "loads", "fromfile", "read_hdf", "read_csv", "open_file", "open_memmap", "File", "parse"}
PKG_ROOTS_OK = {"builtins", "os", "importlib", "pathlib", "contextlib", "warnings", "time", "datetime", "math", "operator", "functools",
                "itertools", "collections", "json", "re", "inspect", "io", "types", "typing", "tables", "h5py", "threading", "sys", "string"}
DOMAIN_METHODS = {"select", "get_coord", "get_array", "get_axis", "new", "from_dict", "chunk", "scan", "get_format", "get_resource", "get_handle",
                  "set_dims", "update_attrs", "update_coords", "transpose", "pass_filter", "decimate", "resample", "interpolate", "convert_units",
                  "sort_coords", "drop_coords", "append_dims", "write_update", "read", "get_index", "get_contents", "from_kwargs", "order",
                  "update_data_shape", "apply", "merge", "concatenate", "stack_patches", "aggregate"}


class Errors:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.g = graph(self.p)
        self.iso = Isolation(self.p)
        self.reviewed = {}
        self.det = self._detectors()

    # ---- functions which only detection uses
    def _detectors(self):
        roots = {q for c in fiber_classes(self.p) for q in [c.qual + ".get_format"] if q in self.p.functions}
        callers = {}
        for f in self.p.functions.values():
            for _, h in self.g.edges(f):
                callers.setdefault(h.qual, set()).add(f.qual)
        out = set(roots)
        while True:
            new = {q for q, cs in callers.items() if q not in out and q in self.p.functions and cs <= out | {q} and cs - {q}}
            if not new:
                return out
            out |= new

    def in_detector(self, f):
        while f is not None:
            if f.qual in self.det:
                return True
            f = f.parent
        return False

    # ---- silent paths of a handler
    def quiet_paths(self, f, body, tried, rest, depth=40):
        """Lists of (test, polarity) of the paths through `body` (+ what follows) which neither raise, warn nor retry."""
        out = []

        def go(stmts, conds, cont):
            if len(out) > depth:
                return
            for i, s in enumerate(stmts):
                if isinstance(s, ast.Raise) or self.speaks(f, s, tried):
                    return
                if isinstance(s, ast.If):
                    tail = stmts[i + 1:]
                    go(s.body + tail, conds + [(s.test, True)], cont)
                    go(s.orelse + tail, conds + [(s.test, False)], cont)
                    return
                if isinstance(s, (ast.With, ast.Try)):
                    tail = stmts[i + 1:]
                    if isinstance(s, ast.With):
                        go(s.body + tail, conds, cont)
                        return
                    go(s.body + s.orelse + s.finalbody + tail, conds, cont)
                    return
                if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
                    out.append(conds)
                    return
            if cont is not None:
                go(cont, conds, None)
                return
            out.append(conds)
        go(list(body), [], rest)
        return out

    def speaks(self, f, s, tried):
        """A simple statement that certainly warns, raises or repeats the attempted operation."""
        heads = [s]
        if isinstance(s, (ast.If, ast.While)):
            heads = [s.test]
        elif isinstance(s, ast.For):
            heads = [s.iter]
        elif isinstance(s, ast.With):
            heads = [i.context_expr for i in s.items]
        elif isinstance(s, (ast.Try, ast.FunctionDef, ast.ClassDef)):
            return False
        for h in heads:
            for n in ast.walk(h):
                if not isinstance(n, ast.Call):
                    continue
                if _warn_call(self.p, f, n, 2) and not _ignoring(n):
                    return True
                d = ast.dump(n.func)
                if d in tried and isinstance(n.func, (ast.Name, ast.Attribute)):
                    return True
                q = self.p.resolve(f.module, f, n.func)
                g = self.p.functions.get(q or "")
                if g is not None and g is f:
                    return True
                if g is None and isinstance(n.func, ast.Attribute):
                    ms = self.g.ref(f, n.func)
                    g = ms[0] if len(ms) == 1 and ms[0].qual in self.p.functions else None
                if g is not None and not g.node.decorator_list and ends_raise(g.body):
                    return True
                if g is not None and self._enclosing(f, g):
                    return True
        if isinstance(s, (ast.AugAssign, ast.Assign, ast.Expr)) and self._noted(f, s):
            return True
        return False

    @staticmethod
    def _enclosing(f, g):
        while f is not None:
            if f is g:
                return True
            f = f.parent
        return False

    def _noted(self, f, s):
        """The statement leaves a note that a later statement of the function turns into a warning or an error."""
        names = set()
        for t in getattr(s, "targets", None) or [getattr(s, "target", None)]:
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name) and t.id != "self":
                names.add(t.id)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add"):
            r = s.value.func.value
            if isinstance(r, ast.Name):
                names.add(r.id)
        if not names or f.node is None:
            return False
        pol = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Constant):
            pol = bool(s.value.value)
        for n in walk_own(f.node):
            if isinstance(n, (ast.If, ast.For)) and n.lineno > s.lineno:
                t = n.test if isinstance(n, ast.If) else n.iter
                if not (names & {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}):
                    continue
                body = n.body
                if isinstance(n, ast.If) and pol is not None:
                    neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Is)
                    if isinstance(t, ast.BoolOp) or neg == pol and not isinstance(t, ast.Compare):
                        continue
                if ends_raise(body) or any(isinstance(x, ast.Call) and _warn_call(self.p, f, x, 2) for b in body for x in ast.walk(b)):
                    return True
        return False

    # ---- what a clause covers
    def heavy(self, f, nodes, specific, depth=3):
        """Why code is more than an elementary attempt (None if it is not)."""
        own = set()
        for n in nodes:
            if isinstance(n, (ast.Yield, ast.YieldFrom)) and _context_manager(f):
                return "covers the caller's whole `with` block"
            if isinstance(n, ast.Call):
                own.add(id(n.func))
                r = self._heavy_call(f, n, specific, depth)
                if r:
                    return r
        return None

    def _heavy_call(self, f, n, specific, depth):
        fn = n.func
        q = self.p.resolve(f.module, f, fn)
        g = self.p.functions.get(q or "")
        if g is not None:
            if g is f or self._enclosing(f, g):
                return None
            return self._heavy_function(g, specific, depth)
        if q in self.p.classes:
            m = self.p.functions.get(self.p.class_member(q, "__init__") or "")
            if m is not None:
                return self._heavy_function(m, specific, depth)
            return f"builds a {q.rsplit('.', 1)[1]}" if self._model(q) else None
        if isinstance(fn, ast.Name):
            if fn.id in f.all_params and not hasattr(builtins, fn.id):
                return f"runs the caller's `{fn.id}`"
            d = defs_of(f).reaching(fn.id, fn) if q is None or q.startswith("local") else None
            if d and not hasattr(builtins, fn.id):
                return None
        ext = self.p.external(q) if q else None
        ext = None if (ext or "dascore").split(".")[0] in ("dascore", "local") else ext
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        root = (ext or "").split(".")[0]
        if specific:
            return None
        if root == "numpy":
            return None if name in NUMPY_OK else f"runs the computation `{ext}`"
        if name in READERS:
            return f"reads stored content with `{ast.unparse(fn)}`"
        if ext and root not in PKG_ROOTS_OK and not hasattr(builtins, root) and name not in NUMPY_OK:
            return f"runs `{ext}`"
        if isinstance(fn, ast.Attribute) and not ext:
            ms = [m for m in self.g.ref(f, fn) if m.qual in self.p.functions]
            ms = [m for m in ms if not (m is f or self._enclosing(f, m))]
            if len(ms) == 1:
                return self._heavy_function(ms[0], specific, depth)
            if name in WRITERS and not self._container(f, fn.value):
                return f"writes with `{ast.unparse(fn)}`"
            if name in DOMAIN_METHODS and not (name == "read" and self._elementary_read(fn)):
                return f"runs `{ast.unparse(fn)}`"
        return None

    @staticmethod
    def _elementary_read(fn):
        return True

    def _container(self, f, e):
        if isinstance(e, ast.Name):
            for _, src, how in defs_of(f).reaching(e.id, e) or []:
                if isinstance(src, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or isinstance(src, ast.Call) and getattr(src.func, "id", "") in ("list", "set", "dict"):
                    return True
        return False

    def _model(self, q):
        return any(str(b).endswith("DascoreBaseModel") or str(b).endswith("BaseModel") for b in self.p.mro(q)) or q == "dascore.core.patch.Patch"

    def _heavy_function(self, g, specific, depth):
        if depth <= 0:
            return f"runs {g.qual}"
        if any(isinstance(x, ast.Raise) for x in walk_own(g.node)):
            return f"runs {g.qual}, which raises errors of its own"
        if sum(1 for x in walk_own(g.node) if isinstance(x, ast.stmt)) > 12:
            return f"runs {g.qual}"
        if any((dotted(d.func if isinstance(d, ast.Call) else d) or [""])[-1] == "patch_function" for d in g.node.decorator_list):
            return f"runs the patch operation {g.qual}"
        r = self.heavy(g, list(walk_own(g.node)), specific, depth - 1)
        return f"runs {g.qual} ({r})" if r else None

    # ---- decisions
    def package_error(self, f, name):
        q = next((c for c in self.p.classes if c == "dascore.exceptions." + name), None)
        return q

    def clause(self, m, f, node, names, body, handler, rest, what):
        """One except clause or suppress context. handler: statements run when the error was caught."""
        ctx = self.ctx
        ctx.count("clauses")
        fq = f.qual if f is not None else m.name
        where = f"{m.relpath}:{node.lineno} in {fq}"
        tried = {ast.dump(c.func) for s in body for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute))}
        tried -= {ast.dump(c.func) for s in body for c in ast.walk(s) if isinstance(c, ast.Call) and getattr(c.func, "id", "") in dir(builtins)}
        fi = f or _module_function(self.p, m)
        paths = self.quiet_paths(fi, handler, tried, rest)
        if not paths:
            return
        ctx.count("silent_clauses")
        nodes = [x for s in body for x in [s] + list(walk_own(s))]
        key = f"silent:{m.name}:{f.name if f else ''}:{','.join(sorted(names))}"
        rk = (m.name, frozenset(names))
        if rk in REVIEWED:
            self.reviewed.setdefault(rk, []).append((key, where, what))
            return
        broad = names & BROAD
        if f is not None and self.in_detector(f):
            ctx.count("detector_clauses")
            return
        if broad:
            if f is not None and m.name == "dascore.io.core":
                if self._loop_exempt(f, nodes):
                    ctx.count("isolation_clauses")
                    return
                if all(self._exempt_path(f, c) for c in paths):
                    ctx.count("conditional_clauses")
                    return
            ctx.violation(key, f"{where}: {what} hides arbitrary errors on a path that neither raises nor warns")
            return
        pkg = {n for n in names if self.package_error(f, n)}
        if pkg and not (f is not None and all(self._exempt_path(f, c) for c in paths)):
            ctx.violation(key, f"{where}: {what} drops {sorted(pkg)}, an error meant for the caller, without raising or warning")
            return
        inp = {n for n in names if n in INPUT}
        if inp:
            ctx.violation(key, f"{where}: {what} drops {sorted(inp)}, which reports wrong input, without raising or warning")
            return
        specific = not (names & MEDIUM)
        why = self.heavy(fi, nodes, specific)
        if why:
            ctx.violation(key, f"{where}: {what} silently continues although the covered code {why}")

    def _loop_exempt(self, f, nodes):
        st = {r for _, r in self.iso.steps(f, nodes)}
        return bool(st & {"get_format", "load", "register_fiberio"}) and not st & {"scan"}

    def _exempt_path(self, f, conds):
        """Documented silent paths: a detector's own error; a directory which cannot be looked into as one file."""
        for t, pol in conds:
            t0, p0 = t, pol
            while True:
                if isinstance(t0, ast.UnaryOp) and isinstance(t0.op, ast.Not):
                    t0, p0 = t0.operand, not p0
                    continue
                if isinstance(t0, ast.Name):
                    ds = defs_of(f).reaching(t0.id, t0) or []
                    if len(ds) == 1 and ds[0][1] is not None and ds[0][2] == "=":
                        t0 = ds[0][1]
                        continue
                break
            tests = t0.values if isinstance(t0, ast.BoolOp) and (isinstance(t0.op, ast.And) and p0 or isinstance(t0.op, ast.Or) and not p0) else [t0]
            for x in tests:
                xp = p0
                while isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                    x, xp = x.operand, not xp
                if isinstance(x, ast.Compare) and len(x.ops) == 1:
                    consts = [c.value for s in (x.left, x.comparators[0]) for c in ast.walk(s) if isinstance(c, ast.Constant)]
                    if consts == ["get_format"]:
                        if isinstance(x.ops[0], (ast.Eq, ast.In, ast.Is)) and xp or isinstance(x.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)) and not xp:
                            return True
                if isinstance(x, ast.Call) and getattr(x.func, "attr", getattr(x.func, "id", "")) in ("isdir", "is_dir") and xp:
                    return True
        return False

    def settle(self):
        for rk, sites in self.reviewed.items():
            n, why = REVIEWED[rk]
            self.ctx.count("reviewed_clauses", min(n, len(sites)))
            if len(sites) > n:
                for key, where, what in sites:
                    self.ctx.violation(key, f"{where}: {what} continues silently; {len(sites)} such clauses in the module, {n} reviewed ({why})")


def _ignoring(n):
    return any(k.arg in ("behavior", "on_missing", "action") and isinstance(k.value, ast.Constant) and k.value.value == "ignore" for k in n.keywords)


def _context_manager(f):
    return any((dotted(d.func if isinstance(d, ast.Call) else d) or [""])[-1] in ("contextmanager", "asynccontextmanager") for d in f.node.decorator_list)


_PSEUDO = {}


def _module_function(prog, m):
    """Module level code as a function without parameters."""
    from ..model import FunctionInfo
    k = (id(prog), m.name)
    if k not in _PSEUDO:
        n = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=[s for s in m.tree.body], decorator_list=[], returns=None, type_comment=None)
        n.lineno, n.col_offset = 1, 0
        _PSEUDO[k] = FunctionInfo(m.name + ".<module>", "<module>", n, m, None, None)
    return _PSEUDO[k]


def following(par, node):
    """Statements executed after a statement completes, up to the end of the function or of the loop iteration."""
    out = []
    n = node
    while id(n) in par:
        up = par[id(n)]
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(up, fld, None)
            if isinstance(b, list) and any(x is n for x in b):
                i = next(i for i, x in enumerate(b) if x is n)
                out += b[i + 1:]
                if isinstance(up, (ast.For, ast.While)) and fld == "body":
                    return None if not out else out
        if isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            break
        n = up
    return out


def exits(ctx, prog, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for x in [s] + list(walk_own(s)):
                    inner = any(isinstance(l, (ast.For, ast.While)) and any(y is x for y in ast.walk(l)) for b in n.finalbody for l in ast.walk(b))
                    if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not inner:
                        ctx.violation(f"finally:{m.name}", f"{m.relpath}:{x.lineno}: `{ast.unparse(x)}` in a finally block discards whatever error is being raised")
            if n.finalbody:
                ctx.count("finally_blocks")
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__aexit__"):
            ctx.count("exit_methods")
            for x in walk_own(n):
                if isinstance(x, ast.Return) and x.value is not None:
                    v = x.value
                    if isinstance(v, ast.Constant) and not v.value:
                        continue
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("__exit__", "__aexit__", "close"):
                        continue
                    ctx.violation(f"exit:{m.name}:{n.name}", f"{m.relpath}:{x.lineno}: __exit__ returns `{ast.unparse(v)}`: if true, the error raised inside the with block is discarded")


CONVERTERS = {"to_numeric", "to_datetime", "to_timedelta", "astype", "convert_dtypes"}


def coercions(ctx, prog, m):
    """Conversions told to replace what they cannot convert."""
    sites = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in CONVERTERS:
            ctx.count("conversions")
            for k in n.keywords:
                if k.arg == "errors" and isinstance(k.value, ast.Constant) and k.value.value in ("coerce", "ignore"):
                    sites.append(n)
    allowed = 2 if m.name == "dascore.utils.time" else 0  # string arrays: documented NaT for unparsable entries
    if len(sites) > allowed:
        for n in sites:
            ctx.violation(f"coerce:{m.name}", f"{m.relpath}:{n.lineno}: `{ast.unparse(n)}` silently replaces values it cannot convert")
    else:
        ctx.count("reviewed_coercions", len(sites))


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every except clause and suppress context: if some path through it (and what follows it) neither raises, warns, leaves a note that is later raised or warned about, nor repeats the attempted "
             "operation, then the caught classes must be specific and the covered code elementary (a lookup, conversion, import or probe; no package operation that raises errors of its own, user callable, "
             "stored-content read or write, library computation); package errors and input errors may be dropped only by the reviewed clauses")
    ctx.rule("No return/break/continue in finally; no __exit__ with a result that may be true; no conversion told to coerce or ignore errors outside the reviewed string conversions")
    ctx.assumptions.append("Clauses of functions reached only from format detectors and of the detection and plugin-loading loops are the documented exemptions; C14 judges those.")
    e = Errors(ctx)
    for m in prog.modules.values():
        owner = {}
        for f in prog.functions.values():
            if f.module is m:
                for n in walk_own(f.node):
                    owner[id(n)] = f
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        for n in ast.walk(m.tree):
            f = owner.get(id(n))
            if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
                for h in n.handlers:
                    names = _names(prog, m, h.type)
                    rest = following(par, n)
                    e.clause(m, f, h, names, n.body, h.body, list(n.finalbody) + list(rest or []), f"`except {ast.unparse(h.type) if h.type else ''}`")
            elif isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] == "suppress" and (prog.resolve(m, f, n.func) or "contextlib.suppress").endswith("suppress"):
                names = {x for a in n.args for x in _names(prog, m, a)}
                up = par.get(id(n))
                w = par.get(id(up))
                if isinstance(up, ast.withitem) and isinstance(w, (ast.With, ast.AsyncWith)):
                    e.clause(m, f, n, names, w.body, [], following(par, w), f"`{ast.unparse(n)}`")
                else:
                    body = f.body if f is not None else m.tree.body
                    e.clause(m, f, n, names, body, [], [], f"`{ast.unparse(n)}`")
        exits(ctx, prog, m)
        coercions(ctx, prog, m)
    e.settle()
    ctx.require("clauses", 30)


def _names(prog, m, t):
    """Caught classes, module level tuples of classes expanded."""
    if t is None:
        return {"BaseException"}
    out = set()
    for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
        if isinstance(x, ast.Starred):
            x = x.value
        d = dotted(x)
        src = m.variables.get(d[0]) if d and len(d) == 1 and hasattr(m, "variables") else None
        src = src[-1] if isinstance(src, list) and src else src
        src = getattr(src, "value", src)
        if isinstance(src, (ast.Tuple, ast.List)):
            out |= _names(prog, m, src)
        elif d is None and isinstance(x, ast.BinOp):
            out |= {"Exception"}
        else:
            out.add(_canon((d or ["Exception"])[-1]))
    return out


def _canon(n):
    o = getattr(builtins, n, None)
    return o.__name__ if isinstance(o, type) else n
