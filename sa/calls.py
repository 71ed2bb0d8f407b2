"""Over-approximating call graph of the package and reachability over it."""
from __future__ import annotations

import ast
import builtins

from .flow import defs_of
from .model import dotted, walk_own

# Names so common on non-package objects that a by-name match would be meaningless.
COMMON = set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | set(dir(bytes)) | set(dir(tuple)) | {
    "read", "write", "open", "close", "seek", "tell", "flush", "select", "apply", "map", "drop", "rename", "sort_values", "mean", "std", "sum", "min", "max", "any", "all", "abs",
    "astype", "reshape", "transpose", "where", "equals", "shape", "dims", "data", "size", "ndim", "dtype", "units", "step", "name", "values", "columns", "index", "exists",
    "parent", "stem", "suffix", "unlink", "touch", "mkdir", "head", "tail", "iloc", "loc", "new", "load", "dump", "plot", "show", "T", "real", "imag", "conj", "pipe", "query",
    "set_index", "reset_index", "fillna", "isnull", "round", "cumsum", "median", "interp", "snap", "stack", "chunk", "concatenate", "path", "resolve", "func", "run", "start", "stop"}


class CallGraph:
    def __init__(self, prog):
        self.p = prog
        self.by_name, self.props = {}, {}
        for f in prog.functions.values():
            if f.cls is not None and f.parent is None:
                self.by_name.setdefault(f.name, []).append(f)
                if any((dotted(d) or [""])[-1] in ("property", "cached_property") for d in f.decorators()):
                    self.props.setdefault(f.name, []).append(f)
        self.registered = {}
        for f in prog.functions.values():
            for d in f.decorators():
                e = d.func if isinstance(d, ast.Call) else d
                if isinstance(e, ast.Attribute) and e.attr == "register":
                    q = prog.resolve(f.module, None, e.value)
                    self.registered.setdefault(q, []).append(f)
        self.memo, self.types = {}, {}

    # ---- types of receivers
    def annot_class(self, f, ann):
        if ann is None:
            return None
        for n in ast.walk(ann):
            if isinstance(n, (ast.Name, ast.Attribute)):
                q = self.p.resolve(f.module, None, n)
                if q in self.p.classes:
                    return q
        return None

    def attr_class(self, cq, name):
        """Class of an instance attribute, from its assignments in the methods."""
        key = (cq, name)
        if key in self.types:
            return self.types[key]
        self.types[key] = None
        for q in self.p.mro(cq):
            c = self.p.classes.get(q)
            if c is None:
                continue
            if name in c.annots:
                r = self.annot_class(next(iter(c.methods.values())), c.annots[name]) if c.methods else None
                if r:
                    self.types[key] = r
                    return r
            srcs = [(next(iter(c.methods.values()), None), c.attrs[name])] if name in c.attrs else []
            for m in c.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id in ("self", "cls") for t in n.targets):
                        srcs.append((m, n.value))
            for m, v in srcs:
                r = self.expr_class(m, v) if m is not None else None
                if r:
                    self.types[key] = r
                    return r
        return None

    def expr_class(self, f, e, depth=0):
        """Package class of the object an expression evaluates to, when evident."""
        if depth > 6 or e is None:
            return None
        if isinstance(e, ast.Call):
            q = self.p.resolve(f.module, f, e.func)
            if q in self.p.classes:
                return q
            g = self.p.functions.get(q or "")
            if g is not None and getattr(g.node, "returns", None) is not None:
                r = g.node.returns
                if isinstance(r, ast.Name) and r.id == "Self" or isinstance(r, ast.Constant) and r.value == "Self":
                    return g.cls.qual if g.cls else None
                return self.annot_class(g, r)
            if isinstance(e.func, ast.Attribute):
                cq = self.expr_class(f, e.func.value, depth + 1)
                m = self.p.functions.get(self.p.class_member(cq, e.func.attr) or "") if cq else None
                if m is not None and getattr(m.node, "returns", None) is not None:
                    r = m.node.returns
                    if isinstance(r, ast.Name) and r.id == "Self":
                        return cq
                    return self.annot_class(m, r)
            return None
        if isinstance(e, ast.Name):
            if e.id in ("self", "cls") and f.cls is not None:
                return f.cls.qual
            g = f
            while g is not None:
                a = g.node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    if x.arg == e.id:
                        return self.annot_class(g, x.annotation)
                g = g.parent
            for s, src, how in defs_of(f).reaching(e.id, e):
                if how in ("=", "with") and src is not None:
                    r = self.expr_class(f, src, depth + 1)
                    if r:
                        return r
            q = self.p.resolve(f.module, f, e)
            return q if q in self.p.classes else None
        if isinstance(e, ast.Attribute):
            q = self.p.resolve(f.module, f, e)
            if q in self.p.classes:
                return q
            cq = self.expr_class(f, e.value, depth + 1)
            if cq:
                m = self.p.functions.get(self.p.class_member(cq, e.attr) or "")
                if m is not None:
                    return self.annot_class(m, getattr(m.node, "returns", None))
                return self.attr_class(cq, e.attr)
        if isinstance(e, ast.IfExp):
            return self.expr_class(f, e.body, depth + 1) or self.expr_class(f, e.orelse, depth + 1)
        return None

    def methods_of(self, cq, name, exact=False):
        out = []
        q = self.p.class_member(cq, name)
        g = self.p.functions.get(q or "")
        if g is not None:
            out.append(g)
        if not exact:
            todo = list(self.p.subclasses(cq))
            while todo:
                s = todo.pop()
                c = self.p.classes.get(s)
                if c and name in c.methods:
                    out.append(c.methods[name])
                todo += [x for x in self.p.subclasses(s) if x not in todo]
        return out

    def ref(self, f, e):
        """Functions a Name/Attribute expression may denote."""
        q = self.p.resolve(f.module, f, e)
        if q in self.p.functions:
            return [self.p.functions[q]] + self.registered.get(q, [])
        if q in self.p.classes:
            return [g for n in ("__init__", "__new__", "__post_init__", "__call__") for g in self.methods_of(q, n, exact=True) if n != "__call__"]
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.children:
                    return [g.children[e.id]]
                g = g.parent
            return []
        if not isinstance(e, ast.Attribute):
            return []
        v = e.value
        if isinstance(v, ast.Call) and getattr(v.func, "id", "") == "super" and f.cls is not None:
            for q in self.p.mro(f.cls.qual)[1:]:
                c = self.p.classes.get(q)
                if c and e.attr in c.methods:
                    return [c.methods[e.attr]]
            return []
        if isinstance(v, (ast.Name, ast.Attribute, ast.Call)):
            if q and q.split(".")[0] != self.p.package and self.p.external(q) == q and "." in q:
                return []  # an external library
            owner = f
            while owner is not None and owner.cls is None:
                owner = owner.parent
            cq = owner.cls.qual if isinstance(v, ast.Name) and v.id in ("self", "cls") and owner is not None else self.expr_class(f, v)
            if cq:
                m = self.methods_of(cq, e.attr)
                if m:
                    return m
        if e.attr in COMMON or e.attr.startswith("__") or hasattr(builtins, e.attr):
            return []
        m = self.by_name.get(e.attr, [])
        return m if len(m) <= 12 else []

    def edges(self, f):
        """[(node, callee)] of a function, nested functions included as callees when mentioned."""
        if f.qual in self.memo:
            return self.memo[f.qual]
        out = []
        called = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                out += [(n, g) for g in self.ref(f, n.func)]
        for n in walk_own(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                if isinstance(n, ast.Name):
                    out += [(n, g) for g in self.ref(f, n) if g.qual in self.p.functions]
                elif n.attr in self.props or self.p.resolve(f.module, f, n) in self.p.functions:
                    out += [(n, g) for g in self.ref(f, n)]
            elif isinstance(n, ast.Lambda):
                for x in ast.walk(n.body):
                    if isinstance(x, ast.Call):
                        out += [(x, g) for g in self.ref(f, x.func)]
        for d in f.decorators():
            pass
        self.memo[f.qual] = out
        return out

    def reach(self, roots, stop=lambda f: False):
        """{qual: (function, caller, node)} reachable from the roots."""
        seen, todo = {}, []
        for r in roots:
            if r.qual not in seen:
                seen[r.qual] = (r, None, None)
                todo.append(r)
        while todo:
            f = todo.pop(0)
            for n, g in self.edges(f):
                if g.qual not in seen and not stop(g):
                    seen[g.qual] = (g, f, n)
                    todo.append(g)
        return seen

    @staticmethod
    def path(seen, qual):
        out = []
        while qual is not None and len(out) < 12:
            f, caller, _ = seen[qual]
            out.append(f.qual.replace("dascore.", "", 1))
            qual = caller.qual if caller is not None else None
        return " <- ".join(out)


_GRAPHS = {}


def graph(prog):
    if id(prog) not in _GRAPHS:
        _GRAPHS[id(prog)] = CallGraph(prog)
    return _GRAPHS[id(prog)]


# ---- the file formats
FIBER = "dascore.io.core.FiberIO"
READ_SIDE = ("get_format", "scan", "read")


def fiber_classes(prog):
    out, todo = [], [FIBER]
    while todo:
        q = todo.pop()
        for s in prog.subclasses(q):
            if s not in out:
                out.append(s)
                todo.append(s)
    return [prog.classes[q] for q in sorted(out) if q in prog.classes]
