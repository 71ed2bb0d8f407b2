"""Interprocedural exploration of what a value is made of.

`Explorer.explore(f, expr, env)` walks the expressions a value may be computed
from: local definitions, stores into containers, the returns of package
functions it calls (parameters bound to the argument expressions of that call).
`Explorer.terms(f, expr, env)` evaluates simple expressions to symbolic terms.
Nothing is executed."""
from __future__ import annotations

import ast

from .flow import defs_of
from .model import dotted, walk_own

MUTATORS = ("append", "extend", "insert", "update", "add", "setdefault")


class Env(dict):
    """Parameter name -> (function, expression, environment)."""


class Explorer:
    def __init__(self, prog, cls=None, depth=8):
        self.p, self.cls, self.depth = prog, cls, depth
        self._names = {}

    # ---- definitions of names, container stores included
    def defs(self, f):
        k = id(f.node)
        if k in self._names:
            return self._names[k]
        d = {}

        def add(t, src, how, s):
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and how == "=":
                    for a, b in zip(t.elts, src.elts):
                        add(a, b, how, s)
                else:
                    for i, a in enumerate(t.elts):
                        add(a, src, ("item", i) if how == "=" else how, s)
            elif isinstance(t, ast.Starred):
                add(t.value, src, "*", s)
            elif isinstance(t, ast.Name):
                d.setdefault(t.id, []).append((s, src, how))
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                r = t
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name):
                    d.setdefault(r.id, []).append((s, (t, src), "store"))

        for n in walk_own(f.node if not isinstance(f.node, ast.Lambda) else [f.node.body]):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    add(t, n.value, "=", n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                add(n.target, n.value, "=", n)
            elif isinstance(n, ast.AugAssign):
                add(n.target, n.value, "aug", n)
            elif isinstance(n, ast.NamedExpr):
                add(n.target, n.value, "=", n)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                add(n.target, n.iter, "iter", n)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        add(i.optional_vars, i.context_expr, "=", n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = n.func.value
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name):
                    d.setdefault(r.id, []).append((n, n, "mut"))
        self._names[k] = d
        return d

    # ---- callees
    def callees(self, f, call):
        fn = call.func
        q = self.p.resolve(f.module, f, fn)
        g = self.p.functions.get(q or "")
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls"):
            for c in (self.cls, f.cls.qual if f.cls else None):
                m = self.p.functions.get(self.p.class_member(c, fn.attr) or "") if c else None
                if m is not None:
                    return m
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and getattr(fn.value.func, "id", "") == "super" and f.cls is not None:
            for b in self.p.mro(f.cls.qual)[1:]:
                c = self.p.classes.get(b)
                if c and fn.attr in c.methods:
                    return c.methods[fn.attr]
        if g is None and isinstance(fn, ast.Name):
            h = f
            while h is not None and g is None:
                g = h.children.get(fn.id)
                h = h.parent
        return g

    def bind(self, f, call, g, env):
        """Environment of a callee for a call."""
        out = Env()
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound_self = g.cls is not None and names and names[0] in ("self", "cls") and g.parent is None
        if bound_self and isinstance(call.func, ast.Attribute):
            names = names[1:]
        for n, v in zip(names, call.args):
            if isinstance(v, ast.Starred):
                break
            out[n] = (f, v, env)
        for k in call.keywords:
            if k.arg:
                out[k.arg] = (f, k.value, env)
            else:
                out.setdefault("**", (f, k.value, env))
        dflt = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1])) | {x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        for n, v in dflt.items():
            out.setdefault(n, (g, v, Env()))
        return out

    @staticmethod
    def results(g):
        """Expressions a function returns or yields."""
        out = []
        for n in walk_own(g.node):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                out.append(n)
        if isinstance(g.node, ast.Lambda):
            out.append(ast.Return(value=g.node.body))
        return out

    # ---- exploration
    def explore(self, f, expr, env, seen=None, depth=None, chain=(), flow=True):
        """Yield (function, node, environment, call chain) of every node contributing."""
        seen = set() if seen is None else seen
        depth = self.depth if depth is None else depth
        key = (id(expr), id(env))
        if expr is None or key in seen:
            return
        seen.add(key)
        skip = set()
        for n in ast.walk(expr):
            yield f, n, env, chain
            if isinstance(n, ast.Call) and depth > 0:
                g = self.callees(f, n)
                if g is not None:
                    e2 = self.bind(f, n, g, env)
                    for r in self.results(g):
                        yield from self.explore(g, r.value, e2, seen, depth - 1, chain + ((f, n),))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                yield from self._name(f, n, env, seen, depth, chain)

    def _name(self, f, n, env, seen, depth, chain):
        h = f
        while h is not None:
            ds = self.defs(h).get(n.id)
            if ds:
                for s, src, how in ds:
                    if how == "store":
                        t, v = src
                        k = (id(t), id(env), "store")
                        if k not in seen:
                            seen.add(k)
                            yield h, s, env, chain
                            yield from self.explore(h, v, env, seen, depth, chain)
                    elif how == "mut":
                        k = (id(src), id(env), "mut")
                        if k not in seen:
                            seen.add(k)
                            yield h, src, env, chain
                            for a in list(src.args) + [x.value for x in src.keywords]:
                                yield from self.explore(h, a, env, seen, depth, chain)
                    else:
                        yield from self.explore(h, src, env, seen, depth, chain)
            if n.id in env:
                g, e, ev = env[n.id]
                yield from self.explore(g, e, ev, seen, depth, chain)
                return
            if ds or n.id in h.all_params:
                return
            h = h.parent

    # ---- symbolic terms
    def terms(self, f, e, env, depth=10):
        """Set of symbolic terms: ('const', v), ('self', attr), ('param', function, name), ('attr', term, name),
        ('call', name, argument terms...), ('other', text)."""
        if e is None:
            return {("const", None)}
        if depth <= 0:
            return {("other", ast.unparse(e))}
        T = lambda x: self.terms(f, x, env, depth - 1)
        if isinstance(e, ast.Constant):
            return {("const", e.value)}
        if isinstance(e, ast.Name):
            return self._name_terms(f, e, env, depth)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
                return self._self_terms(f, e)
            out = set()
            for t in T(e.value):
                if t == ("self", "<self>"):
                    out |= self._self_terms(f, e)
                else:
                    out.add(("attr", t, e.attr))
            return out
        if isinstance(e, ast.IfExp):
            return T(e.body) | T(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[T(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return T(e.value)
        if isinstance(e, ast.Await):
            return T(e.value)
        if isinstance(e, ast.Starred):
            return T(e.value)
        if isinstance(e, ast.JoinedStr):
            if all(isinstance(v, ast.Constant) for v in e.values):
                return {("const", "".join(v.value for v in e.values))}
            if len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and e.values[0].format_spec is None:
                return T(e.values[0].value)
        if isinstance(e, (ast.Tuple, ast.List)):
            return {("tuple",) + tuple(frozenset(T(x)) for x in e.elts)}
        neg = isinstance(e, ast.Subscript) and isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant)
        if isinstance(e, ast.Subscript) and (isinstance(e.slice, ast.Constant) or neg and isinstance(e.slice.operand.value, int)):
            out = set()
            i = -e.slice.operand.value if neg else e.slice.value
            for t in T(e.value):
                if t[0] == "tuple" and isinstance(i, int) and -len(t) < i < len(t) - 1:
                    out |= t[1 + i] if i >= 0 else t[i]
                else:
                    out.add(("item", t, i))
            return out
        if isinstance(e, ast.Call):
            g = self.callees(f, e)
            if g is not None and depth > 1:
                e2 = self.bind(f, e, g, env)
                rs = self.results(g)
                out = set()
                for r in rs:
                    out |= self.terms(g, r.value, e2, depth - 1)
                if rs and not self._ends(g):
                    out.add(("const", None))
                return out or {("const", None)}
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if nm == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return {("attr", t, e.args[1].value) for t in T(e.args[0])}
            q = self.p.external(self.p.resolve(f.module, f, e.func)) or nm
            if nm in ("str", "Path", "fspath", "unbyte", "absolute", "resolve", "decode", "strip") and (e.args or isinstance(e.func, ast.Attribute)):
                return T(e.args[0]) if e.args and nm not in ("absolute", "resolve", "decode", "strip") else T(e.func.value) if isinstance(e.func, ast.Attribute) else {("other", ast.unparse(e))}
            args = tuple(sorted((str(x) for a in e.args for x in T(a))))
            recv = tuple(sorted(str(x) for x in T(e.func.value))) if isinstance(e.func, ast.Attribute) else ()
            return {("call", q, recv, args)}
        return {("other", ast.unparse(e))}

    def _ends(self, g):
        from .guards import ends_raise

        def ends(body):
            for s in body:
                if isinstance(s, (ast.Return, ast.Raise)):
                    return True
                if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
                    return True
                if isinstance(s, (ast.With, ast.AsyncWith)) and ends(s.body):
                    return True
                if isinstance(s, ast.Try) and (ends(s.finalbody) or (ends(s.body) or ends(s.orelse)) and all(ends(h.body) for h in s.handlers)):
                    return True
                if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                    return True
            return False
        return isinstance(g.node, ast.Lambda) or ends(g.node.body)

    def _self_terms(self, f, e):
        for c in (self.cls, f.cls.qual if f.cls else None):
            if c:
                m = self.p.functions.get(self.p.class_member(c, e.attr) or "")
                if m is not None and any((dotted(d) or [""])[-1] in ("property", "cached_property") for d in m.decorators()):
                    out = set()
                    for r in self.results(m):
                        out |= self.terms(m, r.value, Env(), 5)
                    return out
        return {("self", e.attr)}

    def _name_terms(self, f, e, env, depth):
        if f.cls is not None and e.id in ("self", "cls") and e.id in f.all_params:
            return {("self", "<self>")}
        out = set()
        h = f
        while h is not None:
            ds = defs_of(h).reaching(e.id, e) if h is f else [x for x in self.defs(h).get(e.id, []) if x[2] not in ("store", "mut")]
            got = False
            for s, src, how in ds:
                if src is None:
                    continue
                got = True
                if how == "=" or how == "with":
                    out |= self.terms(h, src, env, depth - 1)
                elif isinstance(how, tuple):
                    for t in self.terms(h, src, env, depth - 1):
                        if t[0] == "tuple" and how[1] < len(t) - 1:
                            out |= t[1 + how[1]]
                        else:
                            out.add(("item", t, how[1]))
                elif how == "iter":
                    out |= {("element", t) for t in self.terms(h, src, env, depth - 1)}
                else:
                    out.add(("other", e.id))
            # comprehension variables
            if not got:
                for s, src, how in self.defs(h).get(e.id, []):
                    if how == "iter" and isinstance(s, ast.comprehension):
                        got = True
                        out |= {("element", t) for t in self.terms(h, src, env, depth - 1)}
            if e.id in h.all_params and (not got or any(x[0] is None for x in ds)):
                if e.id in env:
                    g, x, ev = env[e.id]
                    out |= self.terms(g, x, ev, depth - 1)
                else:
                    out.add(("param", h.qual, e.id))
                return out
            if got:
                return out
            h = h.parent
        q = self.p.resolve(f.module, f, e)
        m, _, v = (q or "").rpartition(".")
        mod = self.p.modules.get(m)
        if mod and len(mod.variables.get(v, [])) == 1:
            x = mod.variables[v][0]
            if isinstance(x, (ast.Constant, ast.Tuple, ast.List)):
                return self.terms(f, x, Env(), depth - 1)
        return {("global", q or e.id)}
