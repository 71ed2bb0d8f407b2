"""C23: no order the library returns or stores derives from a set's iteration order or a salted hash."""
from __future__ import annotations

import ast

from ..calls import graph
from ..contrib import Explorer
from ..flow import defs_of
from ..model import dotted, walk_own

SETOPS = (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)
SETMETH = {"union", "intersection", "difference", "symmetric_difference", "copy"}
CONSUME = {"sorted", "set", "frozenset", "len", "any", "all", "min", "max", "sum", "bool", "isinstance", "Counter", "issubset", "issuperset", "isdisjoint", "union", "intersection",
           "difference", "symmetric_difference", "update_set", "hash", "str", "repr", "print", "format", "type", "id", "prod", "isin", "in1d", "discard", "remove", "drop", "fsum", "count",
           "nansum", "sort", "unique", "warn", "debug", "info", "deepcopy_set", "argsort", "lexsort", "isclose", "allclose", "_dict_list_diffs", "is_array", "iterate_len"}
ORDERED = {"list", "tuple", "iter", "enumerate", "reversed", "map", "filter", "zip", "chain", "from_iterable", "array", "asarray", "fromkeys", "join", "stack", "concatenate", "hstack", "vstack",
           "DataFrame", "Series", "Index", "reindex", "concat", "dict", "OrderedDict", "deque", "islice", "FrozenDict", "MappingProxyType", "product", "permutations", "combinations", "cycle",
           "partial", "items", "keys", "values", "copy", "deepcopy", "cast", "starmap", "takewhile", "dropwhile", "accumulate", "groupby", "track", "iterate"}

# methods of data frames which keep the order of the columns
FRAME_METHODS = {"reset_index", "assign", "drop", "sort_values", "sort_index", "set_index", "rename", "astype", "fillna", "replace", "drop_duplicates", "dropna", "query", "merge", "join", "convert_dtypes", "infer_objects", "head", "tail", "where", "pipe"}

OWNERS = (".core.patch.Patch", ".core.coordmanager.CoordManager", ".core.attrs.PatchAttrs")


class Order:
    def __init__(self, ctx, prog):
        self.ctx, self.p = ctx, prog
        self.x = Explorer(prog)
        self.par, self._attr, self._ret = {}, {}, {}
        self._callers = None
        self.seen = set()

    def parents(self, f):
        k = id(f.node)
        if k not in self.par:
            d = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    d[id(c)] = n
            self.par[k] = d
        return self.par[k]

    def callers(self, q):
        if self._callers is None:
            self._callers = {}
            for f in self.p.functions.values():
                for c in walk_own(f.node):
                    if isinstance(c, ast.Call):
                        g = self.x.callees(f, c)
                        if g is not None:
                            self._callers.setdefault(g.qual, []).append((f, c))
        return self._callers.get(q, [])

    # ---- which expressions are sets
    def is_set(self, f, e, depth=6):
        if e is None or depth <= 0:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id in ("set", "frozenset"):
                return True
            if isinstance(fn, ast.Attribute) and fn.attr in SETMETH and self.is_set(f, fn.value, depth - 1):
                return True
            if isinstance(fn, ast.Attribute) and fn.attr == "get" and len(e.args) == 2 and self.is_set(f, e.args[1], depth - 1):
                return True
            g = self.x.callees(f, e)
            return g is not None and self.returns_set(g, depth - 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, SETOPS):
            return self.setlike(f, e.left, depth - 1) or self.is_set(f, e.right, depth - 1) and not isinstance(e.op, ast.Sub)
        if isinstance(e, ast.BoolOp):
            return any(self.is_set(f, v, depth - 1) for v in e.values)
        if isinstance(e, ast.IfExp):
            return self.is_set(f, e.body, depth - 1) or self.is_set(f, e.orelse, depth - 1)
        if isinstance(e, ast.NamedExpr):
            return self.is_set(f, e.value, depth - 1)
        if isinstance(e, ast.Name):
            ds = defs_of(f).reaching(e.id, e)
            got = [(s, src) for s, src, how in ds if how == "=" and src is not None]
            if got:
                return any(self.is_set(f, src, depth - 1) for s, src in got)
            if ds and any(s is not None for s, _, _ in ds):
                return False
            if e.id in f.all_params:
                a = self.annotation(f, e.id)
                return a is not None and any(isinstance(n, ast.Name) and n.id in ("set", "frozenset", "Set", "AbstractSet") for n in ast.walk(a)) and not any(isinstance(n, ast.BinOp) for n in ast.walk(a))
            q = self.p.resolve(f.module, f, e) or ""
            m, _, v = q.rpartition(".")
            mod = self.p.modules.get(m)
            if mod and mod.variables.get(v):
                return any(self.const_set(mod, x) for x in mod.variables[v])
            return False
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
                return self.attr_set(f.cls, e.attr)
            q = self.p.resolve(f.module, f, e) or ""
            m, _, v = q.rpartition(".")
            mod = self.p.modules.get(m)
            return bool(mod and mod.variables.get(v) and any(self.const_set(mod, x) for x in mod.variables[v]))
        return False

    def setlike(self, f, e, depth):
        """Sets and dictionary views, of which set operators make sets."""
        return self.is_set(f, e, depth) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items") and not e.args

    @staticmethod
    def const_set(mod, x):
        return isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("set", "frozenset")

    @staticmethod
    def annotation(f, name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def attr_set(self, cls, name):
        key = (cls.qual, name)
        if key in self._attr:
            return self._attr[key]
        self._attr[key] = False
        r = False
        for q in self.p.mro(cls.qual):
            c = self.p.classes.get(q)
            if c is None:
                continue
            if name in c.attrs:
                r |= self.const_set(c.module, c.attrs[name])
            a = c.annots.get(name)
            r |= isinstance(a, (ast.Name, ast.Subscript)) and (dotted(a.value if isinstance(a, ast.Subscript) else a) or [""])[-1] in ("set", "frozenset", "Set")
            m = c.methods.get(name)
            if m is not None and any((dotted(d) or [""])[-1] in ("property", "cached_property", "cached_method") for d in m.decorators()):
                r |= self.returns_set(m, 4)
            for m in c.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
                        r |= self.is_set(m, n.value, 3)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name and n.value is not None:
                        r |= self.is_set(m, n.value, 3)
        self._attr[key] = r
        return r

    def returns_set(self, g, depth):
        if g.qual in self._ret:
            return self._ret[g.qual]
        self._ret[g.qual] = False
        rs = [n for n in walk_own(g.node) if isinstance(n, ast.Return) and n.value is not None]
        r = bool(rs) and any(self.is_set(g, n.value, depth) for n in rs) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node))
        self._ret[g.qual] = r
        return r

    def integers(self, f, e, depth=5):
        """Sets of small integers iterate the same way in every process."""
        if isinstance(e, ast.NamedExpr):
            e = e.value
        if isinstance(e, ast.BinOp):
            return self.integers(f, e.left, depth - 1) or isinstance(e.op, ast.BitAnd) and self.integers(f, e.right, depth - 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("difference", "intersection", "copy"):
            return self.integers(f, e.func.value, depth - 1)
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("set", "frozenset") and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.Call) and getattr(a.func, "id", "") == "range":
                return True
            if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                return self._int(f, a.elt)
            return isinstance(a, ast.Attribute) and a.attr == "shape"
        if isinstance(e, ast.SetComp):
            return self._int(f, e.elt)
        if isinstance(e, ast.Set):
            return all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
        if isinstance(e, ast.Name) and depth:
            ds = [d for d in defs_of(f).reaching(e.id, e)]
            return bool(ds) and all(how == "=" and src is not None and self.integers(f, src, depth - 1) for s, src, how in ds)
        return False

    @staticmethod
    def _int(f, e):
        return isinstance(e, ast.Constant) and isinstance(e.value, int) or isinstance(e, ast.Call) and (dotted(e.func) or [""])[-1] in ("len", "int", "index", "get_axis", "get_axes") \
            or isinstance(e, ast.Attribute) and e.attr in ("ndim", "size")

    # ---- forward tracking
    def report(self, f, n, what, src):
        sf, se = src
        self.ctx.violation(f"order:{sf.qual}:{ast.unparse(se)[:60]}:{f.qual}", f"{f.where(n)}: {what} in the iteration order of the set `{ast.unparse(se)[:80]}` ({sf.where(se)})")

    def singleton(self, f, e):
        """Is the size of the set compared to a constant somewhere in the function, or is it what is left of two dimensions?"""
        if isinstance(e, ast.NamedExpr):
            e = e.value
        names = {ast.unparse(e)}
        if isinstance(e, ast.Name):
            for s, src, how in defs_of(f).reaching(e.id, e):
                if how == "=" and src is not None:
                    names.add(ast.unparse(src))
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and ast.unparse(n.value) in names:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, ast.NamedExpr) and ast.unparse(n.value) in names:
                names.add(n.target.id)
        for n in walk_own(f.node):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in n.comparators + [n.left]):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "len" and c.args:
                        t = c.args[0]
                        us = {ast.unparse(t)} | ({ast.unparse(t.value), t.target.id} if isinstance(t, ast.NamedExpr) else set())
                        if us & names:
                            return True
        if self.from_dims(f, e) and self.counted(f):
            return True
        return self.one_left(f, e)

    def from_dims(self, f, e, depth=4):
        """A difference of the dimensions of a patch."""
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == "dims" or isinstance(n, ast.Name) and n.id == "dims" and n.id in f.all_params:
                return True
            if isinstance(n, ast.Name) and depth:
                for s, src, how in defs_of(f).reaching(n.id, n):
                    if how == "=" and src is not None and self.from_dims(f, src, depth - 1):
                        return True
        return False

    def sizes(self, f, e, depth=3):
        """The dimensions or the shape of a patch."""
        e = e.value if isinstance(e, ast.NamedExpr) else e
        if (dotted(e) or [""])[-1] in ("dims", "shape", "dim_tuple"):
            return True
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("tuple", "list", "set", "sorted") and e.args:
            return self.sizes(f, e.args[0], depth)
        return isinstance(e, ast.Name) and depth > 0 and any(how == "=" and src is not None and self.sizes(f, src, depth - 1) for s, src, how in defs_of(f).reaching(e.id, e))

    def counted(self, f, depth=2, down=True):
        """Does the function (or one it calls, or its callers) check the number of dimensions?"""
        for n in walk_own(f.node):
            if isinstance(n, ast.Compare):
                if not any(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in [n.left] + n.comparators):
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr == "ndim" or isinstance(x, ast.Call) and getattr(x.func, "id", "") == "len" and x.args and self.sizes(f, x.args[0])
                       for x in ast.walk(n)) and self.enforced(f, n):
                    return True
        if depth:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    g = self.x.callees(f, n)
                    if g is not None and g is not f and self.counted(g, depth - 1, False):
                        return True
        return down and any(self.counted(g, depth - 1, False) for g, c in self.callers(f.qual)) if depth else False

    def enforced(self, f, cmp):
        """A comparison which feeds only tests that raise: does every one of them raise whenever the count is another one?"""
        def is_it(e):
            if e is cmp:
                return True
            return isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and any(how == "=" and src is cmp for _, src, how in defs_of(f).reaching(e.id, e))

        def ev(e):
            if is_it(e):
                o = cmp.ops[0] if len(cmp.ops) == 1 else None
                return False if isinstance(o, ast.Eq) else True if isinstance(o, ast.NotEq) else "any"
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                v = ev(e.operand)
                return (not v) if isinstance(v, bool) else v
            if isinstance(e, ast.BoolOp):
                vs = [ev(x) for x in e.values]
                if "any" in vs:
                    return "any"
                stop = isinstance(e.op, ast.Or)
                return stop if stop in vs else (not stop) if all(v is (not stop) for v in vs) else None
            return None

        raising = []
        for n in walk_own(f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.Assert, ast.While)) and any(is_it(x) for x in ast.walk(n.test)):
                if not (isinstance(n, ast.If) and isinstance(n.body[-1], ast.Raise)):
                    return True
                raising.append(ev(n.test))
        return not raising or any(v in (True, "any") for v in raising)

    def one_left(self, f, e):
        """K & x with a constant K all but one of whose members were excluded by a test."""
        if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitAnd)):
            return False
        par = self.parents(f)
        for k in (e.left, e.right):
            q = self.p.resolve(f.module, f, k) or ""
            m, _, v = q.rpartition(".")
            mod = self.p.modules.get(m)
            lit = next(iter(mod.variables.get(v, [])), None) if mod else k
            if isinstance(lit, ast.Call) and len(lit.args) == 1:
                lit = lit.args[0]
            if not isinstance(lit, (ast.Set, ast.Tuple, ast.List)) or not all(isinstance(x, ast.Constant) for x in lit.elts):
                continue
            left = {x.value for x in lit.elts}
            n, p = e, par.get(id(e))
            while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
                if isinstance(p, (ast.If, ast.IfExp)) and isinstance(p.test, ast.Compare) and isinstance(p.test.left, ast.Constant):
                    other = p.orelse if isinstance(p.orelse, list) else [p.orelse]
                    body = p.body if isinstance(p.body, list) else [p.body]
                    if isinstance(p.test.ops[0], ast.In) and any(n is x for x in other) or isinstance(p.test.ops[0], ast.NotIn) and any(n is x for x in body):
                        left.discard(p.test.left.value)
                n, p = p, par.get(id(p))
            if len(left) <= 1:
                return True
        return False

    def model_keys(self, f, e, depth=4):
        """Field names of a model: dictionaries keyed by them are put in declared order by the model."""
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ("model_fields", "__fields__", "__annotations__"):
                return True
            if isinstance(n, ast.Name) and depth:
                for s, src, how in defs_of(f).reaching(n.id, n):
                    if how == "=" and src is not None and self.model_keys(f, src, depth - 1):
                        return True
                q = self.p.resolve(f.module, f, n) or ""
                m, _, v = q.rpartition(".")
                mod = self.p.modules.get(m)
                if mod and any("model_fields" in ast.unparse(x) for x in mod.variables.get(v, [])):
                    return True
        return False

    def name_uses(self, f, name, stmt, after_only=None):
        """Loads of a name which the definition `stmt` may reach, closures included."""
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                if stmt is None or any(s is stmt for s, _, _ in defs_of(f).reaching(name, n)):
                    yield f, n
        for g in f.children.values():
            if name not in g.all_params and name not in self.p.local_names(g):
                for n in walk_own(g.node):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                        yield g, n

    def track(self, f, e, kind, src, depth=10):
        key = (id(e), kind, id(src[1]))
        if key in self.seen or depth <= 0:
            return
        self.seen.add(key)
        if kind == "dict" and self.model_keys(*src):
            return
        par = self.parents(f)
        p = par.get(id(e))
        if p is None:
            return
        T = lambda n, k=kind: self.track(f, n, k, src, depth)
        if isinstance(p, ast.keyword):
            call = par.get(id(p))
            return self.argument(f, call, p, e, kind, src, depth) if isinstance(call, ast.Call) else None
        if isinstance(p, ast.Call):
            if p.func is e:
                return None
            return self.argument(f, p, None, e, kind, src, depth)
        if isinstance(p, ast.Starred):
            q = par.get(id(p))
            if isinstance(q, ast.Call):
                fn = (dotted(q.func) or [getattr(q.func, "attr", "")])[-1]
                if fn in CONSUME:
                    return None
                g = self.x.callees(f, q)
                if g is not None and g.node.args.vararg is not None:
                    return self.param(g, g.node.args.vararg.arg, "seq", src, depth - 1)
                if fn in ORDERED or g is not None:
                    return self.report(f, q, "arguments are passed", src)
                return None
            return T(q, "seq") if isinstance(q, (ast.List, ast.Tuple)) else None
        if isinstance(p, ast.NamedExpr):
            if p.value is e:
                self.bound(f, p.target.id, p, kind, src, depth)
                # the defining statement is the enclosing one
                s = p
                while s is not None and not isinstance(s, ast.stmt):
                    s = par.get(id(s))
                self.bound(f, p.target.id, s, kind, src, depth)
                return T(p)
            return None
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
                if isinstance(t, ast.Name):
                    self.bound(f, t.id, p, kind, src, depth)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(kind, tuple) and kind[1] < len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        u = t.elts[kind[1]]
                        if isinstance(u, ast.Name):
                            self.bound(f, u.id, p, kind[2], src, depth)
                    elif len(t.elts) > 1 and p.value is e and kind in ("set", "seq"):
                        self.report(f, p, "values are unpacked", src)
                elif isinstance(t, ast.Attribute) and kind != "set":
                    self.report(f, p, f"`{ast.unparse(t)}` is stored", src)
                elif isinstance(t, ast.Subscript) and kind != "set":
                    if isinstance(t.value, ast.Name):
                        self.uses(f, t.value.id, p, "box", src, depth)
                    else:
                        self.report(f, p, f"`{ast.unparse(t)}` is stored", src)
            return None
        if isinstance(p, ast.AugAssign):
            if kind != "set" and isinstance(p.target, ast.Name) and isinstance(p.op, (ast.Add, ast.BitOr)):
                self.bound(f, p.target.id, p, kind, src, depth)
            return None
        if isinstance(p, ast.BinOp):
            return T(p) if kind != "set" else None     # set operations are followed on their own
        if isinstance(p, (ast.BoolOp, ast.IfExp)):
            return T(p) if not (isinstance(p, ast.IfExp) and p.test is e) else None
        if isinstance(p, ast.Compare):
            if kind == "seq" and any(isinstance(o, (ast.Eq, ast.NotEq)) for o in p.ops) and not self._sets_only(f, p):
                self.report(f, p, "sequences are compared", src)
            return None
        if isinstance(p, ast.Attribute):
            q = par.get(id(p))
            if not (isinstance(q, ast.Call) and q.func is p):
                return None
            m = p.attr
            if kind == "set":
                if m == "pop" and not q.args and not self.singleton(f, e) and not self.integers(f, e):
                    self.report(f, q, "one element is picked", src)
                return None
            if m in ("items", "keys", "values"):
                return T(q, "seq")
            if m == "copy" or kind == "dict" and m in FRAME_METHODS:
                return T(q)
            if m == "pop" and kind == "seq" and len(q.args) <= 1:
                self.report(f, q, "one element is picked", src)
            if m == "popitem":
                self.report(f, q, "one element is picked", src)
            return None
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is e:
            return self.loop(f, p, src, depth)
        if isinstance(p, ast.comprehension) and p.iter is e:
            c = par.get(id(p))
            if isinstance(c, (ast.ListComp, ast.GeneratorExp)):
                if isinstance(c.elt, ast.Constant):
                    return None
                return T(c, "seq")
            if isinstance(c, ast.DictComp):
                return T(c, "dict")
            return None
        if isinstance(p, (ast.Return, ast.Yield, ast.YieldFrom)):
            if kind == "set":
                return None      # handled where the function is called
            return self.returned(f, p, kind, src, depth)
        if isinstance(p, ast.Subscript):
            if p.value is e and isinstance(kind, tuple):
                return T(p, kind[2]) if isinstance(p.slice, ast.Constant) and p.slice.value == kind[1] else None
            if p.value is e and kind == "seq" and isinstance(p.ctx, ast.Load):
                if isinstance(p.slice, ast.Slice):
                    return T(p)
                if not (self._len1(f, src)):
                    self.report(f, p, "one element is picked", src)
            elif p.slice is e and kind == "seq" and isinstance(p.ctx, ast.Load):
                return T(p)
            return None
        if isinstance(p, ast.Tuple) and kind != "set" and not any(isinstance(x, ast.Starred) for x in p.elts):
            return T(p, ("item", next(i for i, x in enumerate(p.elts) if x is e), kind))
        if isinstance(p, (ast.List, ast.Tuple)) and kind != "set":
            return T(p, "box")
        if isinstance(p, ast.Dict) and kind != "set":
            if any(k is None and v is e for k, v in zip(p.keys, p.values)):
                return T(p, "dict")
            return T(p, "box")
        if isinstance(p, ast.Await):
            return T(p)
        if isinstance(p, ast.Lambda) and kind != "set":
            return None
        return None

    def _len1(self, f, src):
        return self.singleton(src[0], src[1])

    def _sets_only(self, f, p):
        return any(self.is_set(f, x) for x in [p.left] + p.comparators)

    def bound(self, f, name, stmt, kind, src, depth):
        cut = [n.lineno for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == name]
        for g, n in self.name_uses(f, name, stmt):
            if g is f and kind == "seq" and any(c < n.lineno for c in cut):
                continue        # sorted in place
            self.track(g, n, kind, src, depth)

    def uses(self, f, name, stmt, kind, src, depth):
        """Uses of a container filled in a loop: loads outside the statement."""
        inside = {id(x) for x in ast.walk(stmt)} if stmt is not None else set()
        line = getattr(stmt, "lineno", 0)
        for g, n in self.name_uses(f, name, None):
            if id(n) not in inside and (g is not f or n.lineno >= line):
                self.track(g, n, kind, src, depth)

    def argument(self, f, call, kw, e, kind, src, depth):
        fn = (dotted(call.func) or [getattr(call.func, "attr", "")])[-1]
        g = self.x.callees(f, call)
        target = call.func
        if g is None and isinstance(target, ast.Attribute) and target.attr == "func":
            target = target.value
            g = self.p.functions.get(self.p.resolve(f.module, f, target) or "")
        if fn == "next":
            if kind != "set" and not self.singleton(src[0], src[1]) and not self.singleton(f, src[1]):
                self.report(f, call, "one element is picked", src)
            return None
        if fn == "iter" and kind == "set":
            return self.track(f, call, "seq", src, depth)
        if g is None and not self.makes_instance(f, call) and kw is not None and kw.arg is None and kind == "dict" and isinstance(target, ast.Attribute):
            for c in OWNERS:
                m = self.p.functions.get(self.p.canonical(self.p.class_member(self.p.package + c, target.attr) or "") or "") if self.p.package + c in self.p.classes else None
                if m is not None and m.node.args.kwarg is not None:
                    self.param(m, m.node.args.kwarg.arg, "dict", src, depth - 1)
            return None
        if g is None and kw is not None and kw.arg is None and kind == "dict" and self.makes_instance(f, call):
            return self.track(f, call, "box", src, depth)
        if g is not None:
            if kw is not None and kw.arg is None:
                if kind == "dict" and g.node.args.kwarg is not None:
                    return self.param(g, g.node.args.kwarg.arg, "dict", src, depth - 1)
                return None
            ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
            if g.cls is not None and ps[:1] in (["self"], ["cls"]) and isinstance(call.func, ast.Attribute):
                ps = ps[1:]
            name = kw.arg if kw is not None else next((ps[i] if i < len(ps) else (g.node.args.vararg.arg if g.node.args.vararg else None) for i, a in enumerate(call.args) if a is e), None)
            if name is None:
                return None
            if name not in ps and name not in [a.arg for a in g.node.args.kwonlyargs]:
                return None
            return self.param(g, name, kind, src, depth - 1)
        if fn in CONSUME:
            return None
        if fn in ("append", "add", "insert", "setdefault"):
            if kind == "set" or fn == "add":
                return None
            r = call.func.value if isinstance(call.func, ast.Attribute) else None
            if isinstance(r, ast.Name):
                self.uses(f, r.id, call, "box", src, depth)
            return None
        if fn in ("extend", "update"):
            r = call.func.value if isinstance(call.func, ast.Attribute) else None
            if r is not None and self.is_set(f, r):
                return None
            k = "seq" if fn == "extend" else "dict"
            if kind == "set" and fn == "update":
                return None
            if isinstance(r, ast.Name):
                self.uses(f, r.id, call, k, src, depth)
                for o in self.owners(f, r.id, r) if k == "dict" else ():
                    self.uses(f, o, call, k, src, depth)
            elif r is not None and isinstance(r, ast.Attribute):
                self.report(f, call, f"`{ast.unparse(r)}` is extended", src)
            return None
        if fn == "concat" and kind in ("box", "dict") or fn == "DataFrame" and kind == "dict":
            return self.track(f, call, "dict", src, depth)       # its columns
        if fn in ORDERED:
            if fn == "DataFrame" and kind == "set":
                return self.track(f, call, "seq", src, depth)
            if fn == "partial" or fn in ("items", "keys", "values") and not (call.func is not None):
                return None
            return self.track(f, call, "dict" if fn in ("dict", "fromkeys", "OrderedDict", "FrozenDict", "MappingProxyType") else "seq", src, depth)
        if self.makes_instance(f, call) and kind in ("seq", "dict", "box"):
            return self.track(f, call, "box", src, depth)
        return None

    def makes_instance(self, f, call):
        c = call.func
        if isinstance(c, ast.Attribute) and c.attr == "__class__" or isinstance(c, ast.Call) and getattr(c.func, "id", "") == "type" and len(c.args) == 1:
            return True
        if isinstance(c, ast.Name) and c.id == "cls" and f.cls is not None and f.params[:1] == ["cls"]:
            return True
        return self.p.resolve(f.module, f, c) in self.p.classes

    def param(self, g, name, kind, src, depth):
        if depth <= 0 or isinstance(g.node, ast.Lambda):
            return
        for n in walk_own(g.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                ds = defs_of(g).reaching(name, n)
                if not ds or any(s is None or src_ is None for s, src_, _ in ds):
                    self.track(g, n, kind, src, depth)
        for h in g.children.values():
            if name not in h.all_params and name not in self.p.local_names(h):
                for n in walk_own(h.node):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                        self.track(h, n, kind, src, depth)

    def returned(self, f, p, kind, src, depth):
        if f.parent is not None or f.name.startswith("_") and not f.name.startswith("__"):
            cs = self.callers(f.qual)
            if cs:
                for g, c in cs:
                    self.track(g, c, kind, src, depth - 1)
                return
            if f.parent is not None and not any(isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load) for n in ast.walk(f.parent.node)):
                return
        if kind in ("seq", "dict", "box") or isinstance(kind, tuple):
            self.report(f, p, "the result is ordered", src)

    def loop(self, f, loop, src, depth):
        """Effects of a loop over a set which depend on the order of its iterations."""
        tgt = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        dep = set(tgt)
        inside = {id(n) for b in loop.body for n in ast.walk(b)}
        changed = True
        while changed:
            changed = False
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in dep for x in ast.walk(n.value)):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in dep:
                                    dep.add(x.id)
                                    changed = True
        uses_dep = lambda e: e is not None and any(isinstance(x, ast.Name) and x.id in dep for x in ast.walk(e))
        for b in loop.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)) and uses_dep(n.value):
                    self.returned(f, n, "seq", src, depth)
                elif isinstance(n, ast.Return) and uses_dep(n.value):
                    self.report(f, n, "the first match is returned", src)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "appendleft") and isinstance(n.func.value, ast.Name):
                    nm = n.func.value.id
                    if not self._defined_in(f, nm, loop, inside):
                        self.uses(f, nm, loop, "seq", src, depth)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Attribute):
                    self.report(f, n, f"`{ast.unparse(n.func.value)}` is extended", src)
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and uses_dep(t.slice):
                            nm = t.value.id
                            if not self._defined_in(f, nm, loop, inside) and not self._existing(f, loop, nm, src) and not self._array(f, nm):
                                self.uses(f, nm, loop, "dict", src, depth)
                                for o in self.owners(f, nm, t.value):
                                    self.uses(f, o, loop, "dict", src, depth)
                        elif isinstance(t, ast.Name) and isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and t.id not in tgt and any(
                                isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)) and uses_dep(n.value) and self._carried(f, t.id, loop, inside):
                            self.uses(f, t.id, loop, "seq", src, depth)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("setdefault", "update") and isinstance(n.func.value, ast.Name) and (n.args and uses_dep(n.args[0])):
                    nm = n.func.value.id
                    if not self._defined_in(f, nm, loop, inside) and not self.is_set(f, n.func.value):
                        self.uses(f, nm, loop, "dict", src, depth)

    @staticmethod
    def owners(f, name, node):
        """Locals which hold the container the name was taken from."""
        out = set()
        for _, v, how in defs_of(f).reaching(name, node):
            e = v if how == "=" else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault"):
                e = e.func.value
            elif isinstance(e, ast.Subscript):
                e = e.value
            else:
                continue
            if isinstance(e, ast.Name):
                out.add(e.id)
        return out

    def _defined_in(self, f, name, loop, inside):
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) in inside:
                st = n
                return not self._carried(f, name, loop, inside)
        return False

    @staticmethod
    def _carried(f, name, loop, inside):
        """Is the name defined before the loop as well?"""
        return name in f.all_params or any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) not in inside for n in walk_own(f.node))

    def _existing(self, f, loop, name, src):
        """Keys looped over are keys the mapping already has."""
        exprs, todo = [], [loop.iter, src[1]]
        while todo:
            e = todo.pop()
            exprs.append(e)
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and len(exprs) < 12:
                    for s, v, how in defs_of(f).reaching(n.id, n):
                        if how == "=" and v is not None and v not in exprs:
                            todo.append(v)
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd) and any(isinstance(x, ast.Name) and x.id == name for s in (n.left, n.right) for x in ast.walk(s)):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "intersection" and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                    return True
        # the entry is read before it is replaced
        stored = {ast.unparse(t.slice) for n in ast.walk(loop) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name}
        read = {ast.unparse(n.slice) for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name}
        if stored and stored <= read and not any(isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] in ("defaultdict", "Counter") for n in walk_own(f.node)):
            return True
        for t in [n.test for n in ast.walk(loop) if isinstance(n, (ast.If, ast.IfExp))] + [i for n in ast.walk(loop) if isinstance(n, ast.comprehension) for i in n.ifs]:
            for n in ast.walk(t):
                if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == name:
                    return True
        return False

    def _array(self, f, name):
        """Lists and arrays indexed by position."""
        for s, src, how in [d for n in walk_own(f.node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for d in defs_of(f).reaching(name, n)]:
            if how == "=" and isinstance(src, (ast.List, ast.ListComp)) or isinstance(src, ast.BinOp) and isinstance(src.left, ast.List):
                return True
            if isinstance(src, ast.Call) and ((self.p.external(self.p.resolve(f.module, f, src.func)) or "").startswith("numpy.") or getattr(src.func, "id", "") == "list"):
                return True
        return False


def only_hash(o, f, depth=3):
    """The function implements __hash__, or is called from nothing else."""
    if f.name == "__hash__":
        return True
    cs = o.callers(f.qual)
    return bool(depth and cs) and all(only_hash(o, g, depth - 1) for g, c in cs)


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every expression that evaluates to a set (displays, comprehensions, set(), set operators, set-valued attributes, constants, parameters and results of package functions) is followed forward: turning it into a sequence, "
             "iterating it or picking an element is reported when the resulting order reaches a returned or stored value without passing a sort or an order-free consumer; builtin hash() is used only to implement __hash__")
    o = Order(ctx, prog)
    for f in list(prog.functions.values()):
        own = list(walk_own(f.node)) if not isinstance(f.node, ast.Lambda) else list(ast.walk(f.node.body))
        par = o.parents(f)
        for n in own:
            if not isinstance(n, ast.expr) or isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hash" and not (prog.resolve(f.module, f, n.func) or "").startswith(prog.package):
                ctx.count("hash_calls")
                if not only_hash(o, f):
                    ctx.violation(f"hash:{f.qual}", f"{f.where(n)}: `{ast.unparse(n)}` differs between processes (string hashes are salted)")
                continue
            origin = isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and o.is_set(f, n) or isinstance(n, ast.BinOp) and isinstance(n.op, SETOPS) and o.is_set(f, n)
            if isinstance(n, (ast.Name, ast.Attribute)) and not isinstance(par.get(id(n)), ast.Attribute):
                # constants, attributes and parameters
                if isinstance(n, ast.Name) and defs_of(f).reaching(n.id, n) and any(s is not None for s, _, _ in defs_of(f).reaching(n.id, n)):
                    pass
                elif o.is_set(f, n):
                    origin = True
            elif isinstance(n, ast.Attribute) and isinstance(par.get(id(n)), ast.Attribute) and o.is_set(f, n):
                origin = True
            if not origin:
                continue
            up = par.get(id(n))
            if isinstance(up, ast.BinOp) and isinstance(up.op, SETOPS) and o.is_set(f, up):
                continue        # an operand: followed as part of the whole
            ctx.count("set_expressions")
            if o.integers(f, n):
                ctx.count("integer_sets")
                continue
            o.track(f, n, "set", (f, n))
    # module-level
    for m in prog.modules.values():
        for name, vs in m.variables.items():
            for v in vs:
                for c in ast.walk(v):
                    if isinstance(c, ast.Call) and getattr(c.func, "id", "") in ("list", "tuple", "dict") and c.args and Order.const_set(m, c.args[0]) and not o.integers(next(iter(prog.functions.values())), c.args[0]):
                        ctx.violation(f"order:{m.name}:{name}", f"{m.relpath}:{c.lineno}: `{name}` is ordered by the iteration of a set")
    ctx.require("set_expressions", 60)
