"""C18: spools derived from a spool are independent and never stale."""
from __future__ import annotations

import ast

from ..contrib import Env, Explorer
from ..flow import Flow, defs_of
from ..model import dotted, walk_own
from .c01 import analyse

BASE = "dascore.core.spool.BaseSpool"
DESCRIPTOR = "CacheDescriptor"
CACHED = {"cached_property", "cached_method", "cache", "lru_cache"}
# calls which restrict the rows of a table (or trim the ranges in them)
TRIMS = {"adjust_segments", "clip"}
NARROW = TRIMS | {"filter_df", "query", "dropna", "drop_duplicates", "head", "tail", "sample", "take", "where", "truncate", "nlargest", "nsmallest"}
ROWS = {"iloc", "loc"}
CONTENT_METHODS = ("__len__", "__getitem__", "__iter__", "get_contents")


def name_of(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")


def const(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def argument(f, call, g, name):
    """Expression bound to a parameter of g."""
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if g.cls is not None and names and isinstance(call.func, ast.Attribute):
        names = names[1:]
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if name in names:
        i = names.index(name)
        if i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
            return call.args[i]
    return None


class Spools:
    def __init__(self, prog):
        self.p = prog
        self.classes = [c for q, c in sorted(prog.classes.items()) if prog.is_subclass(q, BASE)]
        self.tables, self.getters, self.caches = set(), set(), set()
        for c in self.classes:
            for s in c.node.body:
                v = getattr(s, "value", None)
                if isinstance(v, ast.Call) and (dotted(v.func) or [""])[-1] == DESCRIPTOR:
                    t = s.target if isinstance(s, ast.AnnAssign) else s.targets[0]
                    self.tables.add(t.id)
                    args = [const(a) for a in v.args] + [const(k.value) for k in v.keywords]
                    self.caches.add(args[0])
                    self.getters.add(args[1])
        self.methods = [m for c in self.classes for m in c.methods.values()]
        self.x = Explorer(prog)
        self.options = self.find_options()
        self.makers = [m for m in self.methods if m.name not in self.getters and m.name != "__init__" and self.table_stores(m)]

    # ---- state of a spool
    def find_options(self):
        """{attribute: parameter} kept by the constructor of the class which owns the tables."""
        out = {}
        for c in self.classes:
            init = c.methods.get("__init__")
            if init is None or not any(isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(getattr(s, "value", None), ast.Call) and (dotted(s.value.func) or [""])[-1] == DESCRIPTOR for s in c.node.body):
                continue
            for a, v, _ in self.self_stores(init):
                ps = self.params_in(init, v)
                if len(ps) == 1 and a not in self.caches:
                    out[a] = ps.pop()
        return out

    def self_stores(self, m, base=None):
        """[(attribute, value, statement)] stored on self (or another name)."""
        base = base or (m.params[0] if m.params else "self")
        out = []
        for n in walk_own(m.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None else []
            for t in ts:
                if isinstance(t, ast.Tuple):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == base:
                            v = n.value.elts[i] if isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(t.elts) else n.value
                            out.append((e.attr, v, n))
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == base:
                    out.append((t.attr, n.value, n))
        return out

    def params_in(self, f, e):
        out = set()
        for g, n, env, chain in self.x.explore(f, e, Env()):
            if isinstance(n, ast.Name) and g is f and n.id in f.all_params and n.id != (f.params[0] if f.params else ""):
                out.add(n.id)
        return out

    def table_stores(self, m):
        """Names (other than self) which get tables assigned."""
        out = {}
        me = m.params[0] if m.params else None
        for n in walk_own(m.node):
            for t in n.targets if isinstance(n, ast.Assign) else []:
                for e in t.elts if isinstance(t, ast.Tuple) else [t]:
                    if isinstance(e, ast.Attribute) and e.attr in self.tables and isinstance(e.value, ast.Name) and e.value.id != me:
                        out.setdefault(e.value.id, []).append(e.attr)
        return out

    def reads(self, f, e, attrs):
        """Attributes of self (named in attrs) which contribute to an expression."""
        me = f.params[0] if f.params else "self"
        out = set()
        for g, n, env, chain in self.x.explore(f, e, Env()):
            if isinstance(n, ast.Attribute) and n.attr in attrs and isinstance(n.value, ast.Name) and n.value.id in (me, "self"):
                out.add(n.attr)
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "getattr" and len(n.args) > 1 and const(n.args[1]) in attrs:
                out.add(const(n.args[1]))
        return out

    # ---- the chain of steps a table went through
    def chain(self, f, e, depth=12):
        """[(steps, end expression)] of the receiver/first-argument chains of a table expression."""
        if depth == 0 or e is None:
            return [((), e)]
        if isinstance(e, ast.Name):
            ds = [d for d in defs_of(f).reaching(e.id, e) if d[1] is not None]
            out = []
            for s, src, how in ds:
                if how == "=":
                    out += self.chain(f, src, depth - 1)
                else:
                    out.append(((("item", how),), src))
            return out or [((), e)]
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Attribute) and v.attr in ROWS:
                return [(s + (("rows", e),), x) for s, x in self.chain(f, v.value, depth - 1)]
            col = const(e.slice) is not None or isinstance(e.slice, ast.List) and all(const(x) for x in e.slice.elts)
            return [(s + (() if col else (("rows", e),)), x) for s, x in self.chain(f, v, depth - 1)]
        if isinstance(e, ast.IfExp):
            return self.chain(f, e.body, depth - 1) + self.chain(f, e.orelse, depth - 1)
        if isinstance(e, ast.NamedExpr):
            return self.chain(f, e.value, depth - 1)
        if isinstance(e, ast.Call):
            nm = name_of(e)
            g = self.x.callees(f, e)
            if nm in NARROW:
                src = e.args[0] if e.args and not (isinstance(e.func, ast.Attribute) and g is None) else e.func.value if isinstance(e.func, ast.Attribute) else None
                for k in e.keywords:
                    if k.arg in ("df",):
                        src = k.value
                return [(s + ((nm, e),), x) for s, x in self.chain(f, src, depth - 1)]
            if isinstance(e.func, ast.Attribute) and g is None:
                return [(s + ((nm, e),), x) for s, x in self.chain(f, e.func.value, depth - 1)]
        return [((), e)]

    def origin(self, f, e):
        """Nodes an expression is defined by (names followed)."""
        out, todo, seen = [], [e], set()
        while todo:
            x = todo.pop()
            if x is None or id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, ast.Name):
                ds = [d for d in defs_of(f).reaching(x.id, x) if d[1] is not None]
                if ds:
                    todo += [d[1] for d in ds]
                    continue
                if x.id in f.all_params:
                    out.append(("param", x.id))
                    continue
            if isinstance(x, ast.IfExp):
                todo += [x.body, x.orelse]
                continue
            out.append(x)
        return out

    def depends(self, f, e, nodes):
        ids = {id(n) for n in nodes if not isinstance(n, tuple)}
        names = {n[1] for n in nodes if isinstance(n, tuple)}
        for g, n, env, chain in self.x.explore(f, e, Env()):
            if id(n) in ids or g is f and isinstance(n, ast.Name) and n.id in names:
                return True
        return False


# ---------------------------------------------------------------- rules
def own_state(ctx, sp):
    """Methods do not change the spool they are called on."""
    quals = {c.qual for c in sp.classes}
    found, n, it = analyse(ctx.prog, only=lambda f: f.cls is not None and f.cls.qual in quals)
    ctx.count("spool_methods", n)
    for k, v in found.items():
        if ":self" in k.rsplit(":", 1)[-1] or k.rsplit(":", 1)[-1].split(".")[0].split("[")[0] in ("self", "~self"):
            ctx.violation(k, v)


def tables_of_self(ctx, sp):
    """Tables of self are assigned by constructors and lazily by their own getters only."""
    for m in sp.methods:
        if m.name == "__init__" or m.name in sp.getters:
            continue
        for a, v, s in sp.self_stores(m):
            if a in sp.tables or a in sp.options or a in sp.caches:
                ctx.violation(f"own-state:{m.cls.name}.{m.name}:{a}", f"{m.where(s)} replaces {a} of the spool it was called on")


def private_caches(ctx, sp):
    for c in sp.classes:
        init = c.methods.get("__init__")
        for s in c.node.body:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
            if isinstance(t, ast.Name) and t.id in sp.caches | set(sp.options) and isinstance(s.value, (ast.Dict, ast.List)):
                ctx.violation(f"shared:{c.name}:{t.id}", f"{c.module.relpath}:{s.lineno} {c.name}.{t.id} is one mutable object shared by all spools")
        if init is None:
            continue
        for a, v, s in sp.self_stores(init):
            if a in sp.caches:
                ctx.count("cache_creations")
                fresh = all(isinstance(o, ast.Dict) or isinstance(o, ast.Call) and name_of(o) in ("dict", "deepcopy", "copy", "defaultdict", "OrderedDict") for o in sp.origin(init, v))
                if not fresh:
                    ctx.violation(f"shared:{c.name}:{a}", f"{init.where(s)} the cache of a new spool is not a fresh dictionary but `{ast.unparse(v)}`")


def copies(sp):
    """[(method, node, deep)] where the whole state of a spool is copied to another one."""
    out = []
    for m in sp.methods:
        for n in walk_own(m.node):
            if isinstance(n, ast.Call):
                f = n.func
                src = None
                if isinstance(f, ast.Attribute) and f.attr == "update" and isinstance(f.value, ast.Attribute) and f.value.attr == "__dict__" and n.args:
                    src = n.args[0]
                elif isinstance(f, ast.Attribute) and f.attr == "update" and isinstance(f.value, ast.Call) and name_of(f.value) == "vars" and n.args:
                    src = n.args[0]
                elif name_of(n) in ("copy", "deepcopy", "replace") and n.args and (dotted(n.func) or [""])[0] in ("copy", "deepcopy") and isinstance(n.args[0], ast.Name) and n.args[0].id == (m.params or [""])[0]:
                    out.append((m, n, name_of(n) == "deepcopy"))
                    continue
                if src is not None:
                    out.append((m, n, is_deep(sp, m, src)))
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "__dict__" for t in n.targets):
                out.append((m, n, is_deep(sp, m, n.value)))
            elif isinstance(n, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, ast.Call) and name_of(x) == "vars" for x in ast.walk(n.iter)):
                sets = [x for x in ast.walk(n) if isinstance(x, ast.Call) and name_of(x) == "setattr" and len(x.args) == 3]
                for x in sets:
                    out.append((m, x, is_deep(sp, m, x.args[2]) or is_deep(sp, m, n.iter)))
    return out


def is_deep(sp, m, e):
    return any(isinstance(n, ast.Call) and name_of(n) == "deepcopy" for g, n, env, chain in sp.x.explore(m, e, Env()))


def whole_copies(ctx, sp):
    cs = copies(sp)
    for m, n, deep in cs:
        ctx.count("state_copies")
        if deep:
            continue
        own = {a for a, v, s in sp.self_stores(m) if a in sp.caches and s.lineno > n.lineno}
        if not sp.caches <= own:
            ctx.violation(f"shared-state:{m.cls.name}.{m.name}", f"{m.where(n)} shares the caches of the spool it copies: filling in the tables of the new spool changes the old one")
    # values bound to their owner must not travel with a copy of the state
    mro = {q for c in sp.classes for q in ctx.prog.mro(c.qual)}
    for q in sorted(mro):
        c = ctx.prog.classes.get(q)
        for m in (c.methods.values() if c else ()):
            me = m.params[0] if m.params else None
            if me is None or m.name in ("__init__", "__new__"):
                continue
            for n in walk_own(m.node):
                v = None
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__" and isinstance(t.value.value, ast.Name) and t.value.value.id == me for t in n.targets):
                    v = n.value
                elif isinstance(n, ast.Assign) and c in sp.classes and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me for t in n.targets):
                    v = n.value
                elif isinstance(n, ast.Call) and name_of(n) in ("setattr", "setdefault", "__setattr__") and n.args:
                    if name_of(n) == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        v = n.args[2]
                    elif name_of(n) == "setdefault" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__" and len(n.args) == 2:
                        v = n.args[1]
                    elif name_of(n) == "__setattr__" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        v = n.args[2]
                if v is None and isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and of_state(sp, m, t.value, me) for t in n.targets):
                    v = n.value
                if v is None or identity_checked(m, me):
                    continue
                if any(isinstance(o, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in list(o.args) + [k.value for k in o.keywords]) or isinstance(o, ast.Name) and o.id == me for o in sp.origin(m, v)):
                    for w, node, deep in cs[:1]:
                        ctx.violation(f"bound-state:{m.cls.name}.{m.name}", f"{m.where(n)} keeps an object bound to this spool among its state, which {w.where(node)} copies to derived spools: they go on using the old spool")


def of_state(sp, m, name, me):
    """Does a local mapping live in the state of the object?"""
    return any(isinstance(y, ast.Attribute) and y.attr == "__dict__" and isinstance(y.value, ast.Name) and y.value.id == me for o in sp.origin(m, name) for y in ast.walk(o))


def identity_checked(m, me):
    """Before it is used, the kept object's owner is compared with this object."""
    return any(isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and
               any(isinstance(y, ast.Name) and y.id == me for y in (n.left, n.comparators[0])) and
               any(isinstance(y, (ast.Attribute, ast.Subscript)) for y in (n.left, n.comparators[0])) for n in walk_own(m.node))


class MakerFlow(Flow):
    def __init__(self, sp, m, obj, keys):
        self.sp, self.m, self.obj, self.keys = sp, m, obj, keys
        self.values = {}
        for n in walk_own(m.node):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []:
                if isinstance(t, ast.Tuple):
                    vs = n.value.elts if isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(t.elts) else [n.value] * len(t.elts)
                    self.values.update({id(e): v for e, v in zip(t.elts, vs)})
                else:
                    self.values[id(t)] = n.value
        super().__init__(m, self.g)

    def g(self, n):
        out = set()
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == self.obj:
            out.add(("set", n.attr))
            v = self.values.get(id(n))
            if n.attr in self.sp.options and v is not None and self.sp.reads(self.m, v, {n.attr}):
                out.add(("carried", n.attr))
            if n.attr in self.sp.caches:
                out |= {("dropped", k) for k in self.keys}
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and self.cache(t.value):
                    out |= self.gone(t.slice)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self.cache(n.func.value):
            if n.func.attr == "pop" and n.args:
                out |= self.gone(n.args[0])
            elif n.func.attr == "clear":
                out |= {("dropped", k) for k in self.keys}
        if isinstance(n, ast.Call) and name_of(n) == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == self.obj and const(n.args[1]):
            out.add(("set", const(n.args[1])))
            if self.sp.reads(self.m, n.args[2], {const(n.args[1])}):
                out.add(("carried", const(n.args[1])))
        return out

    def gone(self, k):
        vals = {const(o) if not isinstance(o, tuple) else None for o in self.sp.origin(self.m, k)}
        return {("dropped", v) for v in vals if v}

    def cache(self, e):
        for o in self.sp.origin(self.m, e):
            if isinstance(o, ast.Attribute) and o.attr in self.sp.caches and isinstance(o.value, ast.Name) and o.value.id == self.obj:
                return True
        return False


def volatile(ctx, sp):
    """Cache keys (and attributes) derived from the tables outside their getters."""
    keys, attrs = {}, {}
    for m in sp.methods:
        if m.name == "__init__":
            continue
        me = m.params[0] if m.params else "self"
        if any((dotted(d) or [""])[-1] in CACHED for d in m.decorators()):
            attrs[m.name] = (m, m.node)
        for n in walk_own(m.node):
            k = None
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and own_cache(sp, m, t.value, me):
                        k = t.slice
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("setdefault", "__setitem__") and n.args and own_cache(sp, m, n.func.value, me):
                k = n.args[0]
            if k is not None:
                vals = {const(o) if not isinstance(o, tuple) else None for o in sp.origin(m, k)}
                for v in vals - sp.tables:
                    keys[v or ast.unparse(k)] = (m, n)
        if m.name not in sp.getters:
            for a, v, s in sp.self_stores(m):
                if a not in sp.tables | sp.caches | set(sp.options):
                    attrs[a] = (m, s)
    return keys, attrs


def own_cache(sp, m, e, me):
    for o in sp.origin(m, e):
        if isinstance(o, ast.Attribute) and o.attr in sp.caches and isinstance(o.value, ast.Name) and o.value.id == me:
            return True
    return False


def makers(ctx, sp):
    """Procedures which put new tables into a new spool."""
    keys, attrs = volatile(ctx, sp)
    ctx.count("derived_cache_keys", len(keys) + len(attrs))
    for a, (m, n) in sorted(attrs.items()):
        ctx.violation(f"memo:{m.cls.name}.{a}", f"{m.where(n)} {m.qual} memoises contents of the spool on the instance, where derived spools inherit it")
    for m in sp.makers:
        for obj, ts in sorted(sp.table_stores(m).items()):
            ctx.count("table_makers")
            flow = MakerFlow(sp, m, obj, keys)
            facts = flow.at_exit() or set()
            for t in sorted(sp.tables):
                if ("set", t) not in facts:
                    ctx.violation(f"kept-table:{m.name}:{t}", f"{m.where()} does not replace {t} of the new spool on every path: it keeps the one of the spool it came from")
            for k, (w, n) in sorted(keys.items()):
                if ("dropped", k) not in facts:
                    ctx.violation(f"stale:{m.name}:{k}", f"{m.where()} replaces tables but not `{k}`, which {w.where(n)} computes from them: derived spools serve contents of the old spool")
            for o, par in sorted(sp.options.items()):
                if ("carried", o) not in facts:
                    ctx.violation(f"not-carried:{m.name}:{o}", f"{m.where()} does not give the {o} of the spool to the derived one on every path")
                elif par in m.all_params:
                    if not any(par in sp.params_in(m, v) for v in written(m, obj, o)):
                        ctx.violation(f"not-added:{m.name}:{o}", f"{m.where()} ignores its parameter {par}")
                    over = overriding(sp, m, obj, o, par)
                    if over is not None and "select" in o:
                        ctx.violation(f"override:{o}", f"{m.where(over)}: a later selection replaces an earlier one of the same name instead of narrowing it")


def written(m, obj, attr):
    out = []
    for n in walk_own(m.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == obj:
                    out.append(n.value)
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == attr and isinstance(t.value.value, ast.Name) and t.value.value.id == obj:
                    out.append(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr and isinstance(n.target.value, ast.Name) and n.target.value.id == obj:
            out.append(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault", "__setitem__", "__ior__") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr \
                and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == obj:
            out += list(n.args) + [k.value for k in n.keywords]
        elif isinstance(n, ast.Call) and name_of(n) == "setattr" and len(n.args) == 3 and const(n.args[1]) == attr:
            out.append(n.args[2])
    return out


def overriding(sp, m, obj, o, par):
    """The statement by which values under one name are merged so that the later one wins."""
    for n in walk_own(m.node):
        e = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and n.args:
            e = n.args[0]
        elif isinstance(n, ast.Dict) and sum(k is None for k in n.keys) > 1:
            e = n
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            e = n
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.BitOr):
            e = n.value
        elif isinstance(n, ast.Call) and name_of(n) == "dict" and n.args and any(k.arg is None for k in n.keywords):
            e = n
        if e is not None and par in sp.params_in(m, e):
            return n
    return None


def derivations(ctx, sp):
    """Calls of the makers: the three tables must describe the same contents."""
    names = {m.name for m in sp.makers}
    roles = {}
    for m in sp.makers:
        for obj in sp.table_stores(m):
            for t in sp.tables:
                for v in written(m, obj, t):
                    ps = sp.params_in(m, v)
                    direct = {o[1] for o in sp.origin(m, v) if isinstance(o, tuple)}
                    for p_ in (direct or ps):
                        roles.setdefault(t, p_)
    main, src, ins = "_df", "_source_df", "_instruction_df"
    provided, consumed = {}, {}
    merge = next((o for o in sp.options if "merge" in o), None)
    sel = next((o for o in sp.options if "select" in o), None)
    partial = None
    for m in sp.methods:
        for n in walk_own(m.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names):
                continue
            if m.name in names and isinstance(n.func.value, ast.Call):      # super().new_from_df(*args, **kwargs)
                continue
            g = next((x for x in sp.makers if x.name == n.func.attr), None)
            ctx.count("derivations")
            A = {t: argument(m, n, g, roles.get(t, "")) for t in sp.tables}
            D, S, I = A.get(main), A.get(src), A.get(ins)
            if D is None:
                continue
            chains = sp.chain(m, D)
            own = [c for c in chains if any(sp.reads(m, c[1], {main}) for _ in (0,)) and self_table(sp, m, c[1], main)]
            narrowed = [c for c in own if any(x[0] in NARROW or x[0] == "rows" for x in c[0])]
            where = f"{m.where(n)}"
            tag = f"{m.name}"
            if I is not None:
                if not sp.depends(m, I, sp.origin(m, D)):
                    ctx.violation(f"instructions:{tag}", f"{where}: the instructions of the derived spool do not follow from its contents (`{ast.unparse(I)}`)")
            if S is not None and narrowed:
                base = sp.origin(m, D) + (sp.origin(m, I) if I is not None else [])
                if not sp.depends(m, S, base):
                    ctx.violation(f"source:{tag}", f"{where}: the derived spool keeps all sources of the spool it was taken from, so re-chunking it brings back what was left out")
            trimmed = [c for c in own if any(x[0] in TRIMS for x in c[0])]
            if trimmed:
                for t, e in ((ins, I), (src, S)):
                    if e is None:
                        continue
                    if any(self_table(sp, m, c[1], t) and not any(x[0] in TRIMS for x in c[0]) for c in sp.chain(m, e)):
                        ctx.violation(f"untrimmed:{tag}:{t}", f"{where}: the contents are trimmed to the requested ranges but {t} of the derived spool is not")
            if not own and D is not None:
                used = sp.reads(m, D, sp.tables)
                if used and main not in used and ins not in used:
                    ctx.violation(f"contents-ignored:{tag}", f"{where}: the new contents follow from {', '.join(sorted(used))} only: an earlier chunk or slice of a source is undone")
            # what a table cannot express travels in the options
            lossy = [x for f_, x, env, ch in sp.x.explore(m, D, Env()) if isinstance(x, ast.Call) and f_ is m and any(k.arg and "ignore" in k.arg and isinstance(k.value, ast.Constant) and k.value.value is True for k in x.keywords)]
            if sel is not None:
                e = argument(m, n, g, sp.options[sel])
                star = m.node.args.kwarg.arg if m.node.args.kwarg else None
                if lossy and star:
                    ctx.count("lossy_selections")
                    if e is None or star not in sp.params_in(m, e):
                        ctx.violation(f"dropped-query:{tag}", f"{where}: parts of the query which the tables cannot express are not handed to the derived spool")
                    elif any(how[0] == "item" for c in sp.chain(m, e) for how in c[0] if isinstance(how, tuple)):
                        partial = (m, n)
            if merge is not None:
                e = argument(m, n, g, sp.options[merge])
                if e is not None:
                    for f_, x, env, ch in sp.x.explore(m, e, Env()):
                        if isinstance(x, ast.Dict):
                            for k, v in zip(x.keys, x.values):
                                if const(k):
                                    provided.setdefault(const(k), []).append((m, v))
                        elif isinstance(x, ast.Call) and name_of(x) == "dict":
                            for k in x.keywords:
                                provided.setdefault(k.arg, []).append((m, k.value))
    # merge options: consumed where patches are merged, provided where chunks are planned
    if merge is not None:
        for m in sp.methods:
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and n.args and const(n.args[0]) and option_value(sp, m, n.func.value, merge):
                    consumed[const(n.args[0])] = (m, n)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and const(n.slice) and option_value(sp, m, n.value, merge):
                    consumed[const(n.slice)] = (m, n)
                elif isinstance(n, ast.Call):
                    h = sp.x.callees(m, n)
                    for par in h.all_params if h is not None else ():
                        e = argument(m, n, h, par)
                        if e is None or not option_value(sp, m, e, merge):
                            continue
                        for y in walk_own(h.node):
                            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("pop", "get") and y.args and const(y.args[0]) and option_value(sp, h, y.func.value, None, par):
                                consumed[const(y.args[0])] = (h, y)
        ctx.count("merge_options", len(consumed))
        for k, (m, n) in sorted(consumed.items()):
            if k not in provided:
                ctx.violation(f"merge-option:{k}", f"{m.where(n)} merges patches according to `{k}`, which no derivation stores: what was requested is forgotten")
            for w, v in provided.get(k, []):
                if not sp.params_in(w, v):
                    ctx.violation(f"merge-option:{k}", f"{w.where(v)} stores `{ast.unparse(v)}` for `{k}` instead of what was requested")
    return partial


def option_value(sp, m, e, attr, par=None, depth=6):
    """The expression is the option mapping itself, or a copy of it."""
    me = m.params[0] if m.params else None
    for o in sp.origin(m, e):
        if isinstance(o, tuple):
            if par is not None and o[1] == par:
                return True
        elif isinstance(o, ast.Attribute) and attr is not None and o.attr == attr and isinstance(o.value, ast.Name) and o.value.id == me:
            return True
        elif isinstance(o, ast.Call) and depth and (name_of(o) in ("dict", "copy", "deepcopy", "FrozenDict")):
            src = o.args[0] if o.args else o.func.value if isinstance(o.func, ast.Attribute) else None
            if src is not None and option_value(sp, m, src, attr, par, depth - 1):
                return True
        elif isinstance(o, ast.BoolOp) and depth and any(option_value(sp, m, v, attr, par, depth - 1) for v in o.values):
            return True
        elif isinstance(o, ast.Dict) and depth and any(k is None and option_value(sp, m, v, attr, par, depth - 1) for k, v in zip(o.keys, o.values)):
            return True
    return False


def self_table(sp, m, e, t):
    me = m.params[0] if m.params else "self"
    return isinstance(e, ast.Attribute) and e.attr == t and isinstance(e.value, ast.Name) and e.value.id == me


def construct_target(prog, m, call):
    f = call.func
    if isinstance(f, ast.Attribute) and f.attr == "__class__" or isinstance(f, ast.Call) and getattr(f.func, "id", "") == "type":
        return m.cls.qual
    if isinstance(f, ast.Name) and f.id == "cls":
        return m.cls.qual
    q = prog.resolve(m.module, m, f)
    return q if q in prog.classes else None


def kept_params(sp, cq):
    """{constructor parameter: attribute} a constructor keeps on the object, followed through super()."""
    out = {}
    init = sp.p.functions.get(sp.p.class_member(cq, "__init__") or "")
    if init is None:
        return init, out
    for a, v, s in sp.self_stores(init):
        direct = {o[1] for o in sp.origin(init, v) if isinstance(o, tuple)}
        for p_ in direct:
            out.setdefault(p_, a)
    for n in walk_own(init.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and isinstance(n.func.value, ast.Call):
            g = sp.x.callees(init, n)
            if g is not None and g is not init:
                _, up = kept_params(sp, g.cls.qual)
                for p_ in up:
                    e = argument(init, n, g, p_)
                    for o in sp.origin(init, e) if e is not None else ():
                        if isinstance(o, tuple):
                            out.setdefault(o[1], up[p_])
    for a, p_ in sp.options.items():      # `{} if x is None else x` in the owner of the tables
        if init.cls is not None and p_ in init.all_params and any(v2 == a for v2 in [a]) and any(x == a for x, v, s in sp.self_stores(init)):
            out.setdefault(p_, a)
    return init, out


def updates(ctx, sp, partial):
    for m in sp.methods:
        if m.name != "update" or m.cls.qual == BASE:
            continue
        ctx.count("updates")
        me = m.params[0]
        loads = eager(sp, m.cls)
        for r in sp.x.results(m):
            for o in sp.origin(m, r.value):
                if o == ("param", me) or isinstance(o, ast.Name) and o.id == me:
                    if loads:
                        ctx.violation(f"stale-update:{m.cls.name}", f"{m.where(r)} returns the spool itself, whose tables were read when it was created ({loads[0]}): changes of the file stay unseen")
                elif isinstance(o, ast.Call):
                    tgt = construct_target(ctx.prog, m, o)
                    if tgt is None:
                        continue
                    init, kept = kept_params(sp, tgt)
                    given = [a for a in o.args] + [k.value for k in o.keywords]
                    if any(isinstance(x, tuple) and x[1] == me for a in given for x in sp.origin(m, a)):
                        if any(c.cls.qual in ctx.prog.mro(tgt) for c, _, _ in copies(sp)):
                            ctx.violation(f"stale-update:{m.cls.name}", f"{m.where(o)} copies the spool with everything it has cached")
                        continue
                    for p_, a in sorted(kept.items()):
                        if a not in sp.options and not any(a == x for c in ctx.prog.mro(tgt) if c in ctx.prog.classes for i in [ctx.prog.classes[c].methods.get("__init__")] if i for x, _, _ in sp.self_stores(i)):
                            continue
                        e = argument(m, o, init, p_)
                        ok = e is not None and (sp.reads(m, e, {a}) or any(isinstance(x, ast.Attribute) for x in ast.walk(e)) and a not in sp.options)
                        if not ok and any(k.arg is None for k in o.keywords):
                            ok = any(sp.reads(m, k.value, {a}) for k in o.keywords if k.arg is None)
                        ctx.count("carried_on_update")
                        if not ok:
                            ctx.violation(f"update-drops:{m.cls.name}:{a}", f"{m.where(o)} does not hand {a} to the updated spool")
                    if partial is not None:
                        ctx.violation(f"update-forgets-selection:{m.cls.name}", f"{m.where(o)} rebuilds the tables from the options, but {partial[0].where(partial[1])} keeps only the part of a selection in them which the tables could not express")


def eager(sp, cls):
    init = cls.methods.get("__init__")
    return [init.where(s) for a, v, s in sp.self_stores(init) if a in sp.tables] if init else []


def contents_copied(ctx, sp):
    """Attributes besides the tables from which contents are served may not be taken over by a derived spool."""
    for c in sp.classes:
        init = c.methods.get("__init__")
        if init is None:
            continue
        stored = {}
        for a, v, s in sp.self_stores(init):
            if a not in sp.tables | sp.caches | set(sp.options):
                stored.setdefault(a, []).append((v, s))
        served = {}
        for nm in CONTENT_METHODS:
            m = c.methods.get(nm)
            if m is None:
                continue
            me = m.params[0]
            for n in walk_own(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr in stored:
                    served[n.attr] = m
        for a, m in sorted(served.items()):
            ctx.count("content_attributes")
            for v, s in stored[a]:
                for o in sp.origin(init, v):
                    if isinstance(o, ast.Attribute) and isinstance(o.value, ast.Name) and o.value.id in init.all_params and o.value.id != init.params[0] and (o.attr == a or o.attr in stored):
                        resets = [w for k in c.methods.values() if k.name in {x.name for x in sp.makers} for obj in ["new", "out"] + list(sp.table_stores(k)) for w in written(k, obj, a)]
                        if not resets:
                            ctx.violation(f"contents-copied:{c.name}:{a}", f"{init.where(s)} a spool made from another one takes over its {a}, from which {m.qual} serves contents: new tables of the derived spool have no effect")


def run(ctx):
    prog = ctx.prog
    ctx.rule("no method of a spool modifies its own tables, options or anything reachable from them; caches are fresh per spool, and a copy of a spool's state shares neither caches nor objects bound to the old spool")
    ctx.rule("the procedures which give a new spool its tables replace all of them, drop every cached value computed from them, and carry the pending selection and merge options over, on every path")
    ctx.rule("in every derivation the instructions follow from the new contents, sources are restricted with the contents, all tables are trimmed alike, and query parts the tables cannot express travel in the options; merge options are stored where they were requested")
    ctx.rule("an update builds its tables anew and hands all options on")
    if BASE not in prog.classes:
        ctx.violation("spools", "the spool base class no longer exists")
        return
    sp = Spools(prog)
    own_state(ctx, sp)
    tables_of_self(ctx, sp)
    private_caches(ctx, sp)
    whole_copies(ctx, sp)
    makers(ctx, sp)
    partial = derivations(ctx, sp)
    updates(ctx, sp, partial)
    contents_copied(ctx, sp)
    ctx.assumptions.append("what the row operations of pandas compute is trusted; sub-spools handed to map clients are outside")
    ctx.require("spool_methods", 15)
    ctx.require("table_makers", 1)
    ctx.require("derivations", 3)
    ctx.require("updates", 1)
