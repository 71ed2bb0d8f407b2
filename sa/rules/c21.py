"""C21: cached results are always what recomputation would give."""
from __future__ import annotations

import ast

from ..absint import Interp, E
from ..calls import graph
from ..contrib import Env, Explorer
from ..flow import Flow, defs_of
from ..model import Program, dotted, walk_own
from .c01 import entries, entry_params

MEMO = {"cache", "lru_cache", "cached_property", "cached_method"}
WRAPPER = "dascore.utils.misc.cached_method"
# functions whose outside source is constant while a process runs
CONSTANT = {
    "dascore.utils.plugins.get_entry_point_loaders": "the installed distributions",
    "dascore.utils.plugins.maybe_load_entry_point": "the installed distributions",
    "dascore.utils.moving._get_module": "the installed distributions",
    "dascore.units._get_unit_registry": "pint's own definition files",
    "dascore.utils.downloader.get_registry_df": "a data file of the package",
}
# attributes which only steer the loading of plugins that fail to load
STEERING = {"_failed_formats", "_loaded_eps"}
CONSTRUCTING = {"__init__", "__new__", "__post_init__", "__set_name__", "model_post_init", "__init_subclass__", "__setstate__"}
FILE_METHODS = {"exists", "stat", "lstat", "is_file", "is_dir", "read_text", "read_bytes", "open", "glob", "rglob", "iterdir", "read_hdf", "open_file", "readlines"}
FILE_CALLS = ("builtins.open", "os.stat", "os.listdir", "os.scandir", "os.walk", "os.access", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.getmtime", "os.path.getsize", "json.load", "numpy.load", "numpy.fromfile",
              "numpy.memmap", "numpy.loadtxt", "numpy.genfromtxt", "h5py.File", "tables.open_file", "io.open", "glob.glob", "shutil.which", "shutil.disk_usage", "pandas.HDFStore")
CLOCKS = ("time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today", "datetime.datetime.today", "pandas.Timestamp.now", "pandas.Timestamp.utcnow", "pandas.Timestamp.today")
ENV = ("os.getenv", "os.getcwd", "os.environ", "os.getpid", "os.cpu_count", "pathlib.Path.cwd", "pathlib.Path.home", "platform.", "socket.", "importlib.metadata.", "sys.argv", "locale.", "getpass.", "importlib.import_module")
RANDOM = ("random.", "numpy.random.", "uuid.", "secrets.")
GROW = {"append", "add", "update", "extend", "insert", "setdefault", "pop", "popitem", "clear", "remove", "discard", "__setitem__", "appendleft"}


def decname(d):
    return (dotted(d.func if isinstance(d, ast.Call) else d) or [""])[-1]


def memoised(prog):
    return [f for f in prog.all_functions() if any(decname(d) in MEMO for d in f.decorators())]


def base_name(t):
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def stores(f):
    """[(target or receiver, node)] of everything a function assigns, deletes or grows."""
    out = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                out += [(e, n) for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(n, ast.AugAssign) or n.value is not None:
                out.append((n.target, n))
        elif isinstance(n, ast.Delete):
            out += [(t, n) for t in n.targets]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
            out.append((ast.Subscript(value=n.func.value, slice=ast.Constant(None), ctx=ast.Store()), n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            out.append((ast.Attribute(value=n.args[0], attr=str(n.args[1].value), ctx=ast.Store()), n))
    return out


class State:
    """Module variables and instance attributes which change after they were created."""

    def __init__(self, prog):
        self.p = prog
        self.globals, self.attrs, self.mutators = {}, {}, {}
        for f in prog.all_functions():
            declared = {x for n in walk_own(f.node) if isinstance(n, ast.Global) for x in n.names}
            me = f.params[0] if f.cls is not None and f.params and f.parent is None else None
            for t, n in stores(f):
                if isinstance(t, ast.Name):
                    if t.id in declared:
                        self.globals.setdefault(f"{f.module.name}.{t.id}", (f, n))
                    continue
                b = base_name(t)
                if b is None:
                    continue
                if b == me and f.cls is not None:
                    a = self.first_attr(t)
                    if a and f.name not in CONSTRUCTING and a[0] is not None:
                        if isinstance(t, ast.Attribute) and not isinstance(t.value, ast.Name):
                            continue      # an attribute of an attribute
                        self.attrs.setdefault((f.cls.qual, a[0]), []).append((f, n))
                    continue
                if b in prog.local_names(f) or b in f.all_params:
                    continue
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    q = prog.resolve(f.module, f, t.value)
                    m, _, v = (q or "").rpartition(".")
                    if m in prog.modules and v in prog.modules[m].variables:
                        self.globals.setdefault(q, (f, n))

    @staticmethod
    def first_attr(t):
        chain = []
        while isinstance(t, (ast.Attribute, ast.Subscript)):
            if isinstance(t, ast.Attribute):
                chain.append(t.attr)
            t = t.value
        return chain[::-1] or None


class Invalidate(Flow):
    """Must-facts of a method: everything memoised on self dropped (after the last change of the attribute)."""

    def __init__(self, f, attr, names):
        self.f, self.attr, self.names = f, attr, names
        self.me = f.params[0]
        self.change = {id(n) for t, n in stores(f) if base_name(t) == self.me and (State.first_attr(t) or [None])[0] == attr}
        self.targets = {id(t) for t, n in stores(f) if id(n) in self.change}
        super().__init__(f, self.g, kill=self.k, init={"dropped"}, refine=self.r)     # nothing changed yet

    def k(self, n):
        if id(n) in self.change or id(n) in self.targets:
            return lambda fact: True

    def r(self, test, pol, st):
        """No cache there: nothing to drop."""
        if st is None or self.about_cache(test) is None:
            return st
        absent = not pol
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            absent = pol if isinstance(test.ops[0], ast.Is) else not pol if isinstance(test.ops[0], ast.IsNot) else False
        elif isinstance(test, ast.Compare):
            if not (isinstance(test.ops[0], (ast.In, ast.NotIn)) and isinstance(test.left, ast.Constant) and test.left.value == "_cache"):
                return st
            absent = not pol if isinstance(test.ops[0], ast.In) else pol
        return st | {"dropped"} if absent else st

    def about_cache(self, e, depth=3):
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and x.attr == "_cache" or isinstance(x, ast.Constant) and x.value == "_cache" or isinstance(x, ast.Attribute) and x.attr == "__dict__":
                return x
            if isinstance(x, ast.Name) and depth and x.id != self.me:
                for s, src, how in defs_of(self.f).reaching(x.id, x):
                    if src is not None and (r := self.about_cache(src, depth - 1)) is not None:
                        return r
        return None

    def g(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            c = self.about_cache(n.func.value)
            if c is not None and n.func.attr == "clear":
                return {"dropped"}
            if c is not None and n.func.attr == "pop" and n.args and isinstance(n.args[0], ast.Constant):
                return {("dropped", n.args[0].value)}
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "_cache" and base_name(n) == self.me:
            return {"dropped"}
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Del):
            return {("dropped", n.attr)}


def impure(prog, st, f, frozen, g):
    """[(kind, text, node)] of what a function reads besides its arguments."""
    out = []
    me = f.params[0] if f.cls is not None and f.params and f.parent is None else None
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            q = prog.external(prog.resolve(f.module, f, n.func)) or ""
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if q.startswith(FILE_CALLS) or q.startswith("pandas.read_"):
                out.append(("files", q, n))
            elif q in CLOCKS:
                out.append(("the clock", q, n))
            elif q.startswith(RANDOM):
                out.append(("random numbers", q, n))
            elif q.startswith(ENV):
                out.append(("the environment", q, n))
            elif nm in FILE_METHODS and not g.ref(f, n.func) and not q.startswith("dascore"):
                out.append(("files", "." + nm, n))
            elif nm in ("now", "utcnow", "today") and not n.args:
                out.append(("the clock", "." + nm, n))
            elif nm == "fetch" and not g.ref(f, n.func):
                out.append(("files", ".fetch", n))
            for a in n.args:
                if isinstance(a, ast.Constant) and a.value in ("now", "today") and nm in ("datetime64", "Timestamp", "to_datetime"):
                    out.append(("the clock", f"{nm}('{a.value}')", n))
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            q = prog.resolve(f.module, f, n)
            if q == "os.environ":
                out.append(("the environment", q, n))
            if q in st.globals:
                w, s = st.globals[q]
                out.append(("a module variable", f"{q.rsplit('.', 1)[-1]} (changed at {w.where(s)})", n))
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and f.cls is not None:
                for c in prog.mro(f.cls.qual):
                    ms = [(w, s) for w, s in st.attrs.get((c, n.attr), ())]
                    if ms and c not in frozen:
                        out.append(("attribute", n.attr, n))
                        break
    return out


def frozen_classes(prog):
    """Immutable value classes (item and attribute assignment are rejected, C02)."""
    out = set()
    for q in prog.classes:
        if any(prog.is_subclass(q, b) for b in ("dascore.utils.models.DascoreBaseModel", "dascore.core.patch.Patch")):
            out.add(q)
    return out


def purity(ctx, prog, memo):
    st, g, frozen = State(prog), graph(prog), frozen_classes(prog)
    for m in memo:
        ctx.count("memoised_functions")
        seen = g.reach([m])
        names = {x.name for x in memo if x.cls is not None and m.cls is not None and x.cls.qual == m.cls.qual}
        for q, (f, caller, node) in sorted(seen.items()):
            ctx.count("functions_in_memoised_calls")
            for kind, text, n in impure(prog, st, f, frozen, g):
                path = g.path(seen, q)
                if kind == "attribute":
                    if text in STEERING or f.cls is None:
                        continue
                    for c in prog.mro(f.cls.qual):
                        for w, s in st.attrs.get((c, text), ()):
                            if any(decname(d) in MEMO for d in w.decorators()) and w.qual == m.qual:
                                continue      # computed and kept by the function itself
                            ctx.count("state_changes_checked")
                            facts = Invalidate(w, text, names).at_exit()
                            facts = facts if facts is not None else {"dropped"}
                            prop = any(decname(d) == "cached_property" for d in m.decorators())
                            if ("dropped", m.name) in facts or "dropped" in facts and not prop:
                                continue
                            ctx.violation(f"state:{m.qual}:{text}", f"{m.where()} is memoised but depends on {f.cls.name}.{text}, which {w.where(s)} changes without dropping the cached results ({path})")
                elif q in CONSTANT and kind in ("files", "the environment"):
                    ctx.count("reviewed_sources")
                else:
                    ctx.violation(f"impure:{m.qual}:{kind}", f"{m.where()} is memoised but depends on {kind}: {text} at {f.where(n)} ({path})")


def quantity_keys(ctx, prog, memo):
    """Arguments whose equality is coarser than what the function looks at."""
    for m in memo:
        if m.cls is not None and decname_of(m) in ("cached_property",):
            continue
        ps = set(m.all_params) - ({"self"} if m.cls is not None else set())
        if not ps:
            continue
        ctx.count("memo_key_parameters", len(ps))
        for n in walk_own(m.node):
            p = None
            if isinstance(n, ast.Attribute) and n.attr in ("magnitude", "units", "m", "u", "to_base_units") and isinstance(n.value, ast.Name):
                p = n.value.id
            elif isinstance(n, ast.Call) and getattr(n.func, "id", "") == "isinstance" and len(n.args) == 2 and isinstance(n.args[0], ast.Name) and \
                    any((dotted(x) or [""])[-1] == "Quantity" for x in (n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]])):
                p = n.args[0].id
            if p in ps and any(src is None for _, src, _ in defs_of(m).reaching(p, n.value if isinstance(n, ast.Attribute) else n.args[0])):
                ctx.violation(f"key:{m.qual}:{p}", f"{m.where(n)} {m.qual} is memoised by the value of {p}, a quantity: equal quantities in other units (1/s and Hz, 1 km and 1000 m) get the result of whichever came first")


def decname_of(m):
    return next((decname(d) for d in m.decorators() if decname(d) in MEMO), "")


# ---------------------------------------------------------------- values held in caches
class Tracker(Interp):
    def __init__(self, prog, memo):
        super().__init__(prog)
        self.memo_q = {m.qual: m for m in memo}

    def tag(self, q, v):
        if v.const is not None and v.fn:
            return v
        return v.but(al=v.al | {f"memo:{q}"})

    def hook_result(self, fr, node, qual, args, kwargs, recv, env, out):
        return self.tag(qual, out) if qual in self.memo_q else out

    def class_attr(self, t, b, name, node, fr):
        r = super().class_attr(t, b, name, node, fr)
        if r is None or r.fn:
            return r
        for k in [t] + list(self.p.subclasses(t)):
            q = self.p.class_member(k, name)
            if q in self.memo_q:
                r = self.tag(q, r)
        return r


def kept_values(ctx, prog, memo):
    it = Tracker(prog, memo)
    n = 0
    for fi in entries(prog, it):
        n += 1
        _, evs = it.run_entry(fi, entry_params(prog, it, fi), cls=fi.cls)
        for kind, f, node, stack, data in evs:
            if kind != "mut":
                continue
            for o in sorted(data["origins"]):
                r = o.lstrip("~")
                if not r.startswith("memo:"):
                    continue
                q = next((k for k in it.memo_q if r == "memo:" + k or r.startswith(("memo:" + k + ".", "memo:" + k + "["))), None)
                if q is None or handle(q):
                    continue
                ctx.violation(f"memo-modified:{q}:{f.qual}", f"{f.module.relpath}:{getattr(node, 'lineno', 0)} in {f.qual}: {data['how']} modifies what {q} keeps in its cache (call path: {' -> '.join(stack)})")
    ctx.count("entry_functions", n)


def handle(q):
    return q.endswith(("units.get_registry", "IOResourceManager.source", "moving._get_module", "plugins.maybe_load_entry_point"))


# ---------------------------------------------------------------- caches written by hand
def hand_caches(ctx, prog, memo):
    """`if key not in d: d[key] = value` : the key must cover what the value is computed from."""
    x = Explorer(prog)
    for f in prog.all_functions():
        me = f.params[0] if f.cls is not None and f.params and f.parent is None else None
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript)):
                continue
            t = n.targets[0]
            d = container(f, t.value)
            if d is None:
                continue
            if not looked_up(f, d, t):
                continue
            keys = used_params(x, f, t.slice)
            vals = used_params(x, f, n.value)
            if d[0] == "self":
                vals.discard(d[1].split(".")[0])     # the cache belongs to this object
            # a loop variable under its own key is no argument
            ctx.count("hand_written_caches")
            missing = vals - keys
            if missing:
                ctx.violation(f"hand-key:{f.qual}", f"{f.where(n)} {f.qual} keeps a value under a key which does not contain {', '.join(sorted(missing))}, though the value is computed from it")


def container(f, e):
    """('self'|'global'|'param', path) of a mapping that outlives the call."""
    if isinstance(e, ast.Name):
        for s, src, how in defs_of(f).reaching(e.id, e):
            if src is not None and how == "=":
                r = container(f, src)
                if r:
                    return r
        return None
    if isinstance(e, ast.Attribute):
        d = dotted(e)
        if d and f.cls is not None and f.params and d[0] == f.params[0] and "cache" in d[-1]:
            return ("self", ".".join(d))
        if d and f.parent is not None and d[0] in f.all_params and "cache" in d[-1]:
            return ("self", ".".join(d))
    return None


def looked_up(f, d, t):
    for n in walk_own(f.node):
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and container(f, n.comparators[0]) == d:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and container(f, n.func.value) == d:
            return True
    return False


def used_params(x, f, e):
    out = set()
    for g, n, env, chain in x.explore(f, e, Env()):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and g is f and n.id in f.all_params:
            out.add(n.id)
    return out


def table_cache(ctx, prog):
    """A cache kept as rows of a table: what the kept result was computed from is stored and compared."""
    x = Explorer(prog)
    for c in prog.classes.values():
        ms = list(c.methods.values())
        for m in ms:
            me = m.params[0] if m.params else None
            # calls of own methods which store a row into self.cache
            for n in walk_own(m.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me):
                    continue
                h = x.callees(m, n)
                if h is None or h.cls is None or not row_store(h):
                    continue
                ctx.count("table_caches")
                # the kept value: an argument which is the result of a call with arguments
                made = []
                for a in list(n.args) + [k.value for k in n.keywords]:
                    for o in origins(m, a):
                        if isinstance(o, ast.Call) and (o.args or o.keywords) and not isinstance(o.func, ast.Name):
                            made.append((a, o))
                if not made:
                    continue
                kept, call = made[0]
                inputs = [y for y in list(call.args) + [k.value for k in call.keywords]]
                others = [a for a in list(n.args) + [k.value for k in n.keywords] if a is not kept]
                masks = lookups(m, me)
                for e in inputs:
                    nm = {y.id for y in ast.walk(e) if isinstance(y, ast.Name)} - {me}
                    for v in sorted(nm):
                        if not any(v in {y.id for y in ast.walk(a) if isinstance(y, ast.Name)} for a in others):
                            ctx.violation(f"table-key:{m.qual}:{v}", f"{m.where(n)} in {m.qual} keeps a result computed from {v} without storing {v} beside it")
                        if masks and not any(v in ms_ for ms_ in masks):
                            ctx.violation(f"table-lookup:{m.qual}:{v}", f"{m.where(n)} in {m.qual} serves kept results without comparing {v}, from which they were computed")
                for v in sorted({y.id for e in inputs for y in ast.walk(e) if isinstance(y, ast.Name)} - {me}):
                    for e in others + mask_exprs(m, me):
                        for y in ast.walk(e):
                            for t in whole_args(x, m, y, v) + (stored_args(x, h, n, y, v, m) if y in others else []):
                                ctx.count("key_helpers")
                                if keys_only(*t):
                                    ctx.violation(f"table-key-values:{t[0].qual}", f"{t[0].where()} {t[0].qual} makes the key of kept results from the names in {t[1]} only: results for other values are served")
                cols = row_columns(h)
                compared = compared_columns(m, me)
                for col, e in cols.items():
                    ps = {y.id for y in ast.walk(e) if isinstance(y, ast.Name)}
                    if kept_param(h, n, kept) in ps:
                        continue
                    if compared and col not in compared:
                        ctx.violation(f"table-lookup:{m.qual}:{col}", f"{m.where()} {m.qual} does not compare the stored column {col} when it looks for a kept result")


def whole_args(x, m, y, v):
    """[(helper, parameter)] a call handing the variable v as a whole to an own function."""
    if not isinstance(y, ast.Call):
        return []
    g = x.callees(m, y)
    if g is None:
        return []
    off = 1 if g.cls is not None and g.params and isinstance(y.func, ast.Attribute) else 0
    out = [(g, p) for p, a in zip(g.params[off:], y.args) if isinstance(a, ast.Name) and a.id == v]
    return out + [(g, k.arg) for k in y.keywords if k.arg and isinstance(k.value, ast.Name) and k.value.id == v]


def stored_args(x, h, call, y, v, m):
    """The same for the function which stores the row, whose parameter is v."""
    out = []
    names = h.params[1:]
    for nme, a in list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords]:
        if a is y and isinstance(a, ast.Name) and a.id == v:
            for z in walk_own(h.node):
                out += whole_args(x, h, z, nme)
    return out


KEYS = {"sorted", "list", "set", "tuple", "frozenset", "len", "iter", "enumerate"}


def keys_only(g, p):
    """Does a function look at nothing but the names in a mapping?"""
    up = {c: n for n in ast.walk(g.node) for c in ast.iter_child_nodes(n)}
    names = False
    for n in walk_own(g.node):
        if not (isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load)):
            continue
        u = up.get(n)
        if isinstance(u, ast.Attribute) and u.attr == "keys" or isinstance(u, (ast.comprehension, ast.For)) and u.iter is n or isinstance(u, ast.Call) and n in u.args and getattr(u.func, "id", "") in KEYS:
            names = True
        else:
            return False
    return names


def names_in(f, e, depth=4):
    """Names an expression is computed from, local variables followed."""
    out = set()
    for y in ast.walk(e):
        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
            out.add(y.id)
            for _, src, how in defs_of(f).reaching(y.id, y) if depth else ():
                if src is not None:
                    out |= names_in(f, src, depth - 1)
    return out


def kept_param(h, call, kept):
    names = h.params[1:]
    for nme, a in zip(names, call.args):
        if a is kept:
            return nme
    return next((k.arg for k in call.keywords if k.value is kept), None)


def row_store(h):
    return any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in ("loc", "iloc", "at") and isinstance(t.value.value, ast.Attribute) and "cache" in t.value.value.attr
               for t, n in stores(h))


def row_columns(h):
    out = {}
    for n in walk_own(h.node):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant):
                    out[k.value] = v
        elif isinstance(n, ast.Call) and getattr(n.func, "id", "") == "dict":
            out.update({k.arg: k.value for k in n.keywords if k.arg})
    return out


def cache_columns(e, me):
    """Columns of self.cache mentioned in an expression."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and "cache" in n.value.attr and isinstance(n.value.value, ast.Name) and n.value.value.id == me:
            out.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and "cache" in n.value.attr and isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
    return out


def mask_exprs(m, me):
    """Expressions used as row mask of self.cache, names followed."""
    out, todo, seen = [], [], set()
    for n in walk_own(m.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            b = n.value.value if isinstance(n.value, ast.Attribute) and n.value.attr in ("loc", "iloc") else n.value
            if isinstance(b, ast.Attribute) and "cache" in b.attr and isinstance(b.value, ast.Name) and b.value.id == me and not isinstance(n.slice, ast.Constant):
                todo.append(n.slice)
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        for y in ast.walk(e):
            if isinstance(y, ast.Name):
                todo += [src for s, src, how in defs_of(m).reaching(y.id, y) if src is not None and isinstance(src, (ast.Compare, ast.BinOp, ast.BoolOp, ast.UnaryOp)) or src is not None and cache_columns(src, me)]
    return out


def lookups(m, me):
    return [{y.id for y in ast.walk(e) if isinstance(y, ast.Name)} for e in mask_exprs(m, me)]


def compared_columns(m, me):
    out = set()
    for e in mask_exprs(m, me):
        out |= cache_columns(e, me)
    return out


def origins(f, e, depth=6):
    out = []
    if isinstance(e, ast.Name) and depth:
        for s, src, how in defs_of(f).reaching(e.id, e):
            if src is not None:
                out += origins(f, src, depth - 1)
        return out
    return [e]


def wrapper(ctx, prog):
    """The memoising decorator of the package itself."""
    w = prog.functions.get(WRAPPER)
    if w is None:
        return
    inner = next(iter(w.children.values()), None)
    if inner is None:
        return
    ctx.count("memoising_wrappers")
    x = Explorer(prog)
    a = inner.node.args
    need = {v.arg for v in (a.vararg, a.kwarg) if v is not None}
    for n in walk_own(inner.node):
        k = None
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and container(inner, n.targets[0].value):
            k = n.targets[0].slice
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and container(inner, n.func.value) and n.args:
            k = n.args[0]
        if k is None:
            continue
        got, free = set(), set()
        for g, y, env, chain in x.explore(inner, k, Env()):
            if isinstance(y, ast.Name):
                (got if y.id in need else free).add(y.id)
        if need - got:
            ctx.violation("wrapper-key", f"{inner.where(n)}: results of memoised methods are kept without regard to {', '.join(sorted(need - got))}")
        if not free & set(w.all_params) or any(not names_in(inner, o) & set(w.all_params) for o in ([k] if not isinstance(k, ast.Name) else [src for _, src, how in defs_of(inner).reaching(k.id, k) if src is not None and how == "="])):
            ctx.violation("wrapper-function", f"{inner.where(n)}: results of different memoised methods are kept under the same key")


def shared_state(ctx, prog, memo):
    """Copies which share the cache dictionary of instances."""
    per = {m.cls.qual for m in memo if m.cls is not None and decname_of(m) == "cached_method"}
    g = graph(prog)
    for f in prog.all_functions():
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("model_copy", "__copy__", "copy")):
                continue
            upd = any(k.arg == "update" for k in n.keywords)
            if n.func.attr == "copy" and (dotted(n.func) or [""])[0] != "copy" and not upd:
                continue
            src = n.args[0] if n.args and (dotted(n.func) or [""])[0] == "copy" else n.func.value
            cq = g.expr_class(f, src)
            if cq is None:
                continue
            ctx.count("instance_copies")
            if any(prog.is_subclass(cq, q) or prog.is_subclass(q, cq) for q in per) and (upd or changes_after(f, n)):
                ctx.violation(f"shared-cache:{f.qual}", f"{f.where(n)} in {f.qual} makes a changed copy of a {cq.rsplit('.', 1)[-1]} which shares its dictionary of memoised results")


def changes_after(f, n):
    return any(isinstance(t, ast.Attribute) and s.lineno > n.lineno for t, s in stores(f))


def run(ctx):
    prog = ctx.prog
    ctx.rule("nothing a memoised function calls reads files, clocks, environment, random numbers, module variables that change, or attributes that change without the cached results being dropped on every path")
    ctx.rule("no argument of a memoised function is a quantity (equal quantities may differ in unit); hand-written caches keep and compare everything a value was computed from; the memoising decorator's key holds the function and all arguments")
    ctx.rule("no code modifies, through any alias, an object it obtained from a memoised function; no changed copy of an instance shares its memoised results")
    memo = memoised(prog)
    purity(ctx, prog, memo)
    quantity_keys(ctx, prog, memo)
    kept_values(ctx, prog, memo)
    hand_caches(ctx, prog, memo)
    table_cache(ctx, prog)
    wrapper(ctx, prog)
    shared_state(ctx, prog, memo)
    ctx.assumptions.append("installed packages, pint's definitions and the package's own data files do not change while a process runs; open file handles kept by the resource manager are sinks; numbers that compare equal (1, 1.0, True) are the same argument; objects handed to user code are not modified there")
    ctx.require("memoised_functions", 15)
    ctx.require("entry_functions", 400)
