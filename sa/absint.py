"""A flow-sensitive, interprocedural abstract interpreter over the syntax tree.

Abstract values carry: alias origins (which caller-visible objects a value may
be), element origins (what a fresh container may contain), dependence labels
(taint), type tags, a constant if known, and structure for tuples / lists /
dicts / constructed objects.  Nothing is executed: every operation is a
transfer function on these sets, branches are joined, loops iterate to a
(bounded) fixpoint, calls to functions of the package are analysed in context.
"""
from __future__ import annotations

import ast
import sys

from .model import Program, FunctionInfo, ClassInfo, dotted

sys.setrecursionlimit(20000)


class _NoConst:
    def __repr__(self):
        return "?"


NOC = _NoConst()
E = frozenset()

PATCH = "dascore.core.patch.Patch"
CM = "dascore.core.coordmanager.CoordManager"
COORD = "dascore.core.coords.BaseCoord"
ATTRS = "dascore.core.attrs.PatchAttrs"
SPOOL = "dascore.core.spool.BaseSpool"
ND = "numpy.ndarray"
DF = "pandas.DataFrame"
SER = "pandas.Series"
DICT, LIST, SET, TUP, STR = (f"builtins.{x}" for x in ("dict", "list", "set", "tuple", "str"))


def cap(origins):
    if len(origins) <= 24:
        return origins
    out = set()
    for o in origins:
        t = o.lstrip("~")
        root = t.split(".")[0].split("[")[0] if not t.startswith(("global:", "default:")) else None
        out.add(o if root is None or root == t else ("~" * (len(o) - len(t))) + root + ".*")
    return frozenset(out)


def deeper(o):
    return o if o.startswith("~~") else "~" + o


def surface(origins):
    """Origins at the first level of a container's content."""
    return frozenset(o for o in origins if not o.startswith("~"))


def inner(origins):
    """Content of the content: strip one level marker."""
    return frozenset(o[1:] for o in origins if o.startswith("~"))


class Val:
    __slots__ = ("al", "el", "deps", "ty", "const", "kind", "items", "fn", "nn", "recv", "_h", "_k")

    def __init__(self, al=E, el=E, deps=E, ty=E, const=NOC, kind=None, items=None, fn=E, nn=False, recv=None):
        self.al, self.el, self.deps, self.ty = cap(frozenset(al)), cap(frozenset(el)), frozenset(deps), frozenset(ty)
        self.const, self.kind, self.items = const, kind, items
        self.fn, self.nn, self.recv = frozenset(fn), nn, recv
        try:
            ck = (type(const), const)
            hash(ck)
        except TypeError:
            ck = repr(const)
        self._k = (self.al, self.el, self.deps, self.ty, ck, kind, items, self.fn, nn, recv)
        self._h = hash(self._k)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self._h == o._h and self._k == o._k)

    def __repr__(self):
        bits = []
        for n in ("al", "el", "deps", "ty", "fn"):
            v = getattr(self, n)
            if v:
                bits.append(f"{n}={sorted(map(str, v))}")
        if self.const is not NOC:
            bits.append(f"const={self.const!r}")
        if self.kind:
            bits.append(f"{self.kind}:{self.items}")
        if self.nn:
            bits.append("nn")
        return f"V({' '.join(bits)})"

    def but(self, **kw):
        d = dict(al=self.al, el=self.el, deps=self.deps, ty=self.ty, const=self.const, kind=self.kind,
                 items=self.items, fn=self.fn, nn=self.nn, recv=self.recv)
        d.update(kw)
        return Val(**d)

    # structure helpers
    def all_deps(self, depth=6):
        out = set(self.deps)
        if self.items is not None and depth:
            for it in (self.items if self.kind in ("seq", "hom") else [v for _, v in self.items]):
                out |= it.all_deps(depth - 1)
        return frozenset(out)

    def reach(self, depth=4):
        """This value as container content: its own origins, plus (marked with
        one more "~") the origins of what is structurally inside it."""
        out = set(self.al) | {deeper(o) for o in self.el}
        if self.items is not None and depth:
            for it in (self.items if self.kind in ("seq", "hom") else [v for _, v in self.items]):
                out |= {deeper(o) for o in it.reach(depth - 1)}
        return frozenset(out)

    def get(self, key):
        if self.kind in ("map", "obj") and self.items is not None:
            for k, v in self.items:
                if k == key:
                    return v
        return None

    def is_none(self):
        return self.const is None

    def not_none(self):
        return self.nn or (self.const is not NOC and self.const is not None) or self.kind is not None or bool(self.fn)


BOT = Val()
NONE = Val(const=None)


def const(c):
    t = {str: STR, bool: "builtins.bool", int: "builtins.int", float: "builtins.float", type(None): "none"}.get(type(c))
    return Val(const=c, ty={t} if t and t != "none" else E, nn=c is not None)


def fresh(*vals, ty=E, el=False, nn=True):
    d, e = set(), set()
    for v in vals:
        d |= v.all_deps()
        if el:
            e |= v.reach()
    return Val(deps=d, ty=ty, el=e, nn=nn)


DEPTH_CAP = 5
PATH_CAP = 2
IMMUTABLE_ATTRS = {"shape", "dtype", "ndim", "size", "dims", "units", "name", "step", "start", "stop", "ndim", "itemsize", "nbytes", "dim_tuple", "__name__", "__doc__", "suffix", "parent", "stem"}


def _depth(v, n=0):
    if v.items is None or n > 8:
        return n
    its = v.items if v.kind in ("seq", "hom") else [x for _, x in v.items]
    return max([n] + [_depth(i, n + 1) for i in its])


def collapse(v: Val):
    if v.items is None:
        return v
    al_el = set(v.el)
    its = v.items if v.kind in ("seq", "hom") else [x for _, x in v.items]
    for i in its:
        al_el |= i.reach()
    return v.but(kind=None, items=None, el=al_el, deps=v.all_deps())


def join(a: Val, b: Val) -> Val:
    if a is b or a == b:
        return a
    c = a.const if (a.const is not NOC and b.const is not NOC and type(a.const) is type(b.const) and a.const == b.const) else NOC
    kind = items = None
    # joining with a plain None keeps the structure of the other
    if a.is_none() and a.items is None and b.items is not None:
        kind, items = b.kind, b.items
    elif b.is_none() and b.items is None and a.items is not None:
        kind, items = a.kind, a.items
    elif a.kind in ("seq", "hom") and b.kind in ("seq", "hom") and "hom" in (a.kind, b.kind):
        kind, items = "hom", (joinall(a.items + b.items).but(const=NOC),) if a.items + b.items else (BOT,)
    elif a.kind and a.kind == b.kind:
        if a.kind == "seq":
            if len(a.items) == len(b.items):
                kind, items = "seq", tuple(join(x, y) for x, y in zip(a.items, b.items))
            else:
                kind, items = "hom", (joinall(a.items + b.items).but(const=NOC),)
        else:
            da, db = dict(a.items), dict(b.items)
            kind = a.kind
            ks = list(da) + [k for k in db if k not in da]
            items = tuple((k, join(da[k], db[k]) if k in da and k in db else (da.get(k) or db.get(k)).but(const=NOC, nn=False)) for k in ks)
    if items is None:
        a, b = collapse(a), collapse(b)
    ty = a.ty | b.ty
    if (not a.ty and not a.is_none()) or (not b.ty and not b.is_none()):
        ty = a.ty | b.ty  # union, unknown side contributes nothing
    return Val(al=a.al | b.al, el=a.el | b.el, deps=a.deps | b.deps, ty=ty, const=c, kind=kind, items=items,
               fn=a.fn | b.fn, nn=a.not_none() and b.not_none(), recv=a.recv if a.recv == b.recv else (a.recv or b.recv))


def joinall(vals):
    vals = list(vals)
    if not vals:
        return BOT
    out = vals[0]
    for v in vals[1:]:
        out = join(out, v)
    return out


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        if k in out:
            out[k] = join(out[k], v)
        elif not k.startswith("$must:"):
            out[k] = v.but(const=NOC, nn=False) if not k.startswith("%") else v
    for k in [k for k in out if k.startswith("$must:") and k not in b]:
        del out[k]
    return out


def ext(origins, suffix):
    out = set()
    for o in origins:
        if o.endswith(".*"):
            out.add(o)
        elif o.count(".") + o.count("[") > PATH_CAP:
            out.add(o)
        else:
            out.add(o + suffix)
    return cap(frozenset(out))


def elem(v: Val) -> Val:
    """Abstract element obtained by iteration / unknown subscript."""
    if v.kind in ("seq", "hom"):
        x = (joinall(v.items).but(const=NOC) if v.items else BOT) if len(v.items) != 1 else v.items[0]
        if v.al or v.el or v.deps:
            x = x.but(al=x.al | ext(v.al, "[]") | surface(v.el), el=x.el | inner(v.el), deps=x.deps | v.deps)
        return x
    if v.kind == "map":
        base = joinall([x for _, x in v.items]) if v.items else BOT
        return base.but(const=NOC, el=base.el | v.el, deps=base.deps | v.deps)
    return Val(al=ext(v.al, "[]") | surface(v.el), el=inner(v.el), deps=v.all_deps())


LIST_MUT = {"append", "extend", "insert", "remove", "reverse", "appendleft", "popleft"}
DICT_MUT = {"popitem", "setdefault"}
TYPED_MUT = {
    LIST: {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"},
    DICT: {"update", "pop", "popitem", "setdefault", "clear"},
    SET: {"add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update", "symmetric_difference_update"},
    ND: {"sort", "fill", "resize", "put", "partition", "itemset", "setfield"},
    DF: {"insert", "pop", "update"},
    SER: {"pop", "update"},
}
ANY_MUT = {"append", "extend", "insert", "remove", "pop", "popitem", "setdefault", "clear", "fill", "discard"}
VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal", "to_numpy", "__array__"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "values", "array", "magnitude"}
VIEW_FUNCS = {
    "numpy." + x for x in
    ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel",
     "reshape", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims", "broadcast_to", "flip",
     "flipud", "fliplr", "real", "imag", "rot90", "diagonal", "require", "array_split", "split")
} | {"numpy.lib.stride_tricks.as_strided", "numpy.lib.stride_tricks.sliding_window_view"}
FIRST_ARG_MUT = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis",
                 "random.shuffle", "numpy.random.shuffle", "heapq.heappush", "heapq.heapify", "heapq.heappop",
                 "bisect.insort"}
BIN_UFUNCS = {"numpy." + x for x in ("add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "mod",
                                     "remainder", "maximum", "minimum", "fmax", "fmin", "logical_and", "logical_or", "bitwise_and",
                                     "bitwise_or", "bitwise_xor", "arctan2", "hypot")}
UN_UFUNCS = {"numpy." + x for x in ("negative", "abs", "absolute", "sqrt", "square", "exp", "log", "log10", "log2", "sign", "rint",
                                    "floor", "ceil", "trunc", "conjugate", "conj", "isnan", "isfinite", "logical_not", "invert",
                                    "sin", "cos", "tan", "angle", "reciprocal", "around", "round")}
COPY_CTORS = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.dict", "builtins.sorted", "builtins.frozenset",
              "builtins.reversed", "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter",
              "collections.OrderedDict", "collections.defaultdict", "collections.deque", "itertools.chain", "copy.copy",
              "itertools.product", "itertools.zip_longest", "collections.ChainMap",
              "more_itertools.collapse"}
EXT_TYPES = {
    "builtins.dict": DICT, "builtins.list": LIST, "builtins.set": SET, "builtins.tuple": TUP, "builtins.str": STR,
    "builtins.sorted": LIST, "pandas.DataFrame": DF, "pandas.Series": SER, "pandas.concat": DF, "numpy.array": ND,
    "pathlib.Path": "pathlib.Path", "collections.defaultdict": DICT, "collections.OrderedDict": DICT,
    "builtins.len": "builtins.int", "builtins.int": "builtins.int", "builtins.float": "builtins.float",
    "builtins.isinstance": "builtins.bool", "builtins.slice": "builtins.slice",
}
TYPE_ALIASES = {
    "dascore.constants.PatchType": PATCH, "dascore.constants.SpoolType": SPOOL,
    "collections.abc.Mapping": DICT, "typing.Mapping": DICT, "collections.abc.Sequence": LIST, "typing.Sequence": LIST,
    "numpy.typing.ArrayLike": ND, "numpy.typing.NDArray": ND, "numpy.ndarray": ND, "pandas.DataFrame": DF, "pandas.Series": SER,
    "dascore.compat.DataArray": "xarray.DataArray",
    "dascore.utils.models.ArrayLike": ND,
}
# attribute types of the core objects
ATTR_TY = {
    (PATCH, "data"): ND, (PATCH, "attrs"): ATTRS, (PATCH, "coords"): CM, (PATCH, "dims"): TUP, (PATCH, "shape"): TUP,
    (CM, "coord_map"): "dascore.utils.mapping.FrozenDict", (CM, "dim_map"): "dascore.utils.mapping.FrozenDict", (CM, "dims"): TUP,
    (CM, "shape"): TUP,
    (COORD, "values"): ND, (COORD, "data"): ND,
    (ATTRS, "history"): LIST, (ATTRS, "coords"): "dascore.utils.mapping.FrozenDict",
    (SPOOL, "_df"): DF, (SPOOL, "_source_df"): DF, (SPOOL, "_instruction_df"): DF,
}


class Frame:
    def __init__(self, fi, parent=None, callnode=None, cls=None):
        self.fi, self.parent, self.callnode = fi, parent, callnode
        self.cls = cls
        self.returns, self.ret_envs, self.yields = [], [], []
        self.breaks, self.continues = [], []
        self.rebound = set()
        self.depth = 0 if parent is None else parent.depth + 1
        self.snaps = []  # stack of snapshot lists (try)

    def stack(self):
        out, f = [], self
        while f is not None:
            out.append(f.fi.qual)
            f = f.parent
        return out[::-1]


class Interp:
    MAX_DEPTH = 9
    LOOP_ITERS = 3
    CTX_LIMIT = 12

    def widen(self, v):
        if v.kind in ("seq", "hom") and len(v.items) <= 4 and all(i.kind is None for i in v.items):
            return v
        c = collapse(v) if v.kind else v
        if c.const is not NOC and not isinstance(c.const, (bool, str, type(None))):
            c = c.but(const=NOC)
        return c

    def __init__(self, prog: Program):
        self.p = prog
        self.memo = {}
        self.active = []
        self.events = []
        self.closures = {}
        self.calls_analysed = 0
        self.budget = 4000
        self.ctx = {}
        self.cut = 0

    # ----------------------------------------------------------- hooks
    def hook_call(self, frame, node, qual, args, kwargs, recv, env):
        """Return a Val to override the result of a call, or None."""
        return None

    def hook_result(self, frame, node, qual, args, kwargs, recv, env, out):
        return out

    def emit(self, frame, node, kind, **data):
        self.events.append((kind, frame.fi, node, frame.stack(), data))

    def mutation(self, frame, node, origins, how, val=None):
        if origins:
            self.emit(frame, node, "mut", origins=frozenset(origins), how=how)

    # ----------------------------------------------------------- types
    def ann_types(self, ann, mod, fi):
        out = set()
        if ann is None:
            return E
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(ast.parse(ann.value, mode="eval").body, mod, fi)
                except SyntaxError:
                    return E
            return E
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_types(ann.left, mod, fi) | self.ann_types(ann.right, mod, fi)
        if isinstance(ann, ast.Subscript):
            base = self.p.resolve(mod, fi, ann.value)
            if base in ("typing.Optional", "typing.Union", "typing.Annotated"):
                sl = ann.slice
                elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                if base == "typing.Annotated":
                    elts = elts[:1]
                for e in elts:
                    out |= self.ann_types(e, mod, fi)
                return frozenset(out)
            return self.ann_types(ann.value, mod, fi)
        q = self.p.resolve(mod, fi, ann)
        if q is None:
            return E
        q = TYPE_ALIASES.get(q, q)
        if q.endswith(".Self") and fi is not None and fi.cls is not None:
            return frozenset({fi.cls.qual})
        if q in self.p.classes or q.startswith("builtins.") or q in (ND, DF, SER) or "." in q:
            if q in ("typing.Any", "builtins.object"):
                return E
            # package-level type aliases
            if q.startswith("dascore.") and q not in self.p.classes:
                m, _, n = q.rpartition(".")
                mo = self.p.modules.get(m)
                if mo and n in mo.variables and mo.variables[n]:
                    e = mo.variables[n][-1]
                    if isinstance(e, (ast.BinOp, ast.Name, ast.Attribute, ast.Subscript)):
                        return self.ann_types(e, mo, None)
                    if isinstance(e, ast.Call):  # TypeVar(bound=..)
                        for kw in e.keywords:
                            if kw.arg == "bound":
                                return self.ann_types(kw.value, mo, None)
                return E
            return frozenset({q})
        return E

    def name_types(self, name):
        if name == "patch":
            return frozenset({PATCH})
        if name in ("cm", "coord_manager"):
            return frozenset({CM})
        if name == "df" or name.endswith("_df"):
            return frozenset({DF})
        if name == "spool":
            return frozenset({SPOOL})
        if name == "coord":
            return frozenset({COORD})
        return E

    # ----------------------------------------------------------- entry
    def run_entry(self, fi: FunctionInfo, params: dict, cls: ClassInfo | None = None):
        """Analyse fi with given parameter Vals; returns (ret, events)."""
        saved = self.events
        self.events = []
        self.ctx = {}
        self.calls_analysed = 0
        ret, _ = self.invoke(fi, params, None, None, cls=cls)
        ev, self.events = self.events, saved
        return ret, ev

    def default_param(self, fi, name, origin=None, ann=None):
        ty = E
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                ty = self.ann_types(x.annotation, fi.module, fi)
        if not ty:
            ty = self.name_types(name)
        if a.kwarg and a.kwarg.arg == name:
            return Val(el={origin + "[]"} if origin else E, deps=E, ty={DICT}, nn=True)
        if a.vararg and a.vararg.arg == name:
            return Val(el={origin + "[]"} if origin else E, ty={TUP}, nn=True)
        return Val(al={origin} if origin else E, ty=ty)

    # ----------------------------------------------------------- invoking
    def invoke(self, fi, bound, frame, node, cls=None, closure=None):
        """Analyse a function body with bound params. Returns (Val, exit env)."""
        n_ctx = self.ctx.get(fi.qual, 0)
        if n_ctx >= self.CTX_LIMIT and closure is None:
            bound = {k: self.widen(v) for k, v in bound.items()}
        key = (fi.qual, id(fi.node), cls.qual if cls else None, closure,
               tuple(sorted(((k, v) for k, v in bound.items()), key=lambda t: t[0])))
        depth = (frame.depth + 1) if frame else 0
        if key in self.memo:
            ret, exit_env, evs = self.memo[key]
            st = frame.stack() if frame else []
            for kind, f, n, stack, data in evs:
                self.events.append((kind, f, n, st + stack, data))
            return ret, exit_env
        if depth > self.MAX_DEPTH or self.active.count(fi.qual) >= 2 or n_ctx >= 3 * self.CTX_LIMIT or (self.budget is not None and self.calls_analysed > self.budget):
            self.cut += 1
            d = set()
            for v in bound.values():
                d |= v.all_deps()
            return Val(deps=d, ty=self.ann_types(getattr(fi.node, "returns", None), fi.module, fi)), {}
        self.calls_analysed += 1
        self.ctx[fi.qual] = n_ctx + 1
        self.active.append(fi.qual)
        saved_events = self.events
        self.events = []
        fr = Frame(fi, None, node, cls)
        fr.depth = depth
        env = dict(bound)
        if closure is not None:
            fr.closure = closure
        else:
            fr.closure = None
        end = self.block(fi.body, env, fr)
        if end is not None:
            fr.returns.append(NONE)
            fr.ret_envs.append(end)
        ret = joinall(fr.returns) if fr.returns else BOT
        if fr.yields:
            y = joinall(fr.yields)
            ret = Val(el=y.reach(), deps=y.all_deps(), kind="hom", items=(y,), nn=True, ty={"generator"})
        ann = self.ann_types(getattr(fi.node, "returns", None), fi.module, fi)
        if not ret.ty and ann and not fr.yields:
            ret = ret.but(ty=ann)
        exit_env = None
        for e in fr.ret_envs:
            exit_env = join_env(exit_env, e)
        exit_env = {k: v for k, v in (exit_env or {}).items()
                    if k.split(".")[0] not in fr.rebound or k.split(".")[0] not in bound}
        self.active.pop()
        evs = self.events
        # dedupe
        seen, ded = set(), []
        for e in evs:
            k = (e[0], id(e[2]), repr(sorted(e[4].items(), key=lambda t: t[0])) if e[0] == "mut" else id(e))
            if k not in seen:
                seen.add(k)
                ded.append(e)
        self.events = saved_events
        self.memo[key] = (ret, exit_env, ded)
        st = frame.stack() if frame else []
        for kind, f, n, stack, data in ded:
            self.events.append((kind, f, n, st + stack, data))
        return ret, exit_env

    # ----------------------------------------------------------- statements
    def block(self, body, env, fr):
        for s in body:
            if env is None:
                return None
            for sn in fr.snaps:
                sn.append(env)
            env = self.stmt(s, env, fr)
        if env is not None:
            for sn in fr.snaps:
                sn.append(env)
        return env

    def stmt(self, s, env, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return env
        return m(s, dict(env), fr)

    def s_Expr(self, s, env, fr):
        if isinstance(s.value, ast.Call):
            s.value._discarded = True
        self.ev(s.value, env, fr)
        return env

    def s_Assign(self, s, env, fr):
        v = self.ev(s.value, env, fr)
        for t in s.targets:
            self.assign(t, v, env, fr, s)
        return env

    def s_AnnAssign(self, s, env, fr):
        if s.value is not None:
            v = self.ev(s.value, env, fr)
            if not v.ty:
                ty = self.ann_types(s.annotation, fr.fi.module, fr.fi)
                v = v.but(ty=ty)
            self.assign(s.target, v, env, fr, s)
        return env

    MUTABLE_TY = {ND, LIST, DICT, SET, DF, SER}

    def s_AugAssign(self, s, env, fr):
        v = self.ev(s.value, env, fr)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, fr)
            if old.al and (old.ty & self.MUTABLE_TY):
                self.mutation(fr, s, old.al, "augmented assignment in place", old)
            new = Val(al=old.al if old.ty & self.MUTABLE_TY else E, el=old.el | v.el, deps=old.all_deps() | v.all_deps(), ty=old.ty, nn=True)
            self.setvar(env, t.id, new, fr)
        else:
            self.assign(t, v, env, fr, s, aug=True)
        return env

    def setvar(self, env, name, v, fr):
        fr.rebound.add(name)
        env[name] = v
        for k in [k for k in env if k.startswith(name + ".")]:
            del env[k]

    def assign(self, t, v, env, fr, stmt, aug=False):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, fr, stmt)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr, stmt)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, env, fr, stmt, aug)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, v, env, fr, stmt, aug)

    def unpack(self, elts, v, env, fr, stmt):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.kind == "seq" and not star and len(v.items) == len(elts):
            for e, x in zip(elts, v.items):
                self.assign(e, x, env, fr, stmt)
            return
        if v.kind == "seq" and star and len(v.items) >= len(elts) - 1:
            i = star[0]
            after = len(elts) - i - 1
            its = list(v.items)
            mid = its[i: len(its) - after]
            vals = its[:i] + [Val(kind="seq", items=tuple(mid), ty={LIST}, nn=True)] + its[len(its) - after:]
            for e, x in zip(elts, vals):
                self.assign(e, x, env, fr, stmt)
            return
        x = elem(v)
        for e in elts:
            self.assign(e, x, env, fr, stmt)

    def store_sub(self, t, v, env, fr, stmt, aug=False):
        base = self.ev(t.value, env, fr)
        idx = self.ev(t.slice, env, fr)
        if base.al:
            self.mutation(fr, stmt, base.al, "item assignment", base)
        self.hook_store_sub(fr, stmt, t, base, idx, v, env)
        # update the local variable weakly
        self.update_container(t.value, base, idx, v, env, fr)

    def hook_store_sub(self, fr, stmt, t, base, idx, v, env):
        pass

    def lv_key(self, expr):
        parts = dotted(expr)
        return ".".join(parts) if parts else None

    def update_container(self, expr, base, idx, v, env, fr):
        """Weak/strong update of the container held in variable `expr`."""
        key = self.lv_key(expr)
        if key is None:
            # nested subscripts: taint the root variable
            root = expr
            while isinstance(root, (ast.Subscript, ast.Attribute)):
                root = root.value
            if isinstance(root, ast.Name) and root.id in env:
                old = collapse(env[root.id])
                env[root.id] = old.but(el=old.el | {deeper(o) for o in v.reach()}, deps=old.deps | v.all_deps() | (idx.all_deps() if idx else E))
            return
        new = None
        if base.kind == "map" and idx is not None and idx.const is not NOC and isinstance(idx.const, (str, int)):
            d = dict(base.items)
            d[idx.const] = v
            new = base.but(items=tuple(d.items()))
        elif base.kind == "seq" and idx is not None and isinstance(idx.const, int) and -len(base.items) <= idx.const < len(base.items):
            its = list(base.items)
            its[idx.const] = v
            new = base.but(items=tuple(its))
        elif base.kind == "map":
            new = base.but(el=base.el | v.reach(), deps=base.deps | v.all_deps() | (idx.all_deps() if idx else E))
        elif base.kind in ("seq", "hom"):
            j = joinall(base.items + (v,)).but(const=NOC)
            new = base.but(kind="hom", items=(j,), deps=base.deps | (idx.all_deps() if idx else E))
        elif base.kind == "obj":
            b = collapse(base)
            new = b.but(el=b.el | v.reach(), deps=b.deps | v.all_deps() | (idx.all_deps() if idx else E))
        else:
            new = base.but(el=base.el | v.reach(), deps=base.deps | v.all_deps() | (idx.all_deps() if idx else E))
        if _depth(new) > DEPTH_CAP:
            new = collapse(new)
        env[key] = new

    def store_attr(self, t, v, env, fr, stmt, aug=False):
        base = self.ev(t.value, env, fr)
        key = self.lv_key(t)
        if base.al:
            if not (t.attr == "writeable" and v.const is False):
                self.mutation(fr, stmt, ext(base.al, "." + t.attr), f"attribute assignment .{t.attr}", base)
        self.hook_store_attr(fr, stmt, t, base, v, env)
        if key:
            env[key] = v
            parts = key.split(".")
            if len(parts) == 2 and parts[0] in env:
                b = env[parts[0]]
                if b.kind == "obj":
                    d = dict(b.items)
                    d[t.attr] = v
                    nb = b.but(items=tuple(d.items()))
                    if _depth(nb) > DEPTH_CAP:
                        nb = collapse(nb)
                    env[parts[0]] = nb
                elif b.kind is None and not b.al:
                    env[parts[0]] = b.but(el=b.el | v.reach(), deps=b.deps | v.all_deps())

    def hook_store_attr(self, fr, stmt, t, base, v, env):
        pass

    def s_Delete(self, s, env, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, env, fr)
                if base.al:
                    self.mutation(fr, s, base.al, "item deletion", base)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, env, fr)
                if base.al:
                    self.mutation(fr, s, ext(base.al, "." + t.attr), "attribute deletion", base)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return env

    def s_Return(self, s, env, fr):
        v = self.ev(s.value, env, fr) if s.value is not None else NONE
        fr.returns.append(v)
        fr.ret_envs.append(env)
        self.hook_return(fr, s, v, env)
        return None

    def hook_return(self, fr, s, v, env):
        pass

    def s_Raise(self, s, env, fr):
        if s.exc is not None:
            self.ev(s.exc, env, fr)
        return None

    def s_Break(self, s, env, fr):
        if fr.breaks:
            fr.breaks[-1].append(env)
        return None

    def s_Continue(self, s, env, fr):
        if fr.continues:
            fr.continues[-1].append(env)
        return None

    def s_Assert(self, s, env, fr):
        _, te, _ = self.cond(s.test, env, fr)
        return te if te is not None else env

    def s_If(self, s, env, fr):
        r, te, fe = self.cond(s.test, env, fr)
        a = self.block(s.body, te, fr) if r is not False and te is not None else None
        b = self.block(s.orelse, fe, fr) if r is not True and fe is not None else None
        return join_env(a, b)

    def _loop(self, fr, env, once, has_else):
        fr.breaks.append([])
        fr.continues.append([])
        cur = env
        for _ in range(self.LOOP_ITERS):
            e = once(dict(cur))
            for c in fr.continues[-1]:
                e = join_env(e, c)
            fr.continues[-1].clear()
            new = join_env(cur, e)
            if new == cur:
                break
            cur = new
        brk = fr.breaks.pop()
        fr.continues.pop()
        out = self.block(has_else, cur, fr) if has_else else cur
        for b in brk:
            out = join_env(out, b)
        return out

    def s_For(self, s, env, fr):
        it = self.loop_items(self.ev(s.iter, env, fr))
        # unroll short literal sequences exactly
        if it.kind == "seq" and self.UNROLL_MIN <= len(it.items) <= self.UNROLL:
            fr.breaks.append([])
            fr.continues.append([])
            cur = env
            for x in it.items:
                e = dict(cur)
                self.assign(s.target, x, e, fr, s)
                e = self.block(s.body, e, fr)
                for c in fr.continues[-1]:
                    e = join_env(e, c)
                fr.continues[-1].clear()
                if e is None:
                    cur = None
                    break
                cur = e
            brk = fr.breaks.pop()
            fr.continues.pop()
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur, fr)
            for b in brk:
                cur = join_env(cur, b)
            return cur
        x = self.iterate(it, s, fr)

        def once(e):
            self.assign(s.target, x, e, fr, s)
            return self.block(s.body, e, fr)
        return self._loop(fr, env, once, s.orelse)

    s_AsyncFor = s_For
    UNROLL_MIN, UNROLL = 1, 6

    def loop_items(self, it):
        return it

    def iter_elem(self, it):
        if it.kind == "map":
            ks = [k for k, _ in it.items]
            return const(ks[0]) if len(ks) == 1 and not it.el else Val(ty={STR} if ks and all(isinstance(k, str) for k in ks) else E, deps=it.deps, nn=True)
        if it.ty == frozenset({DICT}) and not it.items:
            return Val(deps=it.deps, nn=True)
        return elem(it)

    def s_While(self, s, env, fr):
        def once(e):
            r, te, fe = self.cond(s.test, e, fr)
            if te is None or r is False:
                return e
            return self.block(s.body, te, fr)
        return self._loop(fr, env, once, s.orelse)

    def s_With(self, s, env, fr):
        suppress = False
        for item in s.items:
            v = self.ev(item.context_expr, env, fr)
            if isinstance(item.context_expr, ast.Call):
                q = self.p.resolve(fr.fi.module, fr.fi, item.context_expr.func)
                if q == "contextlib.suppress":
                    suppress = True
            if item.optional_vars is not None:
                x = v
                if v.kind == "hom" and v.ty == frozenset({"generator"}):
                    x = elem(v)
                else:
                    for t in v.ty:
                        en = self.p.class_member(t, "__enter__") if t in self.p.classes else None
                        if en in self.p.functions:
                            x, _ = self.invoke(self.p.functions[en], {self.p.functions[en].params[0]: v}, fr, s, cls=self.p.classes[t])
                            break
                self.assign(item.optional_vars, x, env, fr, s)
        if suppress:
            fr.snaps.append([])
            out = self.block(s.body, env, fr)
            sn = fr.snaps.pop()
            for e in sn:
                out = join_env(out, e)
            return out
        return self.block(s.body, env, fr)

    s_AsyncWith = s_With

    def s_Try(self, s, env, fr):
        fr.snaps.append([env])
        out = self.block(s.body, env, fr)
        sn = fr.snaps.pop()
        if out is not None and s.orelse:
            out = self.block(s.orelse, out, fr)
        h_env = None
        for e in sn:
            h_env = join_env(h_env, e)
        for h in s.handlers:
            e = dict(h_env)
            if h.name:
                e[h.name] = Val(nn=True)
            e = self.block(h.body, e, fr)
            out = join_env(out, e)
        if s.finalbody:
            if out is not None:
                out = self.block(s.finalbody, out, fr)
            else:
                self.block(s.finalbody, h_env, fr)
        return out

    s_TryStar = s_Try

    def s_Match(self, s, env, fr):
        subj = self.ev(s.subject, env, fr)
        out = None
        for c in s.cases:
            e = dict(env)
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.MatchAs) and n.name:
                    e[n.name] = elem(subj) if n is not c.pattern else subj
                elif isinstance(n, ast.MatchStar) and n.name:
                    e[n.name] = Val(el=elem(subj).reach(), deps=subj.all_deps(), nn=True)
            out = join_env(out, self.block(c.body, e, fr))
        return join_env(out, env)

    def s_FunctionDef(self, s, env, fr):
        fi = fr.fi.children.get(s.name)
        if fi is not None:
            cid = len(self.closures)
            self.closures[cid] = (fi, env, fr)
            for d in s.decorator_list:
                self.ev(d, env, fr)
            env[s.name] = Val(fn={("closure", cid)}, nn=True)
            fr.rebound.add(s.name)
        return env

    def s_ClassDef(self, s, env, fr):
        return env

    # ----------------------------------------------------------- conditions
    def cond(self, e, env, fr):
        """-> (True/False/None, env if true, env if false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r, t, f = self.cond(e.operand, env, fr)
            return (None if r is None else not r), f, t
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = env
            others = None
            res = None
            unknown = False
            for v in e.values:
                r, t, f = self.cond(v, cur, fr)
                if is_and:
                    if r is False:
                        return (False if True else None), None, join_env(others, f)
                    if r is None:
                        unknown = True
                        others = join_env(others, f)
                    cur = t
                else:
                    if r is True:
                        return (True if not unknown else True), join_env(others, t), None
                    if r is None:
                        unknown = True
                        others = join_env(others, t)
                    cur = f
                if cur is None:
                    break
            if is_and:
                return (None if unknown else True), cur, others
            return (None if unknown else False), others, cur
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e, env, fr)
            r = self.truth(v)
            return r, (env if r is not False else None), (env if r is not True else None)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, rgt = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                lv, rv = self.ev(l, env, fr), self.ev(rgt, env, fr)
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                r = None
                if rv.is_none() or lv.is_none():
                    x, xe = (lv, l) if rv.is_none() else (rv, rgt)
                    if x.is_none():
                        r = True
                    elif x.not_none():
                        r = False
                    te, fe = dict(env), dict(env)
                    key = self.lv_key(xe)
                    if isinstance(xe, ast.NamedExpr):
                        key = xe.target.id
                    if key and r is None and isinstance(op, (ast.Is, ast.IsNot)):
                        base = x
                        te[key] = NONE.but(deps=base.deps)
                        fe[key] = base.but(nn=True)
                    if neg:
                        r = None if r is None else not r
                        te, fe = fe, te
                    return r, (te if r is not False else None), (fe if r is not True else None)
                if lv.const is not NOC and rv.const is not NOC and isinstance(op, (ast.Eq, ast.NotEq)):
                    try:
                        r = bool(lv.const == rv.const)
                        if neg:
                            r = not r
                    except Exception:
                        r = None
                    return r, (env if r is not False else None), (env if r is not True else None)
                te, fe = dict(env), dict(env)
                if rv.const is not NOC and isinstance(rv.const, (str, int, bool)) and self.lv_key(l) and not neg:
                    te[self.lv_key(l)] = lv.but(const=rv.const, nn=True)
                return None, te, fe
            if isinstance(op, (ast.In, ast.NotIn)):
                lv, rv = self.ev(l, env, fr), self.ev(rgt, env, fr)
                r = None
                if lv.const is not NOC and rv.kind == "seq" and all(i.const is not NOC for i in rv.items):
                    r = any(i.const == lv.const for i in rv.items)
                elif lv.const is not NOC and rv.kind == "map" and not rv.el and not rv.deps:
                    ks = [k for k, _ in rv.items]
                    r = lv.const in ks
                if r is not None and isinstance(op, ast.NotIn):
                    r = not r
                r = self.in_result(r, lv, rv)
                return r, (env if r is not False else None), (env if r is not True else None)
        if isinstance(e, ast.Call):
            q = self.p.resolve(fr.fi.module, fr.fi, e.func)
            if q == "builtins.isinstance" and len(e.args) == 2:
                v = self.ev(e.args[0], env, fr)
                tys = self.isinstance_types(e.args[1], fr)
                key = self.lv_key(e.args[0])
                te, fe = dict(env), dict(env)
                r = None
                if v.is_none() and tys and "none" not in tys:
                    r = False
                elif v.ty and tys and not v.is_none():
                    def sub(a, b):
                        return a == b or (a in self.p.classes and b in self.p.mro(a)) or (b == DICT and a.endswith("FrozenDict"))
                    if v.not_none() and all(any(sub(t, x) for x in tys) for t in v.ty) and not self.ty_open(v):
                        r = True
                if key and tys and r is not False:
                    keep = frozenset(tys)
                    if v.ty:
                        inter = {t for t in v.ty if t in keep or any(t in self.p.classes and k in self.p.mro(t) for k in keep)}
                        keep = frozenset(inter) or keep
                    te[key] = v.but(ty=keep, nn=True)
                    if v.ty:
                        rest = v.ty - frozenset(tys)
                        fe[key] = v.but(ty=rest)
                return r, (te if r is not False else None), (fe if r is not True else None)
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.ev(e, env, fr)
            r = self.truth(v)
            te, fe = env, env
            key = self.lv_key(e)
            if key and r is None:
                te = dict(env)
                te[key] = v.but(nn=True)
            return r, (te if r is not False else None), (fe if r is not True else None)
        v = self.ev(e, env, fr)
        r = self.truth(v)
        return r, (env if r is not False else None), (env if r is not True else None)

    def in_result(self, r, lv, rv):
        return r

    def ty_open(self, v):
        return bool(v.al)

    def isinstance_types(self, e, fr):
        if isinstance(e, ast.Tuple):
            out = set()
            for x in e.elts:
                s = self.isinstance_types(x, fr)
                if not s:
                    return E
                out |= s
            return frozenset(out)
        return self.ann_types(e, fr.fi.module, fr.fi)

    def truth(self, v):
        if v.const is not NOC:
            try:
                return bool(v.const)
            except Exception:
                return None
        if v.kind == "seq":
            return len(v.items) > 0
        if v.kind == "map" and v.items:
            return True
        if v.kind == "map" and not v.items and not v.el and not v.deps:
            return False
        return None

    # ----------------------------------------------------------- expressions
    def ev(self, e, env, fr) -> Val:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            vals = [self.ev(c, env, fr) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return fresh(*vals)
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        return const(e.value)

    def e_Name(self, e, env, fr):
        n = e.id
        if n in env:
            return env[n]
        # closure variables
        c = getattr(fr, "closure", None)
        while c is not None:
            fi, cenv, cfr = self.closures[c]
            # `fi` is the function being run; its defining env is cenv
            if n in cenv:
                return cenv[n]
            if n in cfr.fi.children and n not in {x.arg for x in ast.walk(cfr.fi.node.args) if isinstance(x, ast.arg)}:
                # a sibling defined after this function: it closes over the same scope
                key = ("%later", c, n)
                if key not in self.closures:
                    self.closures[key] = (cfr.fi.children[n], cenv, cfr)
                return Val(fn={("closure", key)}, nn=True)
            c = getattr(cfr, "closure", None)
        q = self.p.resolve_name(fr.fi.module, fr.fi, n)
        if q is None:
            return BOT
        return self.entity(q, fr)

    def entity(self, q, fr=None):
        if q in self.p.functions:
            return Val(fn={("func", q)}, nn=True)
        if q in self.p.classes:
            return Val(fn={("class", q)}, nn=True)
        if q in self.p.modules:
            return Val(fn={("mod", q)}, nn=True)
        if q.startswith("dascore."):
            m, _, n = q.rpartition(".")
            mod = self.p.modules.get(m)
            if mod and n in mod.variables:
                ck = ("%global", q)
                if ck in self.memo:
                    return self.memo[ck]
                self.memo[ck] = Val(al={f"global:{q}"}, nn=True)
                exprs = mod.variables[n]
                v = self.global_value(exprs[-1], mod) if len(exprs) == 1 else BOT
                mut = v.ty & {DICT, LIST, SET} or v.kind == "map" or v.const is NOC and v.kind is None and not v.fn
                if mut:
                    v = v.but(al=v.al | {f"global:{q}"}, nn=True)
                self.memo[ck] = v
                return v
            return Val(nn=True)
        return Val(fn={("ext", q)}, nn=True)

    def global_value(self, expr, mod):
        fi = FunctionInfo(f"{mod.name}.<module>", "<module>", ast.parse("def m(): pass").body[0], mod)
        fr = Frame(fi)
        fr.closure = None
        fr.depth = self.MAX_DEPTH - 1
        saved = self.events
        self.events = []
        try:
            v = self.ev(expr, {}, fr)
        finally:
            self.events = saved
        return v

    def e_Attribute(self, e, env, fr):
        key = self.lv_key(e)
        if key and key in env:
            return env[key]
        parts = dotted(e)
        if parts and parts[0] not in env:
            q = self.p.resolve(fr.fi.module, fr.fi, e)
            if q is not None:
                base = self.p.resolve_name(fr.fi.module, fr.fi, parts[0])
                if base is not None and not base.startswith("builtins.") and (base in self.p.modules or base in self.p.classes or not base.startswith("dascore.")):
                    return self.entity(q, fr)
        b = self.ev(e.value, env, fr)
        return self.load_attr(b, e.attr, e, env, fr)

    def load_attr(self, b: Val, name, node, env, fr):
        for f in b.fn:
            if f[0] == "mod":
                return self.entity(self.p.member(f[1], [name]), fr)
            if f[0] == "class":
                q = self.p.class_member(f[1], name)
                if q:
                    if q in self.p.functions:
                        return Val(fn={("bound", q)}, recv=b, nn=True)
                    c, ex = self.p.class_attr_expr(f[1], name)
                    if ex is not None:
                        return self.global_value(ex, c.module)
                return Val(nn=True)
            if f[0] == "ext":
                return Val(fn={("ext", f"{f[1]}.{name}")}, nn=True)
            if f[0] in ("func", "bound", "closure") and name in ("func", "raw_function", "__wrapped__"):
                return b
        if name == "__class__":
            cl = [t for t in b.ty if t in self.p.classes]
            if cl:
                return Val(fn={("class", t) for t in cl}, nn=True)
        x = b.get(name) if b.kind == "obj" else None
        if x is not None:
            return x
        # properties / bound methods of known classes
        outs = []
        for t in sorted(b.ty):
            if t in self.p.classes:
                r = self.class_attr(t, b, name, node, fr)
                if r is not None:
                    outs.append(r)
        if outs:
            out = joinall(outs)
            if name in IMMUTABLE_ATTRS:
                out = out.but(al=E, el=E)
            tt = {ATTR_TY[(k, name)] for k in b.ty if (k, name) in ATTR_TY}
            if tt:
                out = out.but(ty=tt)
            return out
        ty = set()
        for t in b.ty:
            for k in (self.p.mro(t) if t in self.p.classes else [t]):
                if (k, name) in ATTR_TY:
                    ty.add(ATTR_TY[(k, name)])
                    break
        if name in VIEW_ATTRS and (b.ty & {ND, DF, SER} or not b.ty):
            al = b.al
            if b.ty & {DF, SER} and name in ("T",):
                al = b.al
            return Val(al=al, el=b.el if not b.al else E, deps=b.all_deps(), ty=ty or ({ND} if b.ty & {ND, DF, SER} else E))
        if name in IMMUTABLE_ATTRS:
            return Val(deps=b.all_deps(), ty=ty)
        return Val(al=ext(b.al, "." + name) | (surface(b.el) if b.kind is None else E),
                   el=inner(b.el) if b.kind is None else E, deps=b.all_deps(), ty=ty)

    def class_attr(self, t, b, name, node, fr):
        q = self.p.class_member(t, name)
        if q is None:
            return None
        f = self.p.functions.get(q)
        if f is not None:
            decs = [self.p.resolve(f.module, None, d.func if isinstance(d, ast.Call) else d) for d in f.decorators()]
            if any(d in ("builtins.property", "functools.cached_property") or (d or "").endswith(("cached_property", ".property")) for d in decs):
                cur, _ = self.invoke(f, {f.params[0]: b}, fr, node, cls=self.p.classes[t])
                outs = [cur]
                for s in self.p.subclasses(t):
                    if name in self.p.classes[s].methods:
                        g = self.p.classes[s].methods[name]
                        outs.append(self.invoke(g, {g.params[0]: b}, fr, node, cls=self.p.classes[s])[0])
                return joinall(outs)
            return Val(fn={("bound", q)}, recv=b, nn=True)
        c, ex = self.p.class_attr_expr(t, name)
        if ex is not None and not b.al:
            return None
        return None

    def e_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        i = self.ev(e.slice, env, fr)
        if b.fn and not b.al and not b.items:  # generics: List[int]
            return b
        if b.kind == "seq" and isinstance(i.const, int) and not isinstance(i.const, bool) and -len(b.items) <= i.const < len(b.items):
            return b.items[i.const]
        if b.kind == "map" and i.const is not NOC:
            x = b.get(i.const)
            if x is not None:
                return x
        if b.kind == "seq" and isinstance(e.slice, ast.Slice):
            def cst(z):
                if z is None:
                    return None
                v = self.ev(z, env, fr)
                return v.const if isinstance(v.const, int) else NOC
            lo, hi, st = cst(e.slice.lower), cst(e.slice.upper), cst(e.slice.step)
            if NOC not in (lo, hi, st):
                return b.but(items=b.items[slice(lo, hi, st)], const=NOC, al=E)
        return self.subscript(b, i, e, env, fr)

    def subscript(self, b, i, e, env, fr):
        deps = b.all_deps() | i.all_deps()
        gi = self.dunder(b, "__getitem__", [i], e, fr)
        if gi is not None:
            return gi
        if b.ty & {ND, SER} or (not b.ty and b.al and self._sliceish(e.slice)):
            if self._sliceish(e.slice):
                return Val(al=b.al, el=b.el if not b.al else E, deps=deps, ty=b.ty & {ND} or b.ty)
            if b.ty & {ND}:
                return Val(deps=deps, ty={ND})
        if b.ty & {DF}:
            if isinstance(i.const, str):
                return Val(al=b.al, deps=deps, ty={SER})
            return Val(deps=deps, ty={DF})
        x = elem(collapse(b) if b.kind == "obj" else b)
        if not b.ty and not b.kind and b.al:
            # unknown container: an index by a computed key may be a copy (arrays) or an element
            pass
        return x.but(deps=x.deps | i.all_deps())

    def dunder(self, b, name, args, node, fr):
        outs = []
        for t in sorted(b.ty):
            if t in self.p.classes:
                q = self.p.class_member(t, name)
                cands = [q] if q in self.p.functions else []
                cands += [self.p.classes[s].methods[name].qual for s in self.p.subclasses(t) if name in self.p.classes[s].methods]
                for c in cands[:4]:
                    f = self.p.functions[c]
                    bound = self.bind(f, node, args, None, {}, None, b, fr)
                    outs.append(self.invoke(f, bound, fr, node, cls=f.cls)[0])
        return joinall(outs) if outs else None

    def iterate(self, v, node, fr):
        if any(t in self.p.classes for t in v.ty) and v.kind != "seq":
            g = self.dunder(v, "__iter__", [], node, fr)
            if g is not None:
                return self.iter_elem(g)
            g = self.dunder(v, "__getitem__", [Val(ty={"builtins.int"}, nn=True)], node, fr)
            if g is not None:
                return g
        return self.iter_elem(v)

    def _sliceish(self, s):
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Constant):
            return s.value is Ellipsis or isinstance(s.value, int) or s.value is None
        if isinstance(s, ast.Tuple):
            return bool(s.elts) and all(self._sliceish(x) or isinstance(x, ast.Attribute) and x.attr == "newaxis" for x in s.elts)
        if isinstance(s, ast.UnaryOp):
            return self._sliceish(s.operand)
        return False

    def e_Slice(self, e, env, fr):
        vals = [self.ev(x, env, fr) for x in (e.lower, e.upper, e.step) if x is not None]
        return fresh(*vals, ty={"builtins.slice"})

    def e_Tuple(self, e, env, fr):
        return self._display(e.elts, env, fr, TUP)

    def e_List(self, e, env, fr):
        return self._display(e.elts, env, fr, LIST)

    def e_Set(self, e, env, fr):
        v = self._display(e.elts, env, fr, SET)
        return v

    def _display(self, elts, env, fr, ty):
        items, known = [], True
        el, deps = set(), set()
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, fr)
                if v.kind == "seq":
                    items.extend(v.items)
                else:
                    known = False
                    y = self.iter_elem(v)
                    el |= y.reach()
                    deps |= v.all_deps()
            else:
                items.append(self.ev(x, env, fr))
        if known and len(items) <= 40:
            v = Val(kind="seq", items=tuple(items), ty={ty}, nn=True)
            return collapse(v) if _depth(v) > DEPTH_CAP else v
        for i in items:
            el |= i.reach()
            deps |= i.all_deps()
        return Val(el=el, deps=deps, ty={ty}, nn=True)

    def e_Dict(self, e, env, fr):
        d, el, deps = {}, set(), set()
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                if vv.kind == "map":
                    d.update(dict(vv.items))
                    el |= vv.el
                    deps |= vv.deps
                else:
                    el |= elem(vv).reach()
                    deps |= vv.all_deps()
                continue
            kk = self.ev(k, env, fr)
            if kk.const is not NOC and isinstance(kk.const, (str, int, float, bool)):
                d[kk.const] = vv
            else:
                el |= vv.reach()
                deps |= vv.all_deps() | kk.all_deps()
        v = Val(el=el, deps=deps, ty={DICT}, kind="map", items=tuple(d.items()), nn=True)
        return collapse(v) if _depth(v) > DEPTH_CAP else v

    def _comp(self, gens, env, fr):
        """Bind comprehension targets; returns (env, feasible)."""
        e = dict(env)
        saved = set(fr.rebound)
        for g in gens:
            it = self.ev(g.iter, e, fr)
            x = self.iterate(it, g.iter, fr)
            self.assign(g.target, x, e, fr, g.iter)
            for c in g.ifs:
                r, te, fe = self.cond(c, e, fr)
                if te is not None:
                    e = dict(te)
        fr.rebound = saved
        # walrus inside leaks are ignored
        return e

    def e_ListComp(self, e, env, fr):
        g = e.generators
        if len(g) == 1 and not g[0].is_async:
            it = self.loop_items(self.ev(g[0].iter, env, fr))
            if it.kind == "seq" and len(it.items) <= 8:
                outs, ok = [], True
                for x in it.items:
                    en = dict(env)
                    saved = set(fr.rebound)
                    self.assign(g[0].target, x, en, fr, g[0].iter)
                    fr.rebound = saved
                    keep = True
                    for c in g[0].ifs:
                        r, te, fe = self.cond(c, en, fr)
                        if r is False:
                            keep = False
                            break
                        if r is None:
                            ok = False
                        if te is not None:
                            en = dict(te)
                    if keep:
                        outs.append(self.ev(e.elt, en, fr))
                if ok:
                    v = Val(kind="seq", items=tuple(outs), ty={LIST}, nn=True)
                    return collapse(v) if _depth(v) > DEPTH_CAP else v
                j = joinall(outs)
                return self._hom(j, it.deps)
        en = self._comp(g, env, fr)
        v = self.ev(e.elt, en, fr)
        itdeps = set()
        for gg in g:
            itdeps |= self.ev(gg.iter, en, fr).all_deps()
        return self._hom(v, itdeps)

    def _hom(self, x, deps=E):
        v = Val(kind="hom", items=(x.but(const=NOC) if x.const is not None else x,), deps=deps, ty={LIST}, nn=True)
        return collapse(v) if _depth(v) > DEPTH_CAP else v

    def e_SetComp(self, e, env, fr):
        return self.e_ListComp(e, env, fr).but(ty={SET})

    def e_GeneratorExp(self, e, env, fr):
        return self.e_ListComp(e, env, fr).but(ty={LIST})

    def e_DictComp(self, e, env, fr):
        g = e.generators
        if len(g) == 1:
            it = self.loop_items(self.ev(g[0].iter, env, fr))
            src = None
            if it.kind == "seq" and len(it.items) <= 12:
                src = it.items
            elif it.kind == "map" and len(it.items) <= 12 and not it.el:
                src = [const(k) for k, _ in it.items]
            if src is not None:
                d, ok, el, deps = {}, True, set(), set(it.deps)
                for x in src:
                    en = dict(env)
                    saved = set(fr.rebound)
                    self.assign(g[0].target, x, en, fr, g[0].iter)
                    fr.rebound = saved
                    keep = True
                    for c in g[0].ifs:
                        r, te, fe = self.cond(c, en, fr)
                        if r is False:
                            keep = False
                            break
                        if te is not None:
                            en = dict(te)
                    if not keep:
                        continue
                    k, v = self.ev(e.key, en, fr), self.ev(e.value, en, fr)
                    if k.const is not NOC and isinstance(k.const, (str, int)):
                        d[k.const] = v
                    else:
                        el |= v.reach()
                        deps |= v.all_deps() | k.all_deps()
                v = Val(kind="map", items=tuple(d.items()), el=el, deps=deps, ty={DICT}, nn=True)
                return collapse(v) if _depth(v) > DEPTH_CAP else v
        en = self._comp(g, env, fr)
        k, v = self.ev(e.key, en, fr), self.ev(e.value, en, fr)
        itdeps = set()
        for gg in g:
            itdeps |= self.ev(gg.iter, en, fr).all_deps()
        return Val(el=v.reach(), deps=v.all_deps() | k.all_deps() | itdeps, ty={DICT}, nn=True)

    def e_Lambda(self, e, env, fr):
        fi = FunctionInfo(f"{fr.fi.qual}.<lambda>", "<lambda>", e, fr.fi.module, fr.fi.cls, fr.fi)
        cid = len(self.closures)
        self.closures[cid] = (fi, env, fr)
        return Val(fn={("closure", cid)}, nn=True)

    def e_IfExp(self, e, env, fr):
        r, te, fe = self.cond(e.test, env, fr)
        if r is True:
            return self.ev(e.body, te, fr)
        if r is False:
            return self.ev(e.orelse, fe, fr)
        return join(self.ev(e.body, te if te is not None else env, fr), self.ev(e.orelse, fe if fe is not None else env, fr))

    def e_BoolOp(self, e, env, fr):
        out = None
        is_or = isinstance(e.op, ast.Or)
        for i, x in enumerate(e.values):
            v = self.ev(x, env, fr)
            t = self.truth(v)
            last = i == len(e.values) - 1
            if not last and t is not None and t != is_or:
                continue
            out = v if out is None else join(out, v)
            if not last and t is not None and t == is_or:
                return out
        return out if out is not None else BOT

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if v.const is not NOC and isinstance(v.const, (int, float)) and not isinstance(v.const, bool) and isinstance(e.op, ast.USub):
            return const(-v.const)
        if isinstance(e.op, ast.Not):
            r, _, _ = self.cond(e.operand, env, fr)
            if r is not None:
                return const(not r)
            return fresh(v, ty={"builtins.bool"})
        return fresh(v, ty=v.ty & {ND, DF, SER, PATCH})

    def e_BinOp(self, e, env, fr):
        l, r = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
        if l.kind == "seq" and r.kind == "seq" and isinstance(e.op, ast.Add):
            return Val(kind="seq", items=l.items + r.items, ty=l.ty, nn=True)
        if isinstance(e.op, ast.Mult):
            for a, b in ((l, r), (r, l)):
                if a.kind == "seq" and isinstance(b.const, int) and 0 <= b.const * len(a.items) <= 12:
                    return Val(kind="seq", items=a.items * b.const, ty=a.ty, nn=True)
        if isinstance(e.op, ast.BitOr) and (l.kind == "map" or r.kind == "map") and (l.kind in ("map", None) and r.kind in ("map", None)):
            d = {}
            el, deps = set(l.el | r.el), set(l.deps | r.deps)
            for x in (l, r):
                if x.kind == "map":
                    d.update(dict(x.items))
                else:
                    el |= elem(x).reach()
            return Val(kind="map", items=tuple(d.items()), el=el, deps=deps, ty={DICT}, nn=True)
        if isinstance(l.const, str) and isinstance(r.const, str) and isinstance(e.op, ast.Add):
            return const(l.const + r.const)
        if isinstance(l.const, (int, float)) and isinstance(r.const, (int, float)) and not isinstance(l.const, bool):
            try:
                c = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
                     ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b}.get(type(e.op))
                if c:
                    return const(c(l.const, r.const))
            except Exception:
                pass
        ty = (l.ty | r.ty) & {ND, DF, SER, LIST, TUP, SET, DICT, PATCH, STR}
        if l.ty & {PATCH} or r.ty & {PATCH}:
            ty = {PATCH}
        keep_el = bool(ty & {LIST, TUP, SET, DICT})
        return fresh(l, r, ty=ty, el=keep_el)

    def e_Compare(self, e, env, fr):
        r, _, _ = (None, None, None)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            r, _, _ = self.cond(e, env, fr)
            if r is not None:
                return const(r)
        vals = [self.ev(x, env, fr) for x in [e.left] + e.comparators]
        return fresh(*vals)

    def e_JoinedStr(self, e, env, fr):
        parts, deps = [], set()
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env, fr)
                deps |= x.all_deps()
                parts.append(str(x.const) if x.const is not NOC and parts is not None and v.format_spec is None and v.conversion == -1 else None)
        if None not in parts and not deps:
            return const("".join(map(str, parts)))
        return Val(deps=deps, ty={STR}, nn=True)

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.setvar(env, e.target.id, v, fr)
        return v

    def e_Starred(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else NONE
        fr.yields.append(v)
        return BOT

    def e_YieldFrom(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        fr.yields.append(self.iter_elem(v))
        return BOT

    # ----------------------------------------------------------- calls
    def e_Call(self, e, env, fr):
        # resolve callee
        func = e.func
        recv = None
        callee = None
        if isinstance(func, ast.Attribute):
            parts = dotted(func)
            static = None
            if parts and parts[0] not in env and ".".join(parts) not in env:
                base = self.p.resolve_name(fr.fi.module, fr.fi, parts[0])
                if base is not None and (base in self.p.modules or base in self.p.classes or not base.startswith(("dascore.", "builtins."))):
                    static = self.p.resolve(fr.fi.module, fr.fi, func)
                    if base in self.p.classes:
                        # class attribute call: Cls.method(...)
                        if static in self.p.functions:
                            f = self.p.functions[static]
                            if not self._is_static(f):
                                recv = Val(fn={("class", base)}, nn=True) if self._is_class(f) else None
            if static is None and isinstance(func.value, ast.Call) and isinstance(func.value.func, ast.Name) and func.value.func.id == "super":
                return self.super_call(e, env, fr)
            if static is not None:
                callee = [("func", static)] if static in self.p.functions else [("class", static)] if static in self.p.classes else [("ext", static)]
                if static.startswith("dascore.") and static not in self.p.functions and static not in self.p.classes:
                    v = self.entity(static, fr)
                    callee = list(v.fn) or [("unknown", static)]
            else:
                recv = self.ev(func.value, env, fr)
                key = self.lv_key(func)
                if key and key in env:
                    v = env[key]
                else:
                    v = self.load_attr(recv, func.attr, func, env, fr) if not (recv.kind == "map" and recv.ty == {DICT}) else BOT
                callee = list(v.fn)
                if v.recv is not None:
                    recv = v.recv
        else:
            v = self.ev(func, env, fr)
            callee = list(v.fn)
            if v.recv is not None:
                recv = v.recv
        # args
        args, star_rest, kwargs, kw_rest = [], None, {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env, fr)
                if sv.kind == "seq":
                    args.extend(sv.items)
                else:
                    x = self.iter_elem(sv)
                    star_rest = x if star_rest is None else join(star_rest, x)
            else:
                args.append(self.ev(a, env, fr))
        for k in e.keywords:
            kv = self.ev(k.value, env, fr)
            if k.arg is None:
                if kv.kind == "map":
                    for kk, vv in kv.items:
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                    if kv.el or kv.deps:
                        x = Val(al=surface(kv.el), el=inner(kv.el), deps=kv.deps)
                        kw_rest = x if kw_rest is None else join(kw_rest, x)
                elif kv.is_none():
                    pass
                else:
                    x = elem(kv)
                    kw_rest = x if kw_rest is None else join(kw_rest, x)
            else:
                kwargs[k.arg] = kv
        outs = []
        for c in callee:
            outs.append(self.dispatch(c, e, env, fr, args, star_rest, kwargs, kw_rest, recv))
        if not callee:
            outs.append(self.method_call(e, env, fr, args, star_rest, kwargs, kw_rest, recv))
        return joinall(outs)

    def _decs(self, f):
        return [self.p.resolve(f.module, f.parent, d.func if isinstance(d, ast.Call) else d) or "" for d in f.decorators()]

    def _is_static(self, f):
        return "builtins.staticmethod" in self._decs(f)

    def _is_class(self, f):
        return "builtins.classmethod" in self._decs(f)

    def super_call(self, e, env, fr):
        args = [self.ev(a, env, fr) for a in e.args if not isinstance(a, ast.Starred)]
        kwargs = {k.arg: self.ev(k.value, env, fr) for k in e.keywords if k.arg}
        cls = fr.fi.cls
        selfname = fr.fi.params[0] if fr.fi.params else "self"
        recv = env.get(selfname, BOT)
        if cls is None:
            return fresh(*args, *kwargs.values())
        for q in self.p.mro((fr.cls or cls).qual):
            pass
        mro = self.p.mro(cls.qual)[1:]
        for q in mro:
            c = self.p.classes.get(q)
            if c and e.func.attr in c.methods:
                f = c.methods[e.func.attr]
                bound = self.bind(f, e, args, None, kwargs, None, recv, fr)
                out, exit_env = self.invoke(f, bound, fr, e, cls=fr.cls or cls)
                for k, v in exit_env.items():
                    if k.startswith(f.params[0] + "."):
                        env[selfname + k[len(f.params[0]):]] = v
                return out
        return fresh(*args, *kwargs.values(), el=True)

    def dispatch(self, c, e, env, fr, args, star_rest, kwargs, kw_rest, recv):
        if c[0] == "wrapped":
            # a wrapped function: its result may share anything with its arguments
            rest = [x for x in (star_rest, kw_rest) if x is not None]
            return joinall(list(args) + list(kwargs.values()) + rest).but(const=NOC)
        kind = c[0]
        if kind in ("func", "bound"):
            f = self.p.functions.get(c[1])
            if f is None:
                return fresh(*args, *kwargs.values())
            h = self.hook_call(fr, e, f.qual, args, kwargs, recv, env)
            if h is not None:
                return h
            if f.name in ("lazy_import", "optional_import") and f.parent is None and args and isinstance(args[0].const, str):
                q = args[0].const
                if f.name == "lazy_import" and len(args) > 1 and isinstance(args[1].const, str):
                    q += "." + args[1].const
                return Val(fn={("ext", q)}, nn=f.name == "lazy_import")
            rv = recv
            cls = f.cls
            if kind == "func" and not self._is_class(f):
                rv = None
            if kind == "bound" and recv is not None:
                # virtual dispatch over subclasses of the receiver's known types
                outs = []
                targets = [(f, cls)]
                for t in recv.ty:
                    if t in self.p.classes:
                        for s in self.p.subclasses(t):
                            g = self.p.classes[s].methods.get(f.name)
                            if g is not None and g is not f and (f.cls is not None):
                                targets.append((g, self.p.classes[s]))
                if not self.virtual(f):
                    targets = targets[:1]
                for g, gc in targets[:8]:
                    outs.append(self.call_fi(g, e, env, fr, args, star_rest, kwargs, kw_rest, rv, gc))
                return self.hook_result(fr, e, f.qual, args, kwargs, recv, env, joinall(outs))
            out = self.call_fi(f, e, env, fr, args, star_rest, kwargs, kw_rest, rv, cls)
            return self.hook_result(fr, e, f.qual, args, kwargs, recv, env, out)
        if kind == "closure":
            f, cenv, cfr = self.closures[c[1]]
            h = self.hook_call(fr, e, f.qual, args, kwargs, None, env)
            if h is not None:
                return h
            bound = self.bind(f, e, args, star_rest, kwargs, kw_rest, None, fr)
            out, exit_env = self.invoke(f, bound, fr, e, cls=f.cls, closure=c[1])
            self.writeback(f, e, env, exit_env, bound, None)
            # nonlocal/captured containers
            for k, v in exit_env.items():
                if k not in bound and k.split(".")[0] not in bound and k in cenv and k in env and env[k] == cenv[k]:
                    env[k] = join(env[k], v)
            return out
        if kind == "class":
            h = self.hook_call(fr, e, c[1], args, kwargs, None, env)
            if h is not None:
                return h
            return self.hook_result(fr, e, c[1], args, kwargs, None, env,
                                    self.construct(c[1], e, env, fr, args, star_rest, kwargs, kw_rest))
        if kind == "ext":
            h = self.hook_call(fr, e, c[1], args, kwargs, recv, env)
            if h is not None:
                return h
            return self.hook_result(fr, e, c[1], args, kwargs, recv, env,
                                    self.external(c[1], e, env, fr, args, star_rest, kwargs, kw_rest))
        rest = [x for x in (star_rest, kw_rest) if x is not None]
        return fresh(*args, *kwargs.values(), *rest)

    def virtual(self, f):
        return True

    def call_fi(self, f, e, env, fr, args, star_rest, kwargs, kw_rest, recv, cls):
        rv = recv
        if self._is_static(f):
            rv = None
        bound = self.bind(f, e, args, star_rest, kwargs, kw_rest, rv, fr)
        out, exit_env = self.invoke(f, bound, fr, e, cls=cls)
        self.writeback(f, e, env, exit_env, bound, recv if rv is not None else None)
        return out

    def bind(self, f, e, args, star_rest, kwargs, kw_rest, recv, fr):
        a = f.node.args
        pos = [x for x in a.posonlyargs + a.args]
        bound = {}
        args = ([recv] if recv is not None else []) + list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                bound[p.arg] = args[i]
        extra = args[len(pos):]
        if a.vararg:
            if star_rest is None:
                bound[a.vararg.arg] = Val(kind="seq", items=tuple(extra), ty={TUP}, nn=True)
            else:
                el = set(star_rest.reach())
                deps = set(star_rest.all_deps())
                for x in extra:
                    el |= x.reach()
                    deps |= x.all_deps()
                bound[a.vararg.arg] = Val(el=el, deps=deps, ty={TUP}, nn=True)
        ndef = len(a.defaults)
        for i, p in enumerate(pos):
            if p.arg in bound:
                continue
            if p.arg in kwargs:
                bound[p.arg] = kwargs.pop(p.arg)
                continue
            d = None
            j = i - (len(pos) - ndef)
            if j >= 0:
                d = self.default_value(f, p.arg, a.defaults[j])
            for r in (star_rest, kw_rest):
                if r is not None:
                    d = r if d is None else join(d, r)
            bound[p.arg] = d if d is not None else BOT
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                bound[p.arg] = kwargs.pop(p.arg)
            else:
                d = self.default_value(f, p.arg, dv) if dv is not None else None
                if kw_rest is not None:
                    d = kw_rest if d is None else join(d, kw_rest)
                bound[p.arg] = d if d is not None else BOT
        if a.kwarg:
            bound[a.kwarg.arg] = Val(kind="map", items=tuple(kwargs.items()), ty={DICT}, nn=True,
                                     el=kw_rest.reach() if kw_rest is not None else E,
                                     deps=kw_rest.all_deps() if kw_rest is not None else E)
        # add annotation types where unknown
        for p in pos + a.kwonlyargs:
            v = bound.get(p.arg)
            if v is not None and not v.ty and not v.is_none():
                ty = self.ann_types(p.annotation, f.module, f) or self.name_types(p.arg)
                if ty:
                    bound[p.arg] = v.but(ty=ty)
        for k, v in list(bound.items()):
            if _depth(v) > DEPTH_CAP - 1:
                bound[k] = collapse(v)
        return bound

    def default_value(self, f, pname, expr):
        v = self.global_value(expr, f.module)
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)) or (isinstance(expr, ast.Call) and v.ty & {DICT, LIST, SET}):
            v = v.but(al={f"default:{f.qual}({pname})"})
        return v

    def writeback(self, f, e, env, exit_env, bound, recv):
        """Propagate content updates of container arguments to caller variables."""
        if not exit_env:
            return
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if recv is not None and isinstance(e.func, ast.Attribute):
            if pos:
                self._wb(e.func.value, pos[0], env, exit_env, bound)
            pos = pos[1:]
        for i, x in enumerate(e.args):
            if isinstance(x, ast.Starred):
                break
            if i < len(pos):
                self._wb(x, pos[i], env, exit_env, bound)
        for k in e.keywords:
            if k.arg:
                self._wb(k.value, k.arg, env, exit_env, bound)

    def _wb(self, expr, pname, env, exit_env, bound):
        key = self.lv_key(expr)
        if key is None or pname not in bound:
            return
        old = bound[pname]
        new = exit_env.get(pname)
        if new is not None and key in env and env[key] == old and new != old:
            # keep identity, widen content
            env[key] = env[key].but(el=env[key].el | new.el, deps=env[key].deps | new.deps,
                                    kind=new.kind if new.kind == env[key].kind else env[key].kind,
                                    items=new.items if new.kind == env[key].kind else env[key].items)
        for k, v in exit_env.items():
            if k.startswith(pname + ".") and k.count(".") == 1 and key in env and key.count(".") == 0:
                env[key + k[len(pname):]] = v

    def construct(self, q, e, env, fr, args, star_rest, kwargs, kw_rest):
        c = self.p.classes[q]
        init = self.p.class_member(q, "__init__")
        rest = [x for x in (star_rest, kw_rest) if x is not None]
        new = self.p.class_member(q, "__new__")
        if init in self.p.functions:
            f = self.p.functions[init]
            selfv = Val(ty={q}, kind="obj", items=(), nn=True)
            bound = self.bind(f, e, args, star_rest, kwargs, kw_rest, selfv, fr)
            _, exit_env = self.invoke(f, bound, fr, e, cls=c)
            sn = f.params[0]
            obj = exit_env.get(sn)
            if obj is None or obj.kind != "obj":
                obj = fresh(*args, *kwargs.values(), *rest, ty={q}, el=True)
                return obj
            return obj.but(ty={q}, nn=True, al=E)
        names = []
        for qq in reversed(self.p.mro(q)):
            cc = self.p.classes.get(qq)
            if cc:
                for n in cc.annots:
                    if n not in names:
                        names.append(n)
        d = {}
        for n, v in zip(names, args):
            d[n] = v
        d.update(kwargs)
        deps, el = set(), set()
        for r in rest:
            deps |= r.all_deps()
            el |= r.reach()
        v = Val(ty={q}, kind="obj", items=tuple(d.items()), nn=True, deps=deps, el=el)
        return collapse(v) if _depth(v) > DEPTH_CAP else v

    def external(self, q, e, env, fr, args, star_rest, kwargs, kw_rest):
        rest = [x for x in (star_rest, kw_rest) if x is not None]
        allv = list(args) + list(kwargs.values()) + rest
        # out= / overwrite
        if "out" in kwargs and kwargs["out"].al:
            self.mutation(fr, e, kwargs["out"].al, f"out= argument of {q}")
        for k, v in kwargs.items():
            if k.startswith("overwrite_") and v.const is not False:
                tgt = args[0] if args else next(iter(kwargs.values()))
                for a in [tgt] + [kwargs[x] for x in ("x", "data", "a", "b") if x in kwargs]:
                    if a.al:
                        self.mutation(fr, e, a.al, f"{k}=True in {q}")
        if q == "numpy.nan_to_num" and "copy" in kwargs and kwargs["copy"].const is False and args:
            self.mutation(fr, e, args[0].al, "nan_to_num(copy=False)")
        if q in FIRST_ARG_MUT and args:
            self.mutation(fr, e, args[0].al, q)
            if e.args:
                b = args[0]
                self.update_container(e.args[0], b, None, fresh(*args[1:]), env, fr)
        if q in BIN_UFUNCS and len(args) == 3 and args[2].al:
            self.mutation(fr, e, args[2].al, f"output argument of {q}")
        if q in UN_UFUNCS and len(args) == 2 and args[1].al:
            self.mutation(fr, e, args[1].al, f"output argument of {q}")
        if q.startswith("numpy.") and q.endswith(".at") and args:
            self.mutation(fr, e, args[0].al, q)
        if q in ("builtins.setattr", "builtins.delattr", "builtins.object.__setattr__") and args:
            nm = args[1].const if len(args) > 1 and isinstance(args[1].const, str) else "?"
            self.mutation(fr, e, ext(args[0].al, f".{nm}"), q)
            if len(args) > 2 and e.args:
                self.update_container(e.args[0], args[0], None, args[2], env, fr)
            return NONE
        if q == "builtins.getattr" and len(args) >= 2 and isinstance(args[1].const, str):
            v = self.load_attr(args[0], args[1].const, e, env, fr)
            if len(args) > 2:
                v = join(v, args[2])
            return v
        if q == "builtins.getattr" and args:
            v = Val(al=ext(args[0].al, ".?"), deps=args[0].all_deps() | (args[1].all_deps() if len(args) > 1 else E))
            if len(args) > 2:
                v = join(v, args[2])
            return v
        if q in ("builtins.any", "builtins.all") and len(args) == 1 and args[0].kind == "seq":
            ts = [self.truth(x) for x in args[0].items]
            is_any = q.endswith("any")
            if any(t is is_any for t in ts):
                return const(is_any)
            if all(t is (not is_any) for t in ts):
                return const(not is_any)
        if q == "builtins.bool" and len(args) == 1:
            t = self.truth(args[0])
            if t is not None:
                return const(t)
        if q == "builtins.len" and len(args) == 1 and args[0].kind == "seq":
            return const(len(args[0].items))
        if q == "builtins.type" and len(args) == 1:
            cl = [t for t in args[0].ty if t in self.p.classes]
            if cl:
                return Val(fn={("class", t) for t in cl}, nn=True)
        if q == "builtins.vars" and args:
            return Val(al=ext(args[0].al, ".__dict__"), deps=args[0].all_deps(), ty={DICT})
        if q in ("builtins.next",) and args:
            v = self.iter_elem(args[0])
            if len(args) > 1:
                v = join(v, args[1])
            return v
        if q in ("builtins.tuple", "builtins.list", "builtins.sorted", "builtins.reversed") and len(args) == 1 and args[0].kind == "seq":
            its = args[0].items
            if q == "builtins.reversed":
                its = its[::-1]
            if q == "builtins.sorted":
                j = joinall(its)
                return Val(el=j.reach(), deps=args[0].all_deps(), ty={LIST}, nn=True)
            return Val(kind="seq", items=its, ty={EXT_TYPES.get(q, LIST)}, nn=True)
        if q in ("builtins.tuple", "builtins.list", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.set") and len(args) == 1 and args[0].kind == "hom":
            return args[0].but(al=E, ty={EXT_TYPES.get(q, LIST)})
        if q in ("builtins.tuple", "builtins.list") and len(args) == 1 and args[0].kind == "map" and not args[0].el and not args[0].deps:
            return Val(kind="seq", items=tuple(const(k) for k, _ in args[0].items), ty={EXT_TYPES[q]}, nn=True)
        if q == "builtins.zip" and args and all(a.kind == "seq" for a in args) and not rest:
            n = min(len(a.items) for a in args)
            return Val(kind="seq", items=tuple(Val(kind="seq", items=tuple(a.items[i] for a in args), ty={TUP}, nn=True) for i in range(n)), ty={LIST}, nn=True)
        if q == "builtins.zip":
            its = tuple(self.iter_elem(a) for a in args)
            if not rest:
                t = Val(kind="seq", items=its, ty={TUP}, nn=True)
                return Val(kind="hom", items=(t,), ty={LIST}, nn=True)
        if q == "builtins.enumerate" and args:
            if args[0].kind == "seq" and len(args) == 1:
                return Val(kind="seq", items=tuple(Val(kind="seq", items=(const(i), x), ty={TUP}, nn=True) for i, x in enumerate(args[0].items)), ty={LIST}, nn=True)
            x = self.iter_elem(args[0])
            t = Val(kind="seq", items=(Val(ty={"builtins.int"}, nn=True), x), ty={TUP}, nn=True)
            return Val(kind="hom", items=(t,), ty={LIST}, nn=True)
        if q in ("builtins.map", "builtins.filter") and len(args) == 2:
            x = self.iter_elem(args[1])
            if q.endswith("map"):
                x = self.call_val(args[0], [x], e, env, fr)
            return Val(kind="hom", items=(x,), ty={LIST}, nn=True)
        if q in ("functools.partial",) and args:
            f = args[0]
            pid = len(self.closures)
            self.closures[pid] = ("partial", f, tuple(args[1:]), tuple(kwargs.items()))
            return Val(fn={("partial", pid)}, nn=True, deps=frozenset().union(*[v.all_deps() for v in allv]))
        if q in ("builtins.dict", "collections.OrderedDict", "collections.ChainMap") and not star_rest:
            d, el, deps = {}, set(), set()
            for a in args:
                if a.kind == "map":
                    d.update(dict(a.items))
                    el |= a.el
                    deps |= a.deps
                elif a.kind == "obj" and False:
                    pass
                else:
                    el |= elem(a).reach() | a.el
                    deps |= a.all_deps()
            d.update(kwargs)
            if kw_rest is not None:
                el |= kw_rest.reach()
                deps |= kw_rest.all_deps()
            return Val(kind="map", items=tuple(d.items()), el=el, deps=deps, ty={DICT}, nn=True)
        if q in ("copy.deepcopy",):
            return fresh(*allv, ty=args[0].ty if args else E)
        if q in VIEW_FUNCS and args:
            a = args[0]
            if a.kind in ("seq", "hom", "map") or (a.ty and not a.ty & {ND, DF, SER}):
                return fresh(*allv, ty={ND})
            return Val(al=a.al, el=a.el if not a.al else E, deps=fresh(*allv).deps, ty={ND}, nn=True)
        if q == "numpy.array" and args and kwargs.get("copy", BOT).const in (False, None) and "copy" in kwargs:
            return Val(al=args[0].al, deps=fresh(*allv).deps, ty={ND}, nn=True)
        if q in COPY_CTORS:
            el, deps = set(), set()
            for a in allv:
                el |= elem(a).reach() if not a.kind == "seq" else a.reach()
                deps |= a.all_deps()
            t = EXT_TYPES.get(q)
            if q == "copy.copy" and args:
                return Val(el=el, deps=deps, ty=args[0].ty, nn=True)
            return Val(el=el, deps=deps, ty={t} if t else E, nn=True)
        if q == "pandas.DataFrame" and args and args[0].ty & {DF}:
            return Val(al=args[0].al, deps=fresh(*allv).deps, ty={DF}, nn=True)
        t = EXT_TYPES.get(q)
        if t is None and (q.startswith("numpy.") or q.startswith("scipy.")):
            t = ND
        if q == "pandas.concat":
            return fresh(*allv, ty={DF})
        return fresh(*allv, ty={t} if t else E)

    def call_val(self, fv, args, e, env, fr):
        outs = []
        for c in fv.fn:
            if c[0] == "partial":
                _, f, pa, pk = self.closures[c[1]]
                outs.append(self.call_val_kw(f, list(pa) + list(args), dict(pk), e, env, fr))
            else:
                outs.append(self.call_val_kw(Val(fn={c}, recv=fv.recv), args, {}, e, env, fr))
        if not outs:
            return fresh(*args)
        return joinall(outs)

    def call_val_kw(self, fv, args, kwargs, e, env, fr):
        outs = []
        for c in fv.fn:
            outs.append(self.dispatch(c, _FakeCall(e), env, fr, args, None, kwargs, None, fv.recv))
        return joinall(outs) if outs else fresh(*args, *kwargs.values())

    # -- methods on values of unknown/builtin type
    def method_call(self, e, env, fr, args, star_rest, kwargs, kw_rest, recv):
        rest = [x for x in (star_rest, kw_rest) if x is not None]
        allv = list(args) + list(kwargs.values()) + rest
        if not isinstance(e.func, ast.Attribute) or recv is None:
            v = None
            return fresh(*allv, el=False, nn=False)
        name = e.func.attr
        h = self.hook_call(fr, e, "." + name, args, kwargs, recv, env)
        if h is not None:
            return h
        out = self.method_effect(e, env, fr, name, args, kwargs, allv, recv)
        return self.hook_result(fr, e, "." + name, args, kwargs, recv, env, out)

    def method_effect(self, e, env, fr, name, args, kwargs, allv, recv):
        known = recv.ty & set(TYPED_MUT)
        is_mut = False
        if known:
            is_mut = any(name in TYPED_MUT[t] for t in known)
        elif not (recv.ty - {"none"}):
            is_mut = name in ANY_MUT
        if not known and any(t in self.p.classes for t in recv.ty):
            is_mut = False
        if not known and not is_mut and name in ("update", "sort") and getattr(e, "_discarded", False) and not isinstance(e.func.value, ast.Subscript):
            # the result is thrown away, so the call is made for its effect
            is_mut = True
        if kwargs.get("inplace", BOT).const is True:
            is_mut = True
        if name == "setflags":
            w = kwargs.get("write") or (args[0] if args else BOT)
            if w.const is not False and recv.al:
                self.mutation(fr, e, recv.al, "setflags(write=True)")
            return NONE
        if is_mut and recv.al:
            self.mutation(fr, e, recv.al, f".{name}() on it")
        if "out" in kwargs and kwargs["out"].al:
            self.mutation(fr, e, kwargs["out"].al, f"out= argument of .{name}")
        if name in ("__setattr__", "__setitem__", "__delitem__") and recv.al:
            self.mutation(fr, e, recv.al, name)
        rx = e.func.value
        # content updates
        if name in ("append", "add", "appendleft") and args:
            if recv.kind == "seq" and self.lv_key(rx) and recv.ty != frozenset({SET}) and not self._in_loop(fr):
                env[self.lv_key(rx)] = recv.but(items=recv.items + (args[-1],)) if len(recv.items) < 12 else collapse(recv)
            else:
                self.update_container(rx, recv, None, args[-1], env, fr)
            return NONE
        if name in ("extend",) and args:
            self.update_container(rx, recv, None, self.iter_elem(args[0]), env, fr)
            return NONE
        if name == "insert" and len(args) >= 2:
            self.update_container(rx, recv, None, args[-1], env, fr)
            return NONE
        if name == "update" and (recv.ty & {DICT, SET} or recv.kind == "map"):
            if recv.kind == "map":
                cur = dict(recv.items)
                el, deps = set(recv.el), set(recv.deps)
                for a in args:
                    if a.kind == "map":
                        cur.update(dict(a.items))
                        el |= a.el
                        deps |= a.deps
                    else:
                        el |= elem(a).reach()
                        deps |= a.all_deps()
                cur.update(kwargs)
                for r in [v for v in allv if v not in args and v not in kwargs.values()]:
                    el |= r.reach()
                    deps |= r.all_deps()
                key = self.lv_key(rx)
                if key:
                    nv = recv.but(items=tuple(cur.items()), el=el, deps=deps)
                    env[key] = collapse(nv) if _depth(nv) > DEPTH_CAP else nv
                return NONE
            for a in allv:
                self.update_container(rx, self.ev(rx, env, fr), None, elem(a) if a in args else a, env, fr)
            return NONE
        if name == "pop" and recv.kind == "map" and args and isinstance(args[0].const, str):
            x = recv.get(args[0].const)
            key = self.lv_key(rx)
            if key:
                env[key] = recv.but(items=tuple((k, v) for k, v in recv.items if k != args[0].const))
            if x is not None:
                return x
            dflt = args[1] if len(args) > 1 else BOT
            if recv.el or recv.deps:
                return join(dflt, Val(al=surface(recv.el), el=inner(recv.el), deps=recv.deps))
            return dflt
        if name in ("get", "pop", "setdefault"):
            if recv.kind == "map" and args and isinstance(args[0].const, (str, int)):
                x = recv.get(args[0].const)
                if x is not None:
                    return x
                dflt = args[1] if len(args) > 1 else NONE
                if not recv.el and not recv.deps:
                    return dflt
                return join(dflt, Val(al=surface(recv.el), el=inner(recv.el), deps=recv.deps))
            x = elem(collapse(recv) if recv.kind == "obj" else recv)
            if len(args) > 1:
                x = join(x, args[1])
            return x.but(deps=x.deps | fresh(*args).deps, const=NOC, nn=False)
        if name == "items":
            if recv.kind == "map" and not recv.el:
                return Val(kind="seq", items=tuple(Val(kind="seq", items=(const(k), v), ty={TUP}, nn=True) for k, v in recv.items), ty={LIST}, nn=True)
            x = elem(collapse(recv) if recv.kind == "obj" else recv)
            t = Val(kind="seq", items=(Val(deps=recv.deps, nn=True), x), ty={TUP}, nn=True)
            return Val(kind="hom", items=(t,), ty={LIST}, nn=True)
        if name == "values" and not recv.ty & {DF, SER, ND}:
            if recv.kind == "map" and not recv.el:
                return Val(kind="seq", items=tuple(v for _, v in recv.items), ty={LIST}, nn=True)
            x = elem(collapse(recv) if recv.kind == "obj" else recv)
            return Val(kind="hom", items=(x,), ty={LIST}, nn=True)
        if name == "keys":
            if recv.kind == "map" and not recv.el:
                return Val(kind="seq", items=tuple(const(k) for k, _ in recv.items), ty={LIST}, nn=True)
            return Val(deps=recv.all_deps(), ty={LIST}, nn=True)
        if name == "copy":
            deep = recv.ty & {ND, DF, SER} or kwargs.get("deep", BOT).const is True
            if recv.ty & {DF, SER} and kwargs.get("deep", BOT).const is False:
                return recv.but(const=NOC)
            if deep:
                return Val(deps=recv.all_deps(), ty=recv.ty, nn=True)
            if recv.kind:
                return recv.but(al=E)
            return Val(el=elem(recv).reach() | recv.el, deps=recv.all_deps(), ty=recv.ty, nn=True)
        if name == "astype":
            if kwargs.get("copy", BOT).const is False:
                return Val(al=recv.al, deps=recv.all_deps() | fresh(*allv).deps, ty=recv.ty)
            return fresh(recv, *allv, ty=recv.ty or {ND})
        if name in VIEW_METHODS and not (recv.ty - {ND, SER, DF}):
            return Val(al=recv.al, el=recv.el if not recv.al else E, deps=recv.all_deps() | fresh(*allv).deps, ty={ND} if recv.ty & {ND, SER, DF} else recv.ty)
        if name == "model_copy":
            return Val(el=ext(recv.al, ".*") | recv.el, deps=recv.all_deps() | fresh(*allv).deps, ty=recv.ty, nn=True)
        if name == "model_dump":
            return Val(el=E, deps=recv.all_deps(), ty={DICT}, nn=True)
        if name in ("to_dict", "split", "splitlines"):
            return fresh(recv, *allv, ty={DICT} if name == "to_dict" else {LIST})
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            return fresh(recv, *allv, ty={SET}, el=True)
        if name in ("apply", "map", "pipe", "agg", "transform") and args and args[0].fn:
            x = Val(al=recv.al if name == "pipe" else E, deps=recv.all_deps(), ty=recv.ty if name == "pipe" else E)
            return join(fresh(recv, *allv, ty=recv.ty & {DF, SER}), self.call_val_kw(args[0], [x] + list(args[1:]), {k: v for k, v in kwargs.items() if k not in ("axis",)}, e, env, fr))
        if name in ("__getitem__",) and args:
            return elem(recv)
        ty = recv.ty & {DF, SER} if not recv.ty & {ND} else {ND}
        return fresh(recv, *allv, ty=ty, nn=False)

    def _in_loop(self, fr):
        return bool(fr.breaks)


class _FakeCall:
    """Stand-in call node for indirect calls."""
    def __init__(self, e):
        self.lineno = getattr(e, "lineno", 0)
        self.col_offset = getattr(e, "col_offset", 0)
        self.args, self.keywords = [], []
        self.func = ast.Name("<indirect>", ast.Load())
