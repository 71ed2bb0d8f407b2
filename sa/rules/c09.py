"""C09: data and coordinates are re-indexed together."""
from __future__ import annotations

import ast

from .. import absint
from ..absint import Interp, Val, E, NOC, NONE, BOT, TUP, LIST, SET, DICT, ND, CM, COORD, PATCH, const, fresh, joinall, collapse
from ..model import AnalysisError
from .c09e import check_entries

ABS = "dascore.core.coordmanager.CoordManager."
LENS = {"time": 700, "distance": 500, "free": 300}
STABLE = ("sort(", "flip", "roll(", "shift", "snap(")
UNORDERED = {"builtins.int", "builtins.float", "builtins.abs_", "numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.squeeze_", "builtins.tuple", "builtins.list"}
CONTEXT = {"samples", "relative", "copy", "reverse", "update_coord"}


class Sl:
    """A constant slice whose parts are expressions."""
    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Sl) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        a, b, c = ("" if p == "None" else p for p in self.parts)
        return f"{a}:{b}" + (f":{c}" if c else "")


def hs(v):
    """{axis: set of histories} of an array or coordinate."""
    out = {}
    for x in v.deps:
        if x.startswith("h:"):
            _, p, h = x.split(":", 2)
            out.setdefault(int(p), set()).add(h)
    return out


def labels(h):
    return frozenset(f"h:{p}:{x}" for p, s in h.items() for x in s)


def has_h(v):
    return any(x.startswith("h:") for x in v.deps)


def push(history, tok):
    if tok is None:
        return history
    parts = history.split(";")
    if tok == "[::-1]":
        tok = "flip"
    if tok == "flip" and parts[-1] == "flip":
        return ";".join(parts[:-1])
    return history + ";" + tok


def vkey(v):
    """An expression standing for the value of v."""
    if v.const is not NOC:
        return repr(v.const)
    es = sorted(x[2:] for x in v.deps if x.startswith("e:"))
    if v.kind == "seq":
        return "(" + ",".join(vkey(i) for i in v.items) + ")"
    if es and not has_h(v):
        return "|".join(es)
    if has_h(v):
        return "data(" + ",".join(sorted(x[2:] for x in v.deps if x.startswith("h:"))) + ")"
    return "?"


def expr(text):
    if len(text) > 300:
        text = text[:260] + f"#{hash(text) & 0xffff:x}"
    return Val(deps={"e:" + text}, nn=True)


def seq(items, ty=LIST):
    return Val(kind="seq", items=tuple(items), ty={ty}, nn=True)


def mapping(d, ty=DICT):
    return Val(kind="map", items=tuple(d.items()), ty={ty}, nn=True)


def array(h):
    return Val(deps=labels(h), ty={ND}, nn=True)


def coordinate(h):
    return Val(deps=labels(h), ty={COORD}, nn=True)


def keyof(i):
    if i.const is not NOC and isinstance(i.const, (str, int)):
        return i.const
    if i.kind == "seq" and all(isinstance(x.const, (str, int)) for x in i.items):
        return tuple(x.const for x in i.items)
    return None


class Indexer(Interp):
    UNROLL_MIN, UNROLL = 0, 12
    CTX_LIMIT = 60
    MAX_DEPTH = 12
    LOOP_ITERS = 2

    def __init__(self, prog, cutting):
        super().__init__(prog)
        self.cutting = cutting

    def loop_items(self, it):
        if it.kind == "map" and not it.el and not it.deps and all(isinstance(k, (str, int)) for k, _ in it.items):
            return seq(const(k) for k, _ in it.items)
        return it

    # ---- lengths
    def length(self, hist):
        """A number standing for the length of an axis with these histories."""
        ns = {self.one_length(h) for h in hist}
        if len(ns) == 1:
            return next(iter(ns))
        if None in ns or ns & set(LENS.values()):
            return None
        return max(ns, default=None)

    def one_length(self, h):
        parts = h.split(";")
        if parts[0].startswith("*"):
            n = int(parts[0][1:]) if parts[0][1:] else 999
        elif parts[0] == "@":
            return None
        else:
            n = LENS.get(parts[0], 300)
        for t in parts[1:]:
            if t.startswith(("pad", "[i")):
                n += 13
            elif not t.startswith(STABLE) and self.cutting:
                n -= 7
        return n

    def shape(self, v):
        h = hs(v)
        out = []
        for p in range(len(h)):
            n = self.length(h.get(p, set()))
            out.append(const(n) if n is not None else expr(f"len({sorted(h.get(p, ()))})"))
        return out

    # ---- indexing
    def index_tokens(self, i):
        """How an index is written in a history: token, None for the identity, or a tuple of tokens."""
        c = i.const
        if isinstance(c, Sl):
            if c.parts == ("None", "None", "None") or c.parts == ("None", "None", "1"):
                return ()
            return (f"[{c!r}]",)
        if c is Ellipsis:
            return ()
        if isinstance(c, int) and not isinstance(c, bool):
            return "drop"
        if c is None:
            return "new"
        h = hs(i)
        if h and all(len(s) == 1 and next(iter(s)).split(";")[0] == "@" for s in h.values()) and len(h) == 1:
            return tuple(next(iter(h[0])).split(";")[1:])
        if i.ty and "builtins.slice" in i.ty and not any(x.startswith("e:") for x in i.deps):
            return (f"[{vkey(i)}]",)
        return (vkey(i),)

    def index(self, v, items):
        """Index array or coordinate v with one item per axis."""
        h = hs(v)
        n = len(h)
        items = list(items)
        real = [i for i in items if i.const is not None]
        if any(i.const is Ellipsis for i in items):
            at = next(k for k, i in enumerate(items) if i.const is Ellipsis)
            items[at:at + 1] = [const(Sl(("None",) * 3))] * (n - (len(real) - 1))
        out, src, dst = {}, 0, 0
        for i in items:
            t = self.index_tokens(i)
            if t == "new":
                out[dst] = {"+"}
                dst += 1
                continue
            if src not in h:
                break
            if t == "drop":
                src += 1
                continue
            new = h[src]
            for tok in t:
                new = {push(x, tok) for x in new}
            out[dst] = new
            src, dst = src + 1, dst + 1
        while src in h:
            out[dst] = h[src]
            src, dst = src + 1, dst + 1
        return v.but(deps=labels(out), al=E, el=E)

    def along(self, v, axis, tok):
        """Apply a token to one axis (or several, or all) of an array."""
        h = hs(v)
        n = len(h)
        if axis is None or axis.is_none():
            axes = list(h) if n == 1 or tok.startswith(("flip", "shift")) else None
        elif isinstance(axis.const, int):
            axes = [axis.const % n] if n else []
        elif axis.kind == "seq" and all(isinstance(a.const, int) for a in axis.items):
            axes = [a.const % n for a in axis.items]
        else:
            axes = None
        if axes is None:
            return v.but(deps=labels({p: {push(x, "??" + tok) for x in s} for p, s in h.items()}))
        for a in axes:
            if a in h:
                h[a] = {push(x, tok) for x in h[a]}
        return v.but(deps=labels(h), al=E, el=E, ty={ND})

    def e_Slice(self, e, env, fr):
        return const(Sl(vkey(self.ev(x, env, fr)) if x is not None else "None" for x in (e.lower, e.upper, e.step))).but(ty={"builtins.slice"}, nn=True)

    def e_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        if b.kind == "map":
            i = self.ev(e.slice, env, fr)
            k = keyof(i)
            if k is not None:
                x = b.get(k)
                if x is not None:
                    return x
                if "defaultdict" in b.ty:
                    return seq(())
        if has_h(b) and b.kind is None:
            i = self.ev(e.slice, env, fr)
            if i.kind == "seq" and (TUP in i.ty or not i.ty & {LIST}):
                return self.index(b, i.items)
            return self.index(b, [i])
        if b.kind is None and any(x.startswith("e:") for x in b.deps):
            return expr(f"{vkey(b)}[{vkey(self.ev(e.slice, env, fr))}]")
        return super().e_Subscript(e, env, fr)

    def update_container(self, x, base, idx, v, env, fr):
        if base.kind == "map" and idx is not None and self.lv_key(x) and keyof(idx) is not None:
            d = dict(base.items)
            d[keyof(idx)] = v
            env[self.lv_key(x)] = base.but(items=tuple(d.items()))
            return
        super().update_container(x, base, idx, v, env, fr)

    def s_Expr(self, s, env, fr):
        # D[k].append(v), D.setdefault(k, []).append(v)
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "add", "extend", "update") and len(c.args) == 1 and not c.keywords:
            inner, b, k, d = c.func.value, None, None, BOT
            if isinstance(inner, ast.Subscript) and self.lv_key(inner.value):
                b, k = self.ev(inner.value, env, fr), self.ev(inner.slice, env, fr)
                d = self.ev(inner, env, fr)
                tgt = inner.value
            elif isinstance(inner, ast.Call) and isinstance(inner.func, ast.Attribute) and inner.func.attr == "setdefault" and inner.args and self.lv_key(inner.func.value):
                b, k = self.ev(inner.func.value, env, fr), self.ev(inner.args[0], env, fr)
                tgt = inner.func.value
                if b.kind == "map" and keyof(k) is not None:
                    d = b.get(keyof(k)) or (self.ev(inner.args[1], env, fr) if len(inner.args) > 1 else NONE)
            if b is not None and b.kind == "map" and keyof(k) is not None and d.kind == "seq":
                v = self.ev(c.args[0], env, fr)
                more = (v,) if c.func.attr in ("append", "add") else v.items if v.kind == "seq" else None
                if more is not None:
                    self.update_container(tgt, b, k, d.but(items=d.items + tuple(more)), env, fr)
                    return env
        return super().s_Expr(s, env, fr)

    def method_effect(self, e, env, fr, name, args, kwargs, allv, recv):
        key = self.lv_key(e.func.value)
        if recv.kind == "seq" and key:
            if name in ("append", "add") and len(args) == 1:
                if name == "append" or args[0] not in recv.items:
                    env[key] = recv.but(items=recv.items + (args[0],))
                return NONE
            if name in ("extend", "update") and len(args) == 1 and self.loop_items(args[0]).kind == "seq":
                env[key] = recv.but(items=recv.items + self.loop_items(args[0]).items)
                return NONE
            if name in ("remove", "discard") and len(args) == 1 and args[0] in recv.items:
                its = list(recv.items)
                its.remove(args[0])
                env[key] = recv.but(items=tuple(its))
                return NONE
        if recv.kind == "seq" and name in ("union", "difference", "intersection") and len(args) == 1 and self.loop_items(args[0]).kind == "seq":
            return self.set_op({"union": "|", "difference": "-", "intersection": "&"}[name], recv, self.loop_items(args[0]))
        return super().method_effect(e, env, fr, name, args, kwargs, allv, recv)

    # ---- conditions
    def e_Set(self, e, env, fr):
        v = self._display(e.elts, env, fr, SET)
        return seq(dict.fromkeys(v.items), SET) if v.kind == "seq" else v

    def cond(self, e, env, fr):
        if isinstance(e, ast.Call) and len(e.args) == 2 and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr"):
            v = self.ev(e.args[0], env, fr)
            r = None
            if e.func.id == "isinstance":
                r = self.instance(v, self.isinstance_types(e.args[1], fr) or set(), ast.unparse(e.args[1]))
            elif COORD in v.ty and has_h(v) and self.ev(e.args[1], env, fr).const in ("model_dump", "select", "shape", "data", "values"):
                r = True
            elif ND in v.ty and has_h(v) and self.ev(e.args[1], env, fr).const in ("model_dump",):
                r = False
            if r is not None:
                return r, (env if r else None), (None if r else env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)) and self.differ(self.ev(e.left, env, fr), self.ev(e.comparators[0], env, fr)):
            r = isinstance(e.ops[0], ast.NotEq)
            return r, (env if r else None), (None if r else env)
        return super().cond(e, env, fr)

    def instance(self, v, types, text):
        names = {t.rsplit(".", 1)[-1] for t in types} | {x.strip(" ()").rsplit(".", 1)[-1] for x in text.replace("|", ",").split(",")}
        if v.kind == "seq" and v.ty & {TUP, LIST, SET}:
            own = {TUP: {"tuple", "Sequence", "Sized", "Iterable", "Collection"}, LIST: {"list", "Sequence", "Sized", "Iterable", "Collection"}, SET: {"set", "Sized", "Iterable", "Collection"}}[sorted(v.ty & {TUP, LIST, SET})[0]]
            return bool(own & names)
        if v.kind == "map":
            return bool(names & {"dict", "Mapping", "FrozenDict", "Sized", "Iterable", "Collection"})
        if v.kind is None and COORD in v.ty and has_h(v):
            if "BaseCoord" in names:
                return True
            return None if any(n.startswith("Coord") for n in names) else False if names <= {"tuple", "list", "dict", "Mapping", "str", "int", "float", "set", "ndarray", "Patch", "DataArray", "slice"} else None
        if v.kind is None and ND in v.ty and has_h(v):
            return True if "ndarray" in names else False if names <= {"tuple", "list", "dict", "Mapping", "str", "int", "float", "set", "Patch", "DataArray", "BaseCoord", "slice"} else None
        if v.kind == "obj" and v.ty & {PATCH, CM}:
            own = sorted(v.ty & {PATCH, CM})[0].rsplit(".", 1)[-1]
            return True if own in names else False if names <= {"tuple", "list", "dict", "Mapping", "str", "int", "float", "set", "Patch", "DataArray", "BaseCoord", "slice", "ndarray", "CoordManager"} else None
        if isinstance(v.const, Sl):
            return "slice" in names
        return None

    # ---- sets
    def set_op(self, op, l, r):
        a, b = list(dict.fromkeys(l.items)), list(dict.fromkeys(r.items))
        got = {"-": lambda: [x for x in a if x not in b], "&": lambda: [x for x in a if x in b],
               "|": lambda: a + [x for x in b if x not in a],
               "^": lambda: [x for x in a if x not in b] + [x for x in b if x not in a]}[op]()
        return seq(got, SET)

    def e_BinOp(self, e, env, fr):
        ops = {ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
        if type(e.op) in ops:
            l, r = self.loop_items(self.ev(e.left, env, fr)), self.loop_items(self.ev(e.right, env, fr))
            if l.kind == "seq" and r.kind == "seq":
                return self.set_op(ops[type(e.op)], l, r)
        l, r = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
        if l.kind is None and r.kind is None and not (l.const is not NOC and r.const is not NOC):
            if has_h(l) or has_h(r):
                big = max((l, r), key=lambda v: len(hs(v)))
                if len(hs(l)) == len(hs(r)):
                    return array({p: s | hs(r)[p] for p, s in hs(l).items()})
                return array(hs(big))
            if any(x.startswith("e:") for x in l.deps | r.deps):
                return expr(f"({vkey(l)}{type(e.op).__name__}{vkey(r)})")
        return super().e_BinOp(e, env, fr)

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.Invert) and (has_h(v) or any(x.startswith("e:") for x in v.deps)):
            return self.inverted(v)
        if isinstance(e.op, ast.USub) and v.const is NOC and v.kind is None and not has_h(v) and any(x.startswith("e:") for x in v.deps):
            return expr(f"-({vkey(v)})")
        return super().e_UnaryOp(e, env, fr)

    def inverted(self, v):
        k = vkey(v)
        return expr(k[2:-1] if k.startswith("~(") and k.endswith(")") and k.count("(") == k.count(")") and "|" not in k else f"~({k})")

    def differ(self, l, r):
        """Different coordinates are taken to differ: the case in which something is re-indexed."""
        return l != r and (COORD in l.ty & r.ty and l.kind is None is r.kind or CM in l.ty & r.ty and l.kind == r.kind == "obj")

    def e_Compare(self, e, env, fr):
        v = super().e_Compare(e, env, fr)
        if v.const is not NOC or len(e.ops) != 1 or isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return v if v.const is not NOC else Val(deps=frozenset(x for x in v.deps if x.startswith("e:")))
        l, r = self.ev(e.left, env, fr), self.ev(e.comparators[0], env, fr)
        if self.differ(l, r) and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            return const(isinstance(e.ops[0], ast.NotEq))
        if type(l.const) is int and type(r.const) is int:
            return const({ast.Lt: l.const < r.const, ast.LtE: l.const <= r.const, ast.Gt: l.const > r.const, ast.GtE: l.const >= r.const}.get(type(e.ops[0]), l.const == r.const if isinstance(e.ops[0], ast.Eq) else l.const != r.const))
        if has_h(l) or has_h(r) or any(x.startswith("e:") for x in l.deps | r.deps):
            return expr(f"({vkey(l)}{type(e.ops[0]).__name__}{vkey(r)})")
        return v

    # ---- attributes
    def load_attr(self, b, name, node, env, fr):
        if b.kind == "seq" and len(b.items) == 3 and "dimaxis" in b.ty and name in ("dim", "axis", "value"):
            return b.items[("dim", "axis", "value").index(name)]
        if COORD in b.ty and has_h(b):
            v = super().load_attr(b, name, node, env, fr) if self.is_method(COORD, name) else None
            if v is not None and v.fn:
                return v
            if name in ("values", "data"):
                return array(hs(b))
            if name == "shape":
                return seq(self.shape(b), TUP)
            if name == "ndim":
                return const(len(hs(b)))
            if name in ("sorted", "reverse_sorted", "_partial", "degenerate"):
                return const(False)
            if name == "size" and len(hs(b)) == 1:
                return self.shape(b)[0]
            return Val(deps={f"e:{name}({vkey(b)})"})
        if ND in b.ty and has_h(b):
            if name == "shape":
                return seq(self.shape(b), TUP)
            if name == "ndim":
                return const(len(hs(b)))
            if name == "T":
                h = hs(b)
                return array({len(h) - 1 - p: s for p, s in h.items()})
            if name in ("dtype", "size", "itemsize", "nbytes"):
                return Val(deps=E)
            if name in ("real", "imag"):
                return b
        if b.kind == "obj" and CM in b.ty:
            d, m = b.get("dims"), b.get("coord_map")
            if name == "shape" and d is not None and d.kind == "seq" and m is not None and m.kind == "map":
                its = [m.get(x.const) for x in d.items]
                if all(i is not None and has_h(i) for i in its):
                    return seq([self.shape(i)[0] for i in its], TUP)
            if name == "ndim" and d is not None and d.kind == "seq":
                return const(len(d.items))
            if m is not None and m.kind == "map" and m.get(name) is not None:
                return m.get(name)
        if b.kind == "obj" and PATCH in b.ty:
            c, a = b.get("coords"), b.get("data")
            if name in ("shape", "ndim") and a is not None:
                return self.load_attr(a, name, node, env, fr)
            if name == "dims" and c is not None:
                return self.load_attr(c, "dims", node, env, fr)
            if name == "attrs":
                return Val(nn=True)
        return super().load_attr(b, name, node, env, fr)

    def is_method(self, cls, name):
        q = self.p.class_member(cls, name)
        f = self.p.functions.get(q) if q else None
        if f is None:
            for s in self.p.subclasses(cls):
                f = f or self.p.classes[s].methods.get(name)
        if f is None:
            return False
        return not any("property" in d for d in self._decs(f))

    # ---- managers and patches
    def manager(self, coords, dims):
        if coords is None:
            return None
        if coords.kind == "obj" and CM in coords.ty:
            if dims is not None and dims.kind == "seq" and coords.get("dims") != dims:
                return coords.but(items=tuple({**dict(coords.items), "dims": dims.but(ty={TUP})}.items()))
            return coords
        if coords.kind != "map" or coords.el:
            return None
        cm, dm = {}, {}
        for k, v in coords.items:
            if v.kind == "seq" and len(v.items) == 2:
                ds, c = v.items
                ds = seq((), TUP) if ds.is_none() else seq((ds,), TUP) if isinstance(ds.const, str) else ds
            else:
                ds, c = seq((const(k),), TUP), v
            if not has_h(c) and c.kind is None:
                c = coordinate({0: {"*"}})
            cm[k], dm[k] = c.but(ty={COORD}), ds
        if dims is None or dims.kind != "seq":
            dims = seq([const(k) for k, v in dm.items() if v.kind == "seq" and [i.const for i in v.items] == [k]], TUP)
        return Val(kind="obj", ty={CM}, nn=True, items=(("dims", dims.but(ty={TUP})), ("coord_map", mapping(cm)), ("dim_map", mapping(dm))))

    def patch(self, got, base=None):
        data, coords, dims = got.get("data"), got.get("coords"), got.get("dims")
        if base is not None:
            data = base.get("data") if data is None or data.is_none() else data
            if coords is None or coords.is_none():
                coords = base.get("coords")
        cm = self.manager(coords, dims if dims is not None and not dims.is_none() else base.get("coords").get("dims") if base is not None and coords is not None and coords.kind == "map" else None)
        return Val(kind="obj", ty={PATCH}, nn=True, items=(("data", data or BOT), ("coords", cm or coords or BOT)))

    # ---- calls
    def hook_call(self, fr, node, qual, args, kwargs, recv, env):
        last = qual.rsplit(".", 1)[-1]
        h = getattr(self, "c_" + last.strip("_"), None)
        if recv is not None and has_h(recv) and recv.kind is None and COORD in recv.ty:
            return self.coord_call(last, args, kwargs, recv)
        if recv is not None and has_h(recv) and recv.kind is None:
            return self.array_call(last, args, kwargs, recv)
        if recv is not None and recv.kind == "obj" and PATCH in recv.ty:
            if last in ("new", "update") and not qual.startswith("."):
                got = dict(zip(("data", "coords", "dims", "attrs"), args))
                got.update(kwargs)
                return self.patch(got, recv)
            if last == "assert_has_coords" or last.startswith("check_"):
                return NONE
        if qual == PATCH:
            got = dict(zip(("data", "coords", "dims", "attrs"), args))
            got.update(kwargs)
            return self.patch(got)
        if last == "from_parts" and recv is not None:
            return self.patch(dict(zip(("data", "coords"), args)))
        if qual.startswith("dascore.core.coordmanager.get_coord_manager"):
            m = self.manager(kwargs.get("coords", args[0] if args else None), kwargs.get("dims", args[1] if len(args) > 1 else None))
            return m
        if qual == "dascore.core.coords.get_coord":
            every = joinall([collapse(v) for v in list(args) + list(kwargs.values())]) if args or kwargs else BOT
            return coordinate(hs(every) or {0: {"*"}})
        if qual.startswith("dascore.") and h is not None:
            return h(args, kwargs)
        if last in ("append_dims",) and recv is not None and recv.kind == "obj":
            return recv
        if last == "transpose" and recv is not None and recv.kind == "obj" and PATCH in recv.ty and recv.get("coords").get("dims").kind == "seq" and sorted(str(a.const) for a in args) == sorted(str(d.const) for d in recv.get("coords").get("dims").items):
            old = [d.const for d in recv.get("coords").get("dims").items]
            h = hs(recv.get("data"))
            data = array({p: h.get(old.index(a.const), set()) for p, a in enumerate(args)})
            man = recv.get("coords")
            man = man.but(items=tuple({**dict(man.items), "dims": seq(args, TUP)}.items()))
            return recv.but(items=(("data", data), ("coords", man)))
        if qual.endswith("FrozenDict"):
            m = args[0] if args else mapping(kwargs)
            return m.but(ty={DICT}, al=E) if m.kind == "map" else None
        if qual.startswith("."):
            return self.plain_method(last, args, kwargs, recv)
        if qual.startswith("builtins."):
            return self.builtin(last, args, kwargs)
        if qual == "collections.defaultdict":
            return Val(kind="map", items=(), ty={DICT, "defaultdict"}, nn=True)
        if qual.endswith("zip_longest") and all(a.kind == "seq" for a in args):
            n = max((len(a.items) for a in args), default=0)
            fill = kwargs.get("fillvalue", NONE)
            return seq(seq([a.items[i] if i < len(a.items) else fill for a in args], TUP) for i in range(n))
        if not qual.startswith("dascore."):
            return self.numerics(qual, last, args, kwargs)
        return None

    def coord_call(self, name, args, kwargs, recv):
        h = hs(recv)
        vals = [v for k, v in kwargs.items() if k not in CONTEXT]
        if name in ("select", "order", "sort"):
            tok = f"{name}({','.join(vkey(v) for v in list(args) + vals)})"
            return seq((self.index(recv, [expr(tok)]), expr(tok)), TUP)
        if name == "align_to" and args:
            other = args[0]
            a, b = f"align<({vkey(recv)},{vkey(other)})", f"align>({vkey(recv)},{vkey(other)})"
            return seq((self.index(recv, [expr(a)]), self.index(other, [expr(b)]), expr(a), expr(b)), TUP)
        if name == "index":
            ind = kwargs.get("indexer", args[0] if args else None)
            ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
            if ind is None:
                return None
            if ax is None or ax.is_none():
                return self.index(recv, ind.items if ind.kind == "seq" and TUP in ind.ty else [ind])
            if isinstance(ax.const, int):
                its = [const(Sl(("None",) * 3))] * len(h)
                if ax.const % max(len(h), 1) < len(its):
                    its[ax.const] = ind
                return self.index(recv, its)
            return recv.but(deps=labels({p: {push(x, "??") for x in s} for p, s in h.items()}))
        if name == "getitem":
            return self.index(recv, args)
        if name in ("__getitem__",) and args:
            return self.index(recv, args[0].items if args[0].kind == "seq" else args)
        if name in ("update", "new", "update_data"):
            d = kwargs.get("values", kwargs.get("data"))
            if name == "update_data" and d is None and args:
                d = args[0]
            if d is not None and not d.is_none():
                return coordinate(hs(d)) if has_h(d) else coordinate({0: {"*"}})
            return recv
        if name == "change_length" and args:
            n = args[0].const
            return coordinate({0: {f"*{n}" if isinstance(n, int) else "*"}})
        if name == "empty":
            return self.index(recv, [const(Sl(("0", "0", "None")))])
        if name in ("min", "max", "get_sample_count", "get_next_index", "coord_range", "to_summary", "get_query", "_get_index", "get_slice_tuple"):
            return expr(f"{name.strip('_')}({','.join([vkey(recv)] + [vkey(v) for v in list(args) + vals])})")
        if name == "__len__":
            return self.shape(recv)[0]
        if name == "model_dump":
            return Val(kind="map", items=(("data", array(h)),), ty={DICT}, nn=True)
        if name == "equals":
            return Val()
        return recv

    def array_call(self, name, args, kwargs, recv):
        ax = kwargs.get("axis")
        if name == "take" and args:
            return self.numerics("numpy.take", "take", [recv] + args, kwargs)
        if name == "transpose":
            return self.numerics("numpy.transpose", "transpose", [recv] + ([seq(args, TUP)] if len(args) > 1 else args), kwargs)
        if name in ("any", "all", "sum", "min", "max", "mean", "argsort", "argmin", "argmax", "nonzero"):
            return expr(f"{name}({','.join([vkey(recv)] + [vkey(v) for v in args])},{vkey(ax) if ax else ''})")
        if name in ("astype", "copy", "view", "conj", "round", "clip", "fillna", "filled"):
            return recv
        if name in ("tolist", "item"):
            return expr(f"{name}({vkey(recv)})")
        if name == "__getitem__" and args:
            return self.index(recv, args[0].items if args[0].kind == "seq" else args)
        return None

    def plain_method(self, name, args, kwargs, recv):
        if recv is None:
            return None
        if recv.kind == "seq" and name == "index" and args:
            if args[0] in recv.items:
                return const(recv.items.index(args[0]))
            ks = [i.const for i in recv.items]
            if args[0].const is not NOC and args[0].const in ks:
                return const(ks.index(args[0].const))
        if recv.kind == "seq" and name in ("issubset", "issuperset", "isdisjoint") and args and self.loop_items(args[0]).kind == "seq":
            a, b = {vkey(i) for i in recv.items}, {vkey(i) for i in self.loop_items(args[0]).items}
            return const(a <= b if name == "issubset" else a >= b if name == "issuperset" else not a & b)
        if recv.kind == "seq" and name == "count" and args:
            return const(sum(i == args[0] for i in recv.items))
        if recv.kind == "seq" and name == "copy":
            return recv
        if recv.kind is None and recv.const is NOC and any(x.startswith("e:") for x in recv.deps) and not recv.ty & {DICT, LIST}:
            return expr(f"{name}({','.join([vkey(recv)] + [vkey(v) for v in args])})")
        return None

    def builtin(self, name, args, kwargs):
        a = args[0] if args else None
        if name == "len" and a is not None:
            if has_h(a) and a.kind is None:
                return self.shape(a)[0] if self.shape(a) else expr("len")
            if a.kind in ("seq",):
                return const(len(a.items))
            if a.kind == "map" and not a.el:
                return const(len(a.items))
            return expr(f"len({vkey(a)})")
        if name == "slice":
            parts = [vkey(v) for v in args]
            parts = ["None"] + parts + ["None"] if len(parts) == 1 else parts + ["None"] * (3 - len(parts))
            return const(Sl(parts)).but(ty={"builtins.slice"}, nn=True)
        if name in ("set", "frozenset"):
            if a is None:
                return seq((), SET)
            s = self.loop_items(a)
            if s.kind == "seq":
                return seq(dict.fromkeys(s.items), SET)
        if name in ("list", "tuple") and a is None:
            return seq((), LIST if name == "list" else TUP)
        if name in ("list", "tuple", "sorted", "iter") and a is not None:
            s = self.loop_items(a)
            if s.kind == "seq":
                its = list(s.items)
                if name == "sorted" and all(isinstance(i.const, str) for i in its) and not kwargs:
                    its.sort(key=lambda i: i.const)
                return seq(its, {"tuple": TUP}.get(name, LIST))
            if has_h(a):
                return a
        if name == "next" and a is not None and a.kind == "seq" and a.items:
            return a.items[0]
        if name == "range" and len(args) == 1 and isinstance(a.const, int) and 0 <= a.const <= 8:
            return seq(const(i) for i in range(a.const))
        if name == "range" and a is not None and a.const is NOC and len(args) == 1:
            return None
        if name in ("min", "max", "abs", "int", "bool") and args and not kwargs:
            ops = list(a.items) if len(args) == 1 and a.kind == "seq" else args
            if ops and all(isinstance(x.const, int) for x in ops):
                vs = [x.const for x in ops]
                return const({"min": min, "max": max, "abs": lambda v: abs(v[0]), "int": lambda v: int(v[0]), "bool": lambda v: bool(v[0])}[name](vs))
        if name in ("int", "float", "abs") and a is not None and a.const is NOC and len(args) == 1 and name != "abs":
            return a
        if name == "getattr" and len(args) >= 2 and isinstance(args[1].const, str) and args[0].kind != "obj" and has_h(args[0]):
            return self.load_attr(args[0], args[1].const, None, {}, None) if not self.is_method(COORD, args[1].const) else Val(fn={("bound", self.p.class_member(COORD, args[1].const))}, recv=args[0], nn=True)
        return None

    def numerics(self, qual, last, args, kwargs):
        a = args[0] if args else kwargs.get("a", kwargs.get("x"))
        axis = kwargs.get("axis", kwargs.get("axes"))
        if last == "arange" and len(args) == 1:
            return array({0: {"@"}})
        if a is not None and a.kind is None and has_h(a):
            if last == "roll":
                s = kwargs.get("shift", args[1] if len(args) > 1 else BOT)
                return self.along(a, axis or (args[2] if len(args) > 2 else None), f"roll({vkey(s)})")
            if last == "flip":
                return self.along(a, axis or (args[1] if len(args) > 1 else None), "flip")
            if last in ("flipud", "fliplr"):
                return self.along(a, const(0 if last == "flipud" else 1), "flip")
            if last in ("fftshift", "ifftshift"):
                return self.along(a, axis or (args[1] if len(args) > 1 else None), "shift" if last == "fftshift" else "shift-1")
            if last in ("take", "compress", "delete", "repeat"):
                i = kwargs.get("indices", args[1] if len(args) > 1 else BOT)
                ax = axis or (args[2] if len(args) > 2 else None)
                if last == "take" and ax is not None and isinstance(ax.const, int):
                    its = [const(Sl(("None",) * 3))] * len(hs(a))
                    its[ax.const] = i
                    return self.index(a, its)
                return self.along(a, ax, f"{last}({vkey(i)})")
            if last == "decimate" and len(args) > 1:
                return self.along(a, axis or (args[4] if len(args) > 4 else const(len(hs(a)) - 1)), f"[::{vkey(args[1])}]")
            if last == "pad":
                w = kwargs.get("pad_width", args[1] if len(args) > 1 else BOT)
                h = hs(a)
                if w.kind == "seq" and len(w.items) == len(h) and (len(h) > 1 or w.items[0].kind == "seq"):
                    for p, it in enumerate(w.items):
                        if it.kind == "seq" and all(x.const == 0 for x in it.items):
                            continue
                        h[p] = {push(x, f"pad({vkey(it)})") for x in h[p]}
                    return array(h)
                return array({p: {push(x, f"pad({vkey(w)})") for x in s} for p, s in h.items()})
            if last in ("sort",):
                return self.along(a, axis or const(-1), "values-sorted")
            if last in ("argsort", "searchsorted", "lexsort", "nonzero", "flatnonzero", "unique", "digitize", "argmin", "argmax"):
                return expr(f"{last}({','.join(vkey(v) for v in args)})")
            if last == "transpose":
                ax = axis or (args[1] if len(args) > 1 else None)
                h = hs(a)
                if ax is None or ax.is_none():
                    return array({len(h) - 1 - p: s for p, s in h.items()})
                if ax.kind == "seq" and all(isinstance(i.const, int) for i in ax.items):
                    return array({n: h.get(i.const, set()) for n, i in enumerate(ax.items)})
                return array({p: {push(x, "??transpose") for x in s} for p, s in h.items()})
            if last == "shape":
                return seq(self.shape(a), TUP)
            if last == "ndim":
                return const(len(hs(a)))
            if last in ("any", "all", "sum", "mean", "max", "min", "nansum", "count_nonzero"):
                return expr(f"{last}({vkey(a)},{vkey(axis) if axis is not None else ''})")
            if last in ("invert", "logical_not"):
                return self.inverted(a)
            return array(hs(a))
        if last in ("invert", "logical_not") and a is not None:
            return self.inverted(a)
        if last in ("asarray", "array", "asanyarray", "ascontiguousarray") and a is not None and a.kind is None:
            return a
        every = list(args) + list(kwargs.values())
        if last == "where" and len(args) == 1 and a is not None:
            return expr(f"where({vkey(a)})")
        if qual.split(".")[0] in ("numpy", "scipy", "pandas") and any(x.startswith("e:") for v in every for x in v.all_deps()):
            return expr(f"{last}({','.join(vkey(v) for v in args)})")
        return None

    # ---- functions of the package with a known meaning
    def c_iterate(self, args, kwargs):
        a = args[0] if args else BOT
        if a.is_none():
            return seq((), TUP)
        if isinstance(a.const, str):
            return seq((a,), TUP)
        if isinstance(a.const, int):
            return seq((a,), TUP)
        if a.kind == "seq":
            return a
        return None

    def c_is_array(self, args, kwargs):
        return Val()

    def c_matches_prefix_suffix(self, args, kwargs):
        if args and isinstance(args[0].const, str):
            return const(args[0].const.rsplit("_", 1)[-1] in ("step", "min", "max", "units"))
        return None

    def c_get_dim_axis_value(self, args, kwargs):
        p, kw, ar = args[0], kwargs.get("kwargs"), kwargs.get("args")
        dims = p.get("coords").get("dims") if p.kind == "obj" and p.get("coords") is not None and p.get("coords").kind == "obj" else None
        if dims is None or dims.kind != "seq":
            return None
        ds = [i.const for i in dims.items]
        out = []
        if kw is not None and kw.kind == "map":
            out += [Val(kind="seq", items=(const(k), const(ds.index(k)), v), ty={TUP, "dimaxis"}, nn=True) for k, v in kw.items if k in ds]
        if ar is not None and ar.kind == "seq":
            out += [Val(kind="seq", items=(i, const(ds.index(i.const)), NONE), ty={TUP, "dimaxis"}, nn=True) for i in ar.items if i.const in ds]
        return seq(out, TUP)

    def c_maybe_array_to_slice(self, args, kwargs):
        return args[0] if args else None

    def c_merge_tuples(self, args, kwargs):
        if len(args) == 2 and all(a.kind == "seq" for a in args):
            return seq(self.set_op("|", *args).items, TUP)
        return None

    def c_optional_import(self, args, kwargs):
        return None


def world(order=("time", "distance"), names=("time", "distance", "tq", "td", "dt", "free")):
    dims = {"time": ("time",), "distance": ("distance",), "tq": ("time",), "dq": ("distance",), "td": ("time", "distance"), "dt": ("distance", "time"), "free": ()}
    cm = {}
    for n in names:
        h = {p: {d} for p, d in enumerate(dims[n])} or {0: {"free"}}
        cm[n] = coordinate(h)
    dm = {n: seq([const(d) for d in dims[n]], TUP) for n in names}
    man = Val(kind="obj", ty={CM}, nn=True, items=(("dims", seq([const(d) for d in order], TUP)), ("coord_map", mapping(cm)), ("dim_map", mapping(dm))))
    data = array({p: {d} for p, d in enumerate(order)})
    return man, data, Val(kind="obj", ty={PATCH}, nn=True, items=(("data", data), ("coords", man)))


def flatten(v):
    """The (manager, data) pairs a result holds."""
    if v.kind == "obj" and PATCH in v.ty:
        yield v.get("coords"), v.get("data")
    elif v.kind == "seq" and len(v.items) >= 2 and v.items[0].kind == "obj" and CM in v.items[0].ty:
        yield v.items[0], v.items[1]
    elif v.kind in ("seq", "hom"):
        for i in v.items:
            yield from flatten(i)


def compare(man, data):
    """(decided obligations, [(coordinate, dim, coordinate history, data history)])"""
    bad, n = [], 0
    if man is None or man.kind != "obj" or data is None or data.kind is not None:
        return 0, bad
    dims, cm, dm = man.get("dims"), man.get("coord_map"), man.get("dim_map")
    if any(x is None for x in (dims, cm, dm)) or dims.kind != "seq" or cm.kind != "map" or dm.kind != "map" or cm.el:
        return 0, bad
    h = hs(data)
    order = [d.const for d in dims.items]
    if len(h) != len(order):
        return 0, bad
    for name, c in cm.items:
        ds = dm.get(name)
        if ds is None or ds.kind != "seq" or not has_h(c):
            continue
        ch = hs(c)
        for k, d in enumerate(ds.items):
            if d.const not in order or k not in ch:
                continue
            want, got = h[order.index(d.const)], ch[k]
            if any(x.startswith("*") for x in got) or "+" in want:
                continue
            if any("?" in x for x in want | got):
                continue
            n += 1
            if want != got:
                bad.append((name, d.const, got, want))
    return n, bad


def show(hist):
    out = []
    for h in sorted(hist):
        p = h.split(";")[1:]
        out.append(" then ".join(x[:70] for x in p) if p else "nothing")
    return " or ".join(out)


def u(name):
    return Val(deps={"e:" + name}, nn=True)


SINGLE = (("time",), ("distance",), ("tq",), ("time", "distance"), ("distance", "tq"), ("time", "tq"))
DIM1 = (("time",), ("distance",))
# entry, positional scenarios / keyword scenarios, extra keyword arguments, does it take part when samples are only permuted, when some are cut
MANAGER = (
    ("select", None, SINGLE, {}, (True, False)),
    ("order", None, SINGLE, {}, (True, False)),
    ("sort", (("time",), ("distance",), ("time", "distance"), ("tq",), ()), None, {}, (False,)),
    ("snap", (("time",), ("distance",), ()), None, {}, (False,)),
)
PATCHES = (
    ("select", None, SINGLE, {}, (True, False)),
    ("order", None, SINGLE, {}, (True, False)),
    ("sort_coords", (("time",), ("distance",), ("time", "distance"), ("tq",), ()), None, {}, (False,)),
    ("snap_coords", (("time",), ("distance",), ()), None, {}, (False,)),
    ("dropna", DIM1, None, {}, (True,)),
    ("pad", None, DIM1 + (("time", "distance"),), {}, (True,)),
    ("roll", None, DIM1, {"update_coord": True}, (False,)),
    ("flip", DIM1 + (("time", "distance"),), None, {}, (False,)),
    ("decimate", None, DIM1, {"filter_type": None}, (True,)),
    ("decimate", None, DIM1, {}, (True,)),
    ("correlate_shift", DIM1, None, {}, (False,)),
    ("transpose", (("distance", "time"),), None, {}, (False,)),
)


def run(ctx):
    absint.DEPTH_CAP = 9
    prog = ctx.prog
    ctx.rule("every operation that re-indexes is interpreted abstractly on a patch of dimensions (time, distance) with coordinates on time, on distance, on both in either order and on none: each axis of the data and of every coordinate carries the "
             "sequence of index expressions applied to it; at the end the sequence of each coordinate along a dimension must equal that of the data along the same dimension, or the coordinate must be gone")
    ctx.rule("each operation is interpreted along each dimension, along both, for a coordinate that is no dimension, with both orders of the dimensions, and for indices that shorten and that only permute")
    ctx.assumptions.append("numpy indexing, roll, flip, take, pad, fftshift and scipy.signal.decimate do what they document; a coordinate's select, order, sort and align_to return the coordinate indexed with the index they return (checked for their return statements); coordinates computed anew along a dimension are right (other properties)")
    for name, pos, kws, extra, modes in MANAGER:
        q = prog.class_member(CM, name)
        fi = prog.functions.get(q) if q else None
        if fi is None:
            raise AnalysisError(f"no CoordManager.{name}")
        run_all(ctx, prog, fi, name, pos, kws, extra, modes, manager=True)
    for name, pos, kws, extra, modes in PATCHES:
        q = prog.class_member(PATCH, name)
        fi = prog.functions.get(q) if q else None
        if fi is None:
            raise AnalysisError(f"no Patch.{name}")
        run_all(ctx, prog, fi, "Patch." + name, pos, kws, extra, modes, manager=False)
    run_align(ctx, prog)
    run_coords(ctx, prog)
    ctx.rule("where entries are built for several coordinates in turn, the values and dimensions of each entry come from the coordinate of that name")
    check_entries(ctx, prog)
    ctx.require("scenarios", 60)
    ctx.require("obligations", 150)
    ctx.require("coordinate_pairs", 6)
    ctx.require("entries_by_name", 3)


def run_all(ctx, prog, fi, label, pos, kws, extra, modes, manager):
    for order in (("time", "distance"), ("distance", "time")):
        for names in (("time", "distance", "tq", "td", "dt", "free"),):
            for cutting in modes:
                for choice in pos if pos is not None else kws:
                    man, data, pat = world(order, names)
                    a = fi.node.args
                    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                    bound = {ps[0]: man if manager else pat}
                    it = Indexer(prog, cutting)
                    defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
                    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                    free = []
                    for p in ps[1:]:
                        if p == "array":
                            bound[p] = data
                        elif p in extra:
                            bound[p] = const(extra[p])
                        elif p in defaults:
                            bound[p] = it.default_value(fi, p, defaults[p])
                        else:
                            free.append(p)
                    if pos is not None:
                        if a.vararg:
                            bound[a.vararg.arg] = seq([const(c) for c in choice], TUP)
                        else:
                            for p, c in zip([p for p in ps[1:] if p != "array"], choice):
                                bound[p] = const(c)
                    for p in free:
                        bound.setdefault(p, BOT)
                    if a.kwarg:
                        bound[a.kwarg.arg] = mapping({c: u(f"v_{c}") for c in choice} if kws is not None else {})
                    ret, _ = it.run_entry(fi, bound, cls=prog.classes.get(CM if manager else PATCH))
                    judge(ctx, fi, label, order, cutting, choice, extra, ret, it)


def run_align(ctx, prog):
    """Two patches that share dimensions are aligned: each one's data and coordinates alike."""
    q = "dascore.utils.patch.align_patch_coords"
    fi = prog.functions.get(q)
    if fi is None:
        raise AnalysisError(f"no {q}")
    for order1 in (("time", "distance"), ("distance", "time")):
        for order2 in (("time", "distance"), ("distance", "time")):
            for cutting in (True, False):
                it = Indexer(prog, cutting)
                pats = []
                for order, tag in ((order1, ""), (order2, "'")):
                    man, data, pat = world(order)
                    if tag:
                        man, data, pat = (renamed(v) for v in (man, data, pat))
                    pats.append(pat)
                ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
                ret, _ = it.run_entry(fi, dict(zip(ps, pats)))
                judge(ctx, fi, "align_patch_coords", order1, cutting, (",".join(order2),), {}, ret, it)


def renamed(v):
    """The same value with other base histories."""
    deps = frozenset(x + "'" if x.startswith("h:") else x for x in v.deps)
    if v.kind == "seq":
        return v.but(items=tuple(renamed(i) for i in v.items))
    if v.kind in ("map", "obj"):
        return v.but(items=tuple((k, renamed(i)) for k, i in v.items))
    return v.but(deps=deps)


class CoordReader(Indexer):
    """A coordinate's own methods: the coordinate returned and the index returned beside it."""
    def hook_call(self, fr, node, qual, args, kwargs, recv, env):
        last = qual.rsplit(".", 1)[-1]
        if recv is not None and has_h(recv) and COORD in recv.ty and recv.kind is None:
            if last.startswith(("_select_by", "_order_by")):
                return self.coord_call("select", [const(last)] + list(args), kwargs, recv)
            if last == "empty":
                return recv.but(deps={"h:0:*empty"})
            if last in ("new", "update") and not (kwargs.keys() & {"values", "data"}):
                return BOT
        if last == "get_coord" and qual.startswith("dascore."):
            v = kwargs.get("values", kwargs.get("data"))
            if v is not None and has_h(v):
                return coordinate(hs(v))
            m = [x for x in kwargs.values() if x.kind == "map"]
            return BOT
        return super().hook_call(fr, node, qual, args, kwargs, recv, env)

    def s_Return(self, s, env, fr):
        if s.value is not None and fr.fi.qual == self.entry:
            v = self.ev(s.value, env, fr)
            if v.kind == "seq" and len(v.items) in (2, 4):
                n = len(v.items) // 2
                for k in range(n):
                    self.pairs.append((s.lineno, v.items[k], v.items[k + n], k))
        return super().s_Return(s, env, fr)


def run_coords(ctx, prog):
    for cls in [COORD, *prog.subclasses(COORD)]:
        ci = prog.classes[cls]
        for name, fi in ci.methods.items():
            if name not in ("select", "order", "sort", "align_to") and not name.startswith(("_select_by", "_order_by")):
                continue
            it = CoordReader(prog, True)
            it.entry, it.pairs = fi.qual, []
            ps = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
            bound = {ps[0]: coordinate({0: {"x"}})}
            for p in ps[1:]:
                bound[p] = coordinate({0: {"y"}}) if name == "align_to" else u(p) if p not in CONTEXT else BOT
            it.run_entry(fi, bound, cls=ci)
            for line, c, i, k in it.pairs:
                toks = it.index_tokens(i)
                got = hs(c).get(0) if has_h(c) and c.kind is None else None
                if got is None or not isinstance(toks, tuple) or any("?" in t for t in toks) or any("*" in g or "?" in g for g in got) or len(got) != 1:
                    ctx.count("coordinate_returns_not_decided")
                    continue
                ctx.count("coordinate_pairs")
                base = "y" if k else "x"
                want = base
                for t in toks:
                    want = push(want, t)
                if got != {want}:
                    ctx.violation(f"pair:{ci.name}.{name}",
                                  f"{fi.where(line) if callable(getattr(fi, 'where', None)) and False else fi.where()} line {line}: {ci.name}.{name} returns the coordinate indexed with {show(got)} beside an index that is {show({want})}")


def judge(ctx, fi, label, order, cutting, choice, extra, ret, it):
    ctx.count("scenarios")
    ctx.count("calls_followed", it.calls_analysed)
    what = f"{label}({', '.join(choice)}{''.join(f', {k}={v}' for k, v in extra.items())})"
    total = 0
    for man, data in flatten(ret):
        n, bad = compare(man, data)
        total += n
        for name, d, got, want in bad:
            ctx.violation(f"apart:{label}:{'dimension' if name == d else name}",
                          f"{fi.where()} {what} on dimensions ({', '.join(order)}), index that {'shortens' if cutting else 'permutes'}: along {d} the data is indexed with {show(want)}, coordinate {name!r} ({'the dimension itself' if name == d else 'associated'}) with {show(got)}")
    ctx.count("obligations", total)
    if not total:
        ctx.count("scenarios_not_followed")
        ctx.notes.append(f"{what} {order} cutting={cutting}: result not followed")
    elif order[0] == "time":
        ctx.sample(f"{what}: {total} coordinate axes compared with the data")
