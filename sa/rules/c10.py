"""C10: partial reads cut data and coordinates with the requested range."""
from __future__ import annotations

import ast
from itertools import combinations

from ..absint import Interp, Val, E, TUP, DICT, const, fresh, joinall, NONE
from ..calls import fiber_classes
from ..model import AnalysisError

DIMS = ("time", "distance", "channel", "frequency", "depth", "wavelength", "offset")
NOT_RANGES = {"self", "resource", "path", "snap", "snap_dims"}
KEEPING = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray"}
MANAGER_MAKERS = ("dascore.core.coordmanager.get_coord_manager", "dascore.core.coordmanager.CoordManager")
PATCHES = ("dascore.core.patch.Patch",)
RESHAPING = {"T"}


def cuts(labels):
    return {x[4:] for x in labels if x.startswith("cut:")} - {x[5:] for x in labels if x.startswith("lost:")}


def strip(labels, dims, *prefixes):
    """Labels after a cut along dims."""
    drop = {p + "whole:" + d for d in dims for p in (prefixes or ("",))}
    add = {p + "cut:" + d for d in dims for p in (prefixes or ("",))}
    return (frozenset(labels) - drop) | add


def side(labels, p):
    """Labels of the data (D.) or coordinates (C.) of a patch."""
    return {x[len(p):] for x in labels if x.startswith(p)}


class Cutter(Interp):
    """Follows, for one choice of which ranges are given, what was cut with which."""
    CTX_LIMIT = 40

    def __init__(self, prog):
        super().__init__(prog)
        self.given = ()

    def issue(self, fr, node, key, text):
        self.emit(fr, node, "issue", key=key, text=text)

    # ---- opaque: everything of the package outside the readers
    def hook_call(self, fr, node, qual, args, kwargs, recv, env):
        last = qual.rsplit(".", 1)[-1]
        everything = list(args) + list(kwargs.values()) + ([recv] if recv is not None else [])
        if last == "select" and (not qual.startswith("dascore.io.") or recv is not None):
            return self.select(fr, node, args, kwargs, recv)
        if qual in MANAGER_MAKERS:
            return self.manager(args, kwargs, None)
        if last in ("new", "update", "update_coords") and recv is not None and "manager" in recv.deps:
            return self.manager(args, kwargs, recv)
        if qual in PATCHES:
            return self.patch(fr, node, args, kwargs)
        if qual in ("dascore.core.spool.spool", "dascore.spool"):
            return Val(deps=joinall(everything).all_deps() if everything else E, nn=True)
        if last == "read" and recv is not None and (kwargs or args):
            self.emit(fr, node, "read", got=tuple(sorted((k, tuple(sorted(self.range_of(v)))) for k, v in kwargs.items())))
        if qual == "builtins.len" and args:
            v = self.sizes(args[0])
            return v.but(deps=frozenset("len:" + x[4:] if x.startswith("cut:") else x for x in v.deps))
        if qual == "builtins.slice" and args:
            d = joinall(args).all_deps()
            lost = {"lost:" + x[4:] for x in d if x.startswith("len:") and "cut:" + x[4:] not in d}
            return Val(deps=self.plain(args) | lost, nn=True)
        if last == "empty" and recv is not None and not args:
            return self.empty(recv)
        if qual in KEEPING and args:
            return Val(deps=args[0].all_deps(), nn=True)
        if qual.startswith("dascore.") and not qual.startswith("dascore.io.") and qual in self.p.functions:
            f = self.p.functions[qual]
            if f.name in ("lazy_import", "optional_import"):
                return None
            return Val(deps=self.plain(everything))
        if qual in self.p.classes and not qual.startswith("dascore.io."):
            return Val(deps=self.plain(everything), nn=True)
        return None

    def plain(self, vals):
        out = set()
        for v in vals:
            out |= v.all_deps()
        return frozenset(x for x in out if not x.startswith(("ax:", "dim:")) and x != "manager")

    def hook_result(self, fr, node, qual, args, kwargs, recv, env, out):
        if qual in KEEPING or qual.startswith("dascore.io.") or not any(x.startswith("ax:") for x in out.deps):
            return out
        if qual in self.p.functions:
            return out
        return out.but(deps=frozenset(x for x in out.deps if not x.startswith("ax:")))

    def load_attr(self, b, name, node, env, fr):
        v = super().load_attr(b, name, node, env, fr)
        if name in self.SIZES and not v.fn:
            return self.sizes(v.but(deps=v.all_deps()))
        if any(x.startswith(("ax:", "dim:")) or x == "manager" for x in v.all_deps()):
            v = v.but(deps=frozenset(x for x in v.deps if not x.startswith("ax:") and x != "manager"))
        return v

    # ---- sizes are not samples; what is empty has nothing left to cut
    SIZES = {"size", "shape", "ndim", "nbytes", "dtype", "start", "stop"}

    def sizes(self, v):
        return Val(deps=frozenset(x for x in v.all_deps() if not x.startswith(("whole:", "ax:", "coord:"))))

    def empty(self, v):
        if v.kind is not None and not v.all_deps():
            return v
        return Val(deps=strip({x for x in v.all_deps() if not x.startswith("whole:")}, self.given), nn=True)

    def size_test(self, e):
        """(variable, True if the test holds for something empty) of a test of emptiness."""
        def sized(x):
            if isinstance(x, ast.Attribute) and x.attr == "size":
                return self.lv_key(x.value)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "bool") and len(x.args) == 1 and not x.keywords:
                return self.lv_key(x.args[0]) if x.func.id == "len" else sized(x.args[0])
            return None
        k = sized(e)
        if k:
            return k, False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            zero = isinstance(r, ast.Constant) and r.value == 0
            one = isinstance(r, ast.Constant) and r.value == 1
            if sized(l) and zero and isinstance(op, (ast.Eq, ast.LtE)) or sized(l) and one and isinstance(op, ast.Lt):
                return sized(l), True
            if sized(l) and zero and isinstance(op, (ast.NotEq, ast.Gt)) or sized(l) and one and isinstance(op, ast.GtE):
                return sized(l), False
            if isinstance(l, ast.Constant) and l.value == 0 and isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, ast.Attribute) and r.attr == "shape" and self.lv_key(r.value):
                return self.lv_key(r.value), isinstance(op, ast.In)
        return None

    def cond(self, e, env, fr):
        r, t, f = super().cond(e, env, fr)
        st = self.size_test(e)
        if st is not None and st[0] in env:
            k, when = st
            if when and t is not None:
                t = {**t, k: self.empty(t[k])}
            if not when and f is not None:
                f = {**f, k: self.empty(f[k])}
        return r, t, f

    # ---- cutting
    def select(self, fr, node, args, kwargs, recv):
        labels = recv.all_deps() if recv is not None else E
        ranges, arr = {}, None
        for k, v in kwargs.items():
            if k in ("array", "arr"):
                arr = v
            elif k in ("samples", "relative"):
                if v.const is True and any(r for r in self.range_of(joinall(list(args) + list(kwargs.values())))):
                    self.issue(fr, node, f"kind:{k}", f"the requested range holds coordinate values but is applied with {k}=True")
            elif k == "coord_name":
                pass
            else:
                ranges[k] = v
        for a in args:
            if a.is_none() or self.range_of(a):
                ranges.setdefault(None, a)
            elif arr is None:
                arr = a
        done = set()
        for k, v in ranges.items():
            rs = self.range_of(v)
            if not rs:
                continue
            if v.kind == "seq" and not v.nn:        # on some path None (or nothing) is passed instead of the range
                continue
            if len(rs) > 1 or (k is not None and rs != {k}):
                self.issue(fr, node, f"crossed:{k}", f"the {' and '.join(sorted(rs))} range is applied to {k or 'another coordinate'}")
                continue
            own = {x[6:] for x in labels if x.startswith("coord:")}
            if k is None and len(own) == 1 and own != rs:
                self.issue(fr, node, f"crossed:{sorted(own)}", f"the {sorted(rs)[0]} range is applied to the {sorted(own)[0]} coordinate")
                continue
            if v.kind == "seq" and len(v.items) == 2:
                d = v.all_deps()
                for i, (side_, other) in enumerate((("lo", "hi"), ("hi", "lo"))):
                    it = v.items[i].all_deps()
                    if any(x.startswith("rng:") for x in d) and (f"{side_}:{sorted(rs)[0]}" not in it or f"{other}:{sorted(rs)[0]}" in it):
                        self.issue(fr, node, f"limits:{sorted(rs)[0]}", f"the limits of the {sorted(rs)[0]} range are not passed in order")
                        break
            done |= rs
        if None in ranges and arr is None and len(args) == 1:          # one coordinate
            out = strip(labels, done)
            idx = frozenset("cut:" + d for d in done)
            return Val(kind="seq", items=(Val(deps=out, nn=True), Val(deps=idx, nn=True)), ty={TUP}, nn=True)
        if any(x.startswith(("D.", "C.")) for x in labels):          # a patch or a spool
            return Val(deps=strip(labels, done, "D.", "C."), nn=True)
        new = Val(deps=strip(labels, done) | ({"manager"} & labels), nn=True)
        data = Val(deps=strip(arr.all_deps(), done), nn=True) if arr is not None else NONE
        return Val(kind="seq", items=(new, data), ty={TUP}, nn=True)

    def range_of(self, v):
        return {x[4:] for x in v.all_deps() if x.startswith("rng:")} if not any(x.startswith("whole:") for x in v.all_deps()) else set()

    def manager(self, args, kwargs, base):
        coords = kwargs.get("coords", kwargs.get("coord_map", args[0] if args else None))
        dims = kwargs.get("dims", args[1] if len(args) > 1 else None)
        labels = set(base.all_deps()) if base is not None else set()
        named = {}
        if coords is not None and coords.kind == "map":
            named.update(coords.items)
            if coords.el or coords.deps:
                named[None] = Val(deps=coords.deps)
        elif coords is not None:
            labels |= {x for x in coords.all_deps() if not x.startswith("whole:")}
        if base is not None:
            named.update({k: v for k, v in kwargs.items() if k not in ("coords", "coord_map", "dims")})
        for k, v in named.items():
            d = v.all_deps()
            if k is None:
                labels |= {x for x in d if not x.startswith("whole:")}
                continue
            labels -= {f"whole:{k}", f"cut:{k}"}
            labels |= {x for x in d if x in (f"whole:{k}", f"cut:{k}")}
        labels = {x for x in labels if not x.startswith(("ax:", "coord:"))}
        if dims is not None and dims.kind == "seq" and all(isinstance(i.const, str) for i in dims.items):
            labels |= {f"dim:{n}:{i.const}" for n, i in enumerate(dims.items)}
        return Val(deps=frozenset(labels | {"manager"}), nn=True)

    def patch(self, fr, node, args, kwargs):
        names = ("data", "coords", "dims", "attrs")
        got = dict(zip(names, args))
        got.update({k: v for k, v in kwargs.items() if k in names})
        data = got.get("data")
        coords = got.get("coords") or got.get("attrs")
        if coords is not None and coords.is_none():
            coords = got.get("attrs")
        dl = data.all_deps() if data is not None else E
        cl = set(coords.all_deps()) if coords is not None else set()
        dims = got.get("dims")
        if dims is not None and dims.kind == "seq" and all(isinstance(i.const, str) for i in dims.items):
            cl |= {f"dim:{n}:{i.const}" for n, i in enumerate(dims.items)}
        order = {}
        for x in cl:
            if x.startswith("dim:"):
                _, n, d = x.split(":")
                order.setdefault(d, set()).add(int(n))
        for x in sorted(dl):
            if x.startswith("ax:"):
                _, d, p = x.split(":")
                if d in order and int(p) not in order[d]:
                    self.issue(fr, node, f"axis:{d}", f"the {d} range is applied along axis {p} of the data while {d} is dimension {sorted(order[d])}")
        if data is None:                # Patch() or a patch made of another one
            return Val(deps=self.plain(args + list(kwargs.values())), nn=True)
        self.emit(fr, node, "patch", data=frozenset(dl), coords=frozenset(cl))
        out = {"D." + x for x in dl if x.startswith(("whole:", "cut:"))} | {"C." + x for x in cl if x.startswith(("whole:", "cut:"))} | {"P."}
        return Val(deps=frozenset(out), nn=True)

    def subscript(self, b, i, e, env, fr):
        idx = i.all_deps()
        done = cuts(idx)
        if b.kind == "map" or (isinstance(i.const, str) and not done):
            v = super().subscript(b, i, e, env, fr)
            if isinstance(i.const, str) and i.const in DIMS and "manager" not in v.deps:
                v = v.but(deps=v.deps | {f"coord:{i.const}"})
            return v
        v = super().subscript(b, i, e, env, fr)
        if not done or b.kind in ("seq", "hom", "map"):
            return v
        base = b.all_deps()
        axes = set()
        items = i.items if i.kind == "seq" and isinstance(e.slice, ast.Tuple) else (i,)
        if isinstance(e.slice, ast.Tuple) or i.kind is None:
            for p, it in enumerate(items):
                for d in cuts(it.all_deps()):
                    axes.add(f"ax:{d}:{p}")
        return Val(deps=strip(base, done) | axes, nn=True)

    def e_Call(self, e, env, fr):
        v = super().e_Call(e, env, fr)
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("get_coord", "get", "pop") and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value in DIMS:
            v = v.but(deps=frozenset(x for x in v.deps if x != "manager") | {f"coord:{e.args[0].value}"})
        return v


def range_params(prog, fi):
    """The parameters of a reader which name a dimension, or None if it takes any."""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    known = [n for n in names[1:] if n in DIMS]
    if known:
        return known, False
    kw = a.kwarg.arg if a.kwarg else None
    used = kw and any(isinstance(n, ast.Name) and n.id == kw and isinstance(n.ctx, ast.Load) for n in ast.walk(fi.node))
    if not used:
        return [], False
    return ["time", "distance"], True


def rng(d):
    lo = Val(deps={f"rng:{d}", f"lo:{d}"})
    hi = Val(deps={f"rng:{d}", f"hi:{d}"})
    return Val(kind="seq", items=(lo, hi), ty={TUP}, nn=True)


def run(ctx):
    prog = ctx.prog
    ctx.rule("for every file reader that takes ranges and every choice of which of them are given, the read function and its helpers are interpreted abstractly (nothing is run; values are label sets: uncut along d, cut with d's range): "
             "at the end no patch returned may hold data, or coordinates, which are still uncut along a dimension whose range was given")
    ctx.rule("a range counts as applied only by a select for its own dimension, with its limits in order, not by samples or relative, and - where the index is written out - along the axis at which the patch has that dimension")
    ctx.rule("no range defaults to anything but None; a reader that takes one range takes one for each dimension its coordinates declare")
    ctx.assumptions.append("CoordManager.select and BaseCoord.select cut what they are given with the ranges they are given (C09); conditions other than on which ranges are given may go either way; ranges given have two limits")
    seen = set()
    for cls in fiber_classes(prog):
        q = prog.class_member(cls.qual, "read")
        fi = prog.functions.get(q) if q else None
        if fi is None or fi.cls is None or fi.cls.qual == "dascore.io.core.FiberIO" or fi.module.name == "dascore.io.core":
            continue
        params, bag = range_params(prog, fi)
        if not params:
            continue
        key = (fi.qual, tuple(sorted(prog.class_member(cls.qual, m) or "" for m in ())))
        if (fi.qual, cls.qual) in seen:
            continue
        seen.add((fi.qual, cls.qual))
        ctx.count("readers")
        defaults(ctx, fi, params)
        for n in range(0, len(params) + 1):
            for given in combinations(params, n):
                scenario(ctx, prog, cls, fi, params, given, bag)
    general(ctx, prog)
    ctx.require("readers", 12)
    ctx.require("reader_choices", 40)


def defaults(ctx, fi, params):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in pairs:
        if x.arg in params and not (isinstance(d, ast.Constant) and d.value is None):
            ctx.violation(f"default:{fi.qual}:{x.arg}", f"{fi.where(d)} {fi.qual}: without a {x.arg} range the read is trimmed with {ast.unparse(d)}")


def general(ctx, prog):
    """dascore.read hands each range on, under its own name."""
    fi = prog.functions.get("dascore.io.core.read")
    if fi is None:
        raise AnalysisError("dascore.io.core.read not found")
    a = fi.node.args
    named = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    it = Cutter(prog)
    it.given = DIMS
    bound = {n: rng(n) if n in DIMS else Val() for n in named}
    extra = [d for d in DIMS if d not in named]
    if a.kwarg is None:
        ctx.violation("read:kwargs", f"{fi.where()} dascore.read takes no further ranges")
        return
    bound[a.kwarg.arg] = Val(kind="map", items=tuple((d, rng(d)) for d in extra), ty={DICT}, nn=True)
    _, evs = it.run_entry(fi, bound)
    n = 0
    for kind, f, node, stack, data in evs:
        if kind != "read":
            continue
        n += 1
        got = dict(data["got"])
        for d in DIMS:
            if got.get(d) != (d,):
                ctx.violation(f"read:{d}", f"{f.where(node)} {f.qual}: the {d} range given to dascore.read is not passed to the reader{' (it gets the ' + got[d][0] + ' range)' if got.get(d) else ''}")
    ctx.count("general_reads", n)
    ctx.require("general_reads", 1)


def scenario(ctx, prog, cls, fi, params, given, bag):
    it = Cutter(prog)
    it.given = given
    whole = {f"whole:{d}" for d in params}
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    bound = {}
    for i, nme in enumerate(names):
        if i == 0:
            bound[nme] = Val(ty={cls.qual}, nn=True)
        elif i == 1:
            bound[nme] = Val(al={nme}, deps=whole, nn=True)
        elif nme in params and not bag:
            bound[nme] = rng(nme) if nme in given else const(None)
        else:
            bound[nme] = Val()
    if a.kwarg:
        items = tuple((d, rng(d)) for d in given) if bag else ()
        bound[a.kwarg.arg] = Val(kind="map", items=items, ty={DICT}, nn=True)
    ret, evs = it.run_entry(fi, bound, cls=cls)
    ctx.count("reader_choices")
    ctx.count("calls_followed", it.calls_analysed)
    what = " and ".join(given) or "no"
    for kind, f, node, stack, data in evs:
        if kind == "issue":
            ctx.violation(f"{data['key']}:{cls.name}:{f.name}", f"{f.module.relpath}:{getattr(node, 'lineno', 0)} in {f.qual}, reading {cls.name} with {what} range: {data['text']} (call path: {' -> '.join(stack)})")
    labels = ret.all_deps()
    if "P." not in labels:
        ctx.count("readers_not_followed")
        ctx.notes.append(f"{cls.qual}: no patch followed to the result with {what} range given")
        return
    if given == tuple(params) and not bag:
        for kind, f, node, stack, data in evs:
            if kind == "patch":
                have = {x.split(":")[2] for x in data["coords"] if x.startswith("dim:")}
                ctx.count("dimensions_declared", len(have))
                for d in sorted((have & set(DIMS)) - set(params)):
                    ctx.violation(f"unsupported:{cls.name}:{d}", f"{fi.where()} {cls.name}.read takes ranges along {', '.join(params)} but none along {d}, a dimension of the patch built at {f.module.relpath}:{node.lineno}: a {d} range is silently ignored")
    sites = sorted({f"{f.module.relpath}:{node.lineno}" for kind, f, node, stack, data in evs if kind == "patch"})
    for p, side_ in (("D.", "data"), ("C.", "coordinates")):
        ls = side(labels, p)
        for d in given:
            if f"whole:{d}" in ls or f"cut:{d}" not in ls:
                ctx.violation(f"ignored:{cls.name}:{side_}:{d}",
                              f"{fi.where()} {cls.name}.read with {what} range given: the {side_} of the patch built at {', '.join(sites)} {'are' if p == 'C.' else 'is'} not cut with the {d} range")
        ctx.count("obligations", len(given))
        for d in params:
            if d not in given and f"cut:{d}" in ls:
                ctx.violation(f"trimmed:{cls.name}:{side_}:{d}", f"{fi.where()} {cls.name}.read with {what} range given: the {side_} of the patch is cut along {d}")
    if given == tuple(params):
        ctx.sample(f"{cls.name}.read: {', '.join(params)}; patches built at {', '.join(sites)}")
