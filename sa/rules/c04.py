"""C04: changed coordinates are always reflected in the attributes."""
from __future__ import annotations

import ast

from ..absint import Val, PATCH, CM, ATTRS, NOC, BOT, join, joinall, join_env, DICT
from ..construct import Build, params_for, outermost, entry_points, SLOTS
from ..flow import backslice
from ..model import dotted

BASIC_UPDATE = ("dascore.proc.basic.update",)
SITE_NAMES = {"from_parts", "Patch", "new", "update", "__class__"}


def key(v):
    return ",".join(sorted(v.al)) or "?"


def patchval(line, coords=None, attrs=None, tag=None):
    t = tag or f"P@{line}"
    if coords is None:
        return Val(al={t}, ty={PATCH}, nn=True)
    return Val(ty={PATCH}, kind="obj", nn=True, items=(("_data", Val(al={t + "._data"}, ty={"numpy.ndarray"}, nn=True)),
               ("_coords", coords), ("_attrs", attrs)))


class Conf(Build):
    """Tags: `X._attrs`/`X._coords` of a known patch X, CONF<coords> for attributes derived from
    these coordinates, CLEARED for attributes without coordinate information."""
    MAX_DEPTH = 6
    SPLITS = 6

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = []
        self.upd = prog.class_member(PATCH, "update")
        self.new = prog.class_member(PATCH, "new")
        self.upd_attrs = prog.class_member(PATCH, "update_attrs")

    # -- path splitting inside one frame
    def block(self, body, env, fr):
        for i, s in enumerate(body):
            if env is None:
                return None
            n = getattr(fr, "nsplit", 0)
            if isinstance(s, ast.If) and i + 1 < len(body) and n < self.SPLITS:
                for sn in fr.snaps:
                    sn.append(env)
                r, te, fe = self.cond(s.test, dict(env), fr)
                a = super().block(s.body, te, fr) if r is not False and te is not None else None
                b = super().block(s.orelse, fe, fr) if r is not True and fe is not None else None
                if a is not None and b is not None and a != b:
                    fr.nsplit = n + 1
                    x = self.block(body[i + 1:], a, fr)
                    y = self.block(body[i + 1:], b, fr)
                    fr.nsplit = n
                    return join_env(x, y)
                env = join_env(a, b)
                continue
            env = super().block([s], env, fr)
        return env

    def cond(self, e, env, fr):
        r, t, f = super().cond(e, env, fr)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.ev(e.left, env, fr), self.ev(e.comparators[0], env, fr)
            for x, y in ((a, b), (b, a)):
                owners = [o[:-8] for o in y.al if o.endswith("._coords")]
                if owners and x.al:
                    side = t if isinstance(e.ops[0], ast.Is) else f
                    if side is not None:
                        side = dict(side)
                        for o in owners:
                            side["$must:" + o + "|" + key(x)] = BOT
                        if isinstance(e.ops[0], ast.Is):
                            t = side
                        else:
                            f = side
        return r, t, f

    def ev(self, e, env, fr):
        v = super().ev(e, env, fr)
        if v.al and any(t.endswith("._attrs") for t in v.al):
            for k in env:
                if k.startswith("$must:"):
                    p, c = k[6:].split("|", 1)
                    if p + "._attrs" in v.al:
                        v = v.but(al=(v.al - {p + "._attrs"}) | {f"CONF<{c}>"})
        return v

    def load_attr(self, b, name, node, env, fr):
        if name in ("attrs", "coords") and not b.kind and not b.fn and b.al and not any(t in self.p.classes for t in b.ty) and any(
                "patch" in o.rsplit(".", 1)[-1].lower() or o.startswith(("P@", "FRESH@")) for o in b.al):
            return Val(al={o + "._" + name for o in b.al if not o.startswith("CONF<")}, ty={ATTRS if name == "attrs" else CM}, nn=True)
        return super().load_attr(b, name, node, env, fr)

    # -- transfer functions for the operations that matter
    def site(self, fr, node, kind, coords, attrs):
        self.emit(fr, node, "site", what=kind, coords=coords, attrs=attrs)

    def hook_call(self, fr, node, qual, args, kwargs, recv, env):
        p = self.p
        name = qual.rsplit(".", 1)[-1]
        loc = f"{fr.fi.module.relpath}:{node.lineno}:{node.col_offset}"
        kw = dict(kwargs)
        if p.is_subclass(qual, PATCH) if qual in p.classes else False:
            for n, a in zip(("data", "coords", "dims", "attrs"), args):
                kw.setdefault(n, a)
            c, at = kw.get("coords", BOT), kw.get("attrs", BOT)
            if fr.fi.qual != f"{PATCH}.__init__":
                self.site(fr, node, "ctor", c, at)
            cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
            return patchval(loc, cc, Val(al={f"CONF<CM@{loc}>"}, ty={ATTRS}, nn=True))
        if name == "from_parts" and qual.startswith(PATCH):
            for n, a in zip(("data", "coords", "attrs"), args):
                kw.setdefault(n, a)
            c, at = kw.get("coords", BOT), kw.get("attrs", BOT)
            self.site(fr, node, "from_parts", c, at)
            return patchval(loc, c, at)
        if qual in (self.upd, self.new) and recv is not None or qual == self.upd:
            a = list(args)
            r = recv
            if r is None and a:
                r = a.pop(0)
            for n, x in zip(("data", "coords", "dims", "attrs"), a):
                kw.setdefault(n, x)
            c, at = kw.get("coords"), kw.get("attrs")
            if at is not None:
                cc = c if c is not None else (self.load_attr(r, "coords", node, env, fr) if r is not None else BOT)
                self.site(fr, node, "new", cc, at)
            cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
            if c is None and at is None and r is not None:
                cc = self.load_attr(r, "coords", node, env, fr)
                return patchval(loc, cc, self.load_attr(r, "attrs", node, env, fr))
            return patchval(loc, cc, Val(al={f"CONF<CM@{loc}>"}, ty={ATTRS}, nn=True))
        f = p.functions.get(qual)
        if f is None:
            return None
        owner = f.cls.qual if f.cls else None
        if owner and p.is_subclass(owner, ATTRS) or (owner == ATTRS):
            return self.attrs_method(fr, node, name, args, kw, recv, env)
        if owner == CM:
            if name == "update_from_attrs":
                cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
                return Val(kind="seq", items=(cc, Val(al={f"CONF<CM@{loc}>"}, ty={ATTRS}, nn=True)), nn=True)
            if name == "to_summary_dict":
                return Val(al={f"SUM<{key(recv)}>"} if recv is not None else (), nn=True)
            ret = getattr(f.node, "returns", None)
            txt = ast.unparse(ret) if ret is not None else ""
            if "Self" in txt or "CoordManager" in txt or not txt and name in ("update", "new"):
                cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
                if "tuple" in txt:
                    return Val(kind="seq", items=(cc, Val(nn=False)), nn=True)
                return cc
            if not txt and name not in ("update", "new"):
                return None
            return None
        if name == "get_coord_manager":
            c = args[0] if args else kw.get("coords", BOT)
            if len(c.al) == 1 and CM in c.ty:
                return c
            return Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
        # any other function producing a patch: an unrelated, self-consistent patch
        ret = getattr(f.node, "returns", None)
        txt = ast.unparse(ret) if ret is not None else ""
        if f.parent is None and (txt.strip("'\"") in ("PatchType", "Patch", "dc.Patch", "Self") and owner in (None, PATCH)) and fr.fi is not f:
            return Val(al={f"P@{loc}"}, ty={PATCH}, nn=True)
        return None

    def attrs_method(self, fr, node, name, args, kw, recv, env):
        if name == "from_dict":
            a = args[0] if args else kw.get("attr_map", BOT)
            return a.but(ty={ATTRS}, nn=True, kind=None, items=None)
        if recv is None:
            return None
        base = recv.but(kind=None, items=None, ty={ATTRS}, nn=True)
        if name == "update":
            if "coords" in kw:
                c = kw["coords"]
                return base.but(al=self.conf_of(c))
            return base
        if name == "_conform_to":
            c = args[0] if args else kw.get("coords", BOT)
            return base.but(al={f"CONF<{key(c)}>"})
        if name == "drop":
            if any(a.const == "coords" for a in args):
                return base.but(al={"CLEARED"})
            return base
        if name == "drop_private":
            return base
        if name == "from_dict":
            a = args[0] if args else kw.get("attr_map", BOT)
            return a.but(ty={ATTRS}, nn=True, kind=None, items=None)
        if name == "rename_dimension":
            return Val(ty={ATTRS}, nn=True)
        return None

    def conf_of(self, c):
        if c.kind == "map" and not c.items and not c.el and not c.deps or c.is_none():
            return {"CLEARED"}
        if c.const is not NOC and not c.const:
            return {"CLEARED"}
        out = set()
        for t in c.al:
            if t.startswith("SUM<"):
                out.add("CONF<" + t[4:])
        return out or {f"CONF<{key(c)}>"}

    def method_call(self, e, env, fr, args, star_rest, kwargs, kw_rest, recv):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("model_copy", "copy") and recv is not None and (
                ATTRS in recv.ty or any(t.endswith("._attrs") or t.startswith("CONF<") for t in recv.al)):
            u = kwargs.get("update")
            if u is not None and u.kind == "map":
                d = dict(u.items)
                if "coords" in d:
                    c = d["coords"]
                    return recv.but(kind=None, items=None, al=self.conf_of(c) if c.al else {"?"})
            return recv.but(kind=None, items=None, nn=True)
        if isinstance(f, ast.Attribute) and f.attr == "from_parts":
            loc = f"{fr.fi.module.relpath}:{e.lineno}:{e.col_offset}"
            kw = dict(kwargs)
            for n, a in zip(("data", "coords", "attrs"), args):
                kw.setdefault(n, a)
            c, at = kw.get("coords", BOT), kw.get("attrs", BOT)
            self.site(fr, e, "from_parts", c, at)
            return patchval(loc, c, at)
        if isinstance(f, ast.Attribute) and f.attr in ("new", "update") and "attrs" in kwargs and recv is not None and not recv.kind:
            loc = f"{fr.fi.module.relpath}:{e.lineno}:{e.col_offset}"
            c = kwargs.get("coords")
            if c is None:
                c = self.load_attr(recv, "coords", e, env, fr)
            self.site(fr, e, "new", c, kwargs["attrs"])
            cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
            return patchval(loc, cc, Val(al={f"CONF<CM@{loc}>"}, ty={ATTRS}, nn=True))
        if isinstance(f, ast.Attribute) and f.attr == "update_from_attrs":
            loc = f"{fr.fi.module.relpath}:{e.lineno}:{e.col_offset}"
            cc = Val(al={f"CM@{loc}"}, ty={CM}, nn=True)
            return Val(kind="seq", items=(cc, Val(al={f"CONF<CM@{loc}>"}, ty={ATTRS}, nn=True)), nn=True)
        return super().method_call(e, env, fr, args, star_rest, kwargs, kw_rest, recv)


def site_functions(prog):
    out = []
    for fi in prog.functions.values():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                ok = nm == "from_parts"
                if nm in SITE_NAMES and any(k.arg in ("attrs", None) for k in n.keywords):
                    ok = True
                if nm in SITE_NAMES and len(n.args) >= 3:
                    ok = True
                if nm == "cls" and fi.cls is not None and fi.cls.qual == PATCH:
                    ok = True
                if ok:
                    out.append(fi)
                    break
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in SLOTS:
                out.append(fi)
                break
    return out


def stale(coords, attrs, kind):
    """Reason when the attributes are shown to describe other coordinates, else None."""
    if coords.kind == "map" or CM not in coords.ty and not any(t.startswith("CM@") or t.endswith("._coords") for t in coords.al):
        return None
    if not coords.al:
        return None
    own = {t[:-7] for t in attrs.al if t.endswith("._attrs")}
    conf = {t for t in attrs.al if t.startswith("CONF<")}
    other = attrs.al - {t + "._attrs" for t in own} - conf
    strict = kind in ("from_parts", "slot")
    # attributes of X need X's own coordinates among the possible ones
    for x in sorted(own):
        if x + "._coords" not in coords.al and (strict or not conf and not other):
            return f"attributes of `{x}` are combined with coordinates that are not its own ({sorted(coords.al)[0]})"
    covered = {x + "._coords" for x in own}
    for t in conf:
        covered |= set(t[5:-1].split(","))
    if strict and own:
        bad = coords.al - {x + "._coords" for x in own}
        if bad:
            return f"attributes of `{sorted(own)[0]}` may be combined with coordinates that are not its own ({sorted(bad)[0]})"
    if strict or own and not conf and not other:
        for c in sorted(coords.al):
            if c not in covered and (own or conf):
                return f"coordinates {c} may be stored with attributes derived from others ({', '.join(sorted(attrs.al))})"
    if strict and "CLEARED" in attrs.al:
        return "attributes without coordinate information are stored as they are"
    return None


def check_conform(ctx, prog):
    """PatchAttrs._conform_to / CoordManager.update_from_attrs / to_summary write what they must."""
    f = prog.functions.get(prog.class_member(ATTRS, "_conform_to") or "")
    if f is not None:
        par = f.params[1]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                ctx.count("conform_returns")
                names, attrs, calls = backslice(f, [n.value])
                has_sum = any(a.startswith(par + ".") and a.endswith("to_summary_dict") or a == f"{par}.to_summary_dict" for a in attrs)
                has_dim = any(a == f"{par}.dims" for a in attrs)
                via_update = any(isinstance(c.func, ast.Attribute) and c.func.attr == "update" and any(
                    k.arg == "coords" for k in c.keywords) for c in calls) and par in names
                if not (has_sum and has_dim) and not via_update:
                    miss = "coordinate summaries" if not has_sum else "dimension names"
                    ctx.violation("conform:_conform_to", f"{f.where(n)} returns attributes whose {miss} do not come from the given coordinates")
                if has_sum and not via_update:
                    ks = keyed_sources(f)
                    for k, want in (("coords", "to_summary_dict"), ("dims", "dims")):
                        if k in ks and not any(f"{par}.{want}" in backslice(f, [x])[1] for x in ks[k]):
                            ctx.violation(f"conform:_conform_to:{k}", f"{f.where(n)} stores {k!r} that does not come from {par}.{want}")
                        me = f.params[0]
                        own = {f"{me}.{k}", f"{me}.dim_tuple", f"{me}.model_dump"}
                        if k in ks and any(own & set(backslice(f, [x])[1]) for x in ks[k]):
                            ctx.violation(f"conform:_conform_to:{k}", f"{f.where(n)} mixes its own {k!r} into attributes which must describe the given coordinates")
    g = prog.functions.get(prog.class_member(CM, "update_from_attrs") or "")
    if g is not None:
        ks = keyed_sources(g)
        rets = [n for n in ast.walk(g.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2]
        for r in rets:
            ctx.count("reconcile_returns")
            cn = r.value.elts[0]
            _, _, acalls = backslice(g, [r.value.elts[1]])
            if any(isinstance(c.func, ast.Attribute) and c.func.attr == "_conform_to" for c in acalls):
                continue
            rn = ast.unparse(cn)
            for k, want in (("coords", "to_summary_dict"), ("dims", "dims")):
                srcs = ks.get(k, [])
                good = [x for x in srcs if any(a == f"{rn}.{want}" for a in backslice(g, [x])[1]) or any(
                    isinstance(c.func, ast.Attribute) and c.func.attr == "update" for c in acalls) and not srcs]
                if srcs and not good or not srcs and not any(isinstance(c.func, ast.Attribute) and c.func.attr == "update" and any(
                        kk.arg == "coords" and ast.unparse(kk.value) == rn for kk in c.keywords) for c in acalls):
                    ctx.violation(f"reconcile:{k}", f"{g.where(r)} returns attributes whose {k!r} are not taken from the returned coordinates `{rn}`")
                for x in good:
                    later = [n for n in ast.walk(g.node) if isinstance(n, ast.Assign) and n.lineno > x.lineno and any(
                        rn in {y.id for y in ast.walk(t) if isinstance(y, ast.Name)} for t in n.targets)]
                    if later:
                        ctx.violation(f"reconcile:{k}", f"{g.where(later[0])} changes the coordinates after their summary was taken")
    m = prog.functions.get(prog.class_member(CM, "to_summary_dict") or "")
    if m is not None:
        for n in ast.walk(m.node):
            it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
            if it is None or not any(a.startswith(m.params[0] + ".") and a.split(".")[1] in ("coord_map", "dim_map", "keys", "items") for a in backslice(m, [it])[1]):
                continue
            ctx.count("summary_loops")
            skips = n.ifs if isinstance(n, ast.comprehension) else [x for b in n.body for x in ast.walk(b) if isinstance(x, (ast.If, ast.Continue, ast.Break, ast.Return))]
            if skips:
                ctx.violation("summary:partial", f"{m.where(it)} leaves some coordinates out of the summaries the attributes are made from")
    for q in [x for x in prog.classes if prog.is_subclass(x, "dascore.core.coords.BaseCoord")]:
        m = prog.classes[q].methods.get("to_summary")
        if m is None:
            continue
        for c in [n for n in ast.walk(m.node) if isinstance(n, ast.Call) and (prog.resolve(m.module, m, n.func) or "").endswith("CoordSummary")]:
            ctx.count("summary_constructions")
            for k in c.keywords:
                if k.arg in ("min", "max", "step", "units", "dtype"):
                    _, at, _ = backslice(m, [k.value])
                    ats = {a.split(".")[-1] for a in at if a.startswith(m.params[0] + ".")}
                    const = not ats and isinstance(k.value, (ast.Constant, ast.Attribute)) and not q.endswith('.BaseCoord')
                    if k.arg not in ats and not const:
                        ctx.violation(f"summary:{q}:{k.arg}", f"{m.where(c)} fills {k.arg!r} of a coordinate's summary from something else than self.{k.arg}")
    # PatchAttrs.update(coords=<manager>) must use it


def keyed_sources(f):
    """key -> [value expressions] over dict displays, dict(k=...), d[k] = ... and keyword calls."""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant):
                    out.setdefault(k.value, []).append(v)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                    out.setdefault(t.slice.value, []).append(n.value)
        elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "dict" or isinstance(n.func, ast.Attribute) and n.func.attr == "update"):
            for k in n.keywords:
                if k.arg:
                    out.setdefault(k.arg, []).append(k.value)
    return out


def coords_next_to(f, i, ev):
    """The coordinates stored on the same path as the attributes of event i."""
    for step in (-1, 1):
        j = i + step
        while 0 <= j < len(ev):
            kind, g, n, stack, data = ev[j]
            if kind == "slot" and g is f:
                if data["attr"] == "_coords":
                    return data["val"]
                if data["attr"] == "_attrs":
                    break
            j += step
    return None


def run(ctx):
    prog = ctx.prog
    ctx.rule("At every site that builds a patch from coordinates and attributes (trusted construction, constructor, update/new, direct slot stores), "
             "path-split value flow shows which coordinates the attributes were derived from; attributes of another patch or of other coordinates "
             "must not be combined with changed coordinates, and the trusted construction needs attributes derived from exactly its coordinates")
    ctx.rule("The functions that derive attributes from coordinates (conforming, reconciling, coordinate summaries) take every field from the given coordinates")
    check_conform(ctx, prog)
    fns = site_functions(prog)
    ents = {}
    for f in fns:
        for g in entry_points(prog, [f], depth=2):
            ents[g.qual] = g
        ents.setdefault(outermost(f).qual, outermost(f))
    # classes whose private helpers build patches: their public methods are entries via entry_points
    seen = set()
    slots = {}
    for q in sorted(ents):
        fi = ents[q]
        it = Conf(prog)
        it.budget = 400
        _, ev = it.run_entry(fi, params_for(it, fi), cls=fi.cls)
        ctx.count("entries")
        for i, (kind, f, node, stack, data) in enumerate(ev):
            if kind == "site":
                c, a, what = data["coords"], data["attrs"], data["what"]
                if f.qual == f"{PATCH}.__init__":
                    continue
                if (id(node), what) not in seen:
                    seen.add((id(node), what))
                    ctx.count(f"sites_{what}")
                    ctx.sample(f"{what} at {f.file}:{node.lineno}")
                if what == "ctor":
                    # the constructor re-derives coordinate information for attribute records; a plain mapping has priority
                    if ATTRS in a.ty or a.kind is None and not a.ty:
                        continue
                why = stale(c, a, what)
                if why:
                    ctx.violation(f"{what}:{f.qual}", f"{f.where(node)}: {why}")
            elif kind == "slot" and data["attr"] == "_attrs":
                ctx.count("slot_events")
                slots.setdefault((f.qual, node), []).append((fi, coords_next_to(f, i, ev), data["val"]))
    check_slots(ctx, prog, slots)
    ctx.require("entries", 20)
    ctx.require("sites_from_parts", 3)
    ctx.require("sites_new", 5)


def _only_history_guard(test):
    """Does the test pin the updated fields to the history alone?"""
    has_len = has_in = eq = False
    for n in ast.walk(test):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for a, b in ((l, r), (r, l)):
                if isinstance(a, ast.Call) and getattr(a.func, "id", "") == "len" and isinstance(b, ast.Constant):
                    has_len |= isinstance(n.ops[0], ast.Eq) and b.value == 1 or isinstance(n.ops[0], ast.LtE) and b.value == 1 and a is l \
                        or isinstance(n.ops[0], ast.Lt) and b.value == 2 and a is l
                if isinstance(n.ops[0], ast.Eq) and isinstance(b, (ast.Set, ast.List, ast.Tuple)) and len(b.elts) == 1 and \
                        isinstance(b.elts[0], ast.Constant) and b.elts[0].value == "history":
                    eq = True
            if isinstance(n.ops[0], ast.In) and isinstance(l, ast.Constant) and l.value == "history":
                has_in = True
    anded = not any(isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) for n in ast.walk(test))
    return anded and (eq or (has_len and has_in))


def _guards_of(root, target):
    """[(test, polarity)] of the Ifs enclosing (or cut before) the target node."""
    out = []

    def rec(body, acc):
        acc = list(acc)
        for s in body:
            if s is target or any(x is target for x in ast.walk(s)):
                if isinstance(s, ast.If):
                    if any(x is target for b in s.body for x in ast.walk(b)):
                        rec(s.body, acc + [(s.test, True)])
                    elif any(x is target for b in s.orelse for x in ast.walk(b)):
                        rec(s.orelse, acc + [(s.test, False)])
                    else:
                        out.extend(acc)
                    return
                for sub in ("body", "orelse", "finalbody"):
                    v = getattr(s, sub, None)
                    if isinstance(v, list) and any(x is target for b in v if isinstance(b, ast.AST) for x in ast.walk(b)) and not isinstance(s, ast.FunctionDef):
                        rec(v, acc)
                        return
                out.extend(acc)
                return
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                acc.append((s.test, False))
    rec(root.body, [])
    return out


def check_slots(ctx, prog, slots):
    """Direct stores to _attrs outside the trusted constructors."""
    for (fn, node), evs in slots.items():
        fi = prog.functions[fn]
        if fi.qual == f"{PATCH}.from_parts":
            continue
        ctx.count("direct_stores")
        bad = None
        for root, c, a in evs:
            own = {t[:-7] for t in a.al if t.endswith("._attrs")}
            if c is None or not (a.al and (own or any(t.startswith("CONF<") for t in a.al))) or stale(c, a, "slot"):
                bad = True
        if not bad:
            continue
        # not derivable: only the history may differ
        tests = list(_guards_of(fi.node, node))
        f = fi
        while f.parent is not None:
            calls = [n for n in ast.walk(f.parent.node) if isinstance(n, ast.Call) and getattr(n.func, "id", "") == f.name]
            for c in calls:
                tests += _guards_of(f.parent.node, c)
            f = f.parent
        if fi.parent is None and not tests:
            for g in prog.functions.values():
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and (prog.resolve(g.module, g, n.func) == fi.qual or fi.cls and isinstance(n.func, ast.Attribute) and n.func.attr == fi.name):
                        tests += _guards_of(g.node, n)
        both = ast.BoolOp(ast.And(), [t for t, pol in tests if pol] + [ast.Constant(True)])
        if not _only_history_guard(both) and not any(_only_history_guard(t) and pol for t, pol in tests) and not any(
                not pol and isinstance(t, ast.UnaryOp) and _only_history_guard(t.operand) for t, pol in tests):
            ctx.violation(f"slot:{fi.qual}", f"{fi.where(node)} stores attributes next to coordinates they were not derived from, "
                          "without limiting the difference to the history")
