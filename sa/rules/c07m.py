"""C07, several patches: arrays of different patches are only combined once their dimensions agree in order."""
from __future__ import annotations

import ast

from ..calls import graph
from ..conds import conds, parents
from ..flow import defs_of
from ..guards import ends_raise
from ..model import dotted, walk_own

COMBINE = {"concatenate", "stack", "vstack", "hstack", "dstack", "sum", "add", "mean", "max", "min", "multiply", "subtract", "reduce", "block", "append",
           "maximum", "minimum", "average", "nansum", "nanmean", "median"}
SAME_ORDER = {"drop_private_coords", "drop_coords", "new", "update", "update_attrs", "update_coords", "set_units", "convert_units", "simplify_units", "sort_coords",
              "snap_coords", "select", "order", "astype", "abs", "real", "imag", "conj", "pad", "fillna", "dropna", "detrend", "demean"}
OK, LOOSE, UNKNOWN = "ok", "loose", "unknown"


def worst(xs):
    xs = list(xs)
    return LOOSE if LOOSE in xs else UNKNOWN if UNKNOWN in xs or not xs else OK


class Several:
    def __init__(self, ctx, prog):
        self.ctx, self.p, self.g = ctx, prog, graph(prog)
        self.callers = {}
        for f in prog.functions.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    for t in self.targets(f, n):
                        self.callers.setdefault(t.qual, []).append((f, n))

    # ---- the program
    def targets(self, f, call):
        q = self.p.resolve(f.module, f, call.func)
        t = self.p.functions.get(q) if isinstance(q, str) else None
        return [t] if t is not None else []

    @staticmethod
    def bound(g, call, name):
        """Expression a call passes for a parameter (None: left at its default)."""
        ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        if g.cls is not None and ps and ps[0] in ("self", "cls") and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        for k in call.keywords:
            if k.arg == name:
                return k.value
        if name in ps and ps.index(name) < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args):
            return call.args[ps.index(name)]
        return None

    @staticmethod
    def default(g, name):
        a = g.node.args
        ps = a.posonlyargs + a.args
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg == name:
                return d
        return None

    @staticmethod
    def patch_root(f, name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []):
            if x.arg == name:
                ann = ast.unparse(x.annotation) if x.annotation is not None else ""
                return "Patch" in ann or "Spool" in ann or name.startswith(("patch", "spool"))
        return False

    # ---- tests of equal dimensions
    def implies(self, f, t, pol, depth=6):
        if depth < 0 or t is None:
            return False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.implies(f, t.operand, not pol, depth)
        if isinstance(t, ast.NamedExpr):
            return self.implies(f, t.value, pol, depth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                return any(self.implies(f, v, pol, depth) for v in t.values)
            return all(self.implies(f, v, pol, depth) for v in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            if isinstance(t.ops[0], (ast.Eq, ast.Is) if pol else (ast.NotEq, ast.IsNot)):
                return sum(self.is_dims(f, x) for x in (t.left, t.comparators[0])) == 2
            return False
        if isinstance(t, ast.Call) and pol and (dotted(t.func) or [""])[-1] in ("bool", "all") and len(t.args) == 1:
            a = t.args[0]
            if isinstance(a, ast.Name):
                ds = defs_of(f).reaching(a.id, a)
                if len(ds) == 1 and ds[0][2] == "=" and isinstance(ds[0][1], (ast.List, ast.Tuple)):
                    a = ds[0][1]
            if isinstance(a, (ast.List, ast.Tuple)):
                return any(self.implies(f, v, True, depth) for v in a.elts)
            return self.implies(f, a, True, depth)
        if isinstance(t, ast.Name):
            ds = defs_of(f).reaching(t.id, t)
            return bool(ds) and all(s is not None and how == "=" and (self.implies(f, s, pol, depth - 1) or isinstance(s, ast.Constant) and bool(s.value) != pol) for _, s, how in ds)
        if isinstance(t, ast.Call) and pol:
            return any(self.true_only_if(g, t, f, depth - 1) for g in self.targets(f, t))
        return False

    def is_dims(self, f, e, depth=4):
        if isinstance(e, ast.Attribute) and e.attr == "dims":
            return True
        if isinstance(e, ast.Call) and (dotted(e.func) or [""])[-1] in ("tuple", "list") and len(e.args) == 1:
            return self.is_dims(f, e.args[0], depth)
        if isinstance(e, ast.Name) and depth:
            ds = defs_of(f).reaching(e.id, e)
            return "dims" in e.id or bool(ds) and all(s is not None and how == "=" and self.is_dims(f, s, depth - 1) for _, s, how in ds)
        return False

    def true_only_if(self, g, call, f, depth):
        """Does a true answer of g to this call mean that dimensions are equal?"""
        if depth < 0:
            return False
        fixed = {}
        for a in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs:
            e = self.bound(g, call, a.arg)
            d = e if e is not None else self.default(g, a.arg)
            if isinstance(d, ast.Constant):
                fixed[a.arg] = d.value
        rets = [n for n in walk_own(g.node) if isinstance(n, ast.Return)]
        if not rets:
            return False
        for r in rets:
            if r.value is None or isinstance(r.value, ast.Constant) and not r.value.value:
                continue
            cs = conds(g, r)
            if any(self.never(t, pol, fixed) for t, pol, _, _ in cs if t is not None):
                continue
            if any(self.implies(g, t, pol, depth) for t, pol, _, _ in cs if t is not None) or self.implies(g, r.value, True, depth):
                continue
            return False
        return True

    def never(self, t, pol, fixed):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.never(t.operand, not pol, fixed)
        if isinstance(t, ast.BoolOp):
            vs = [self.never(v, pol, fixed) for v in t.values]
            return any(vs) if isinstance(t.op, ast.And) == pol else all(vs)
        if isinstance(t, ast.Name) and t.id in fixed:
            return bool(fixed[t.id]) != pol
        if isinstance(t, ast.Constant):
            return bool(t.value) != pol
        return False

    # ---- collections of patches
    def guarded(self, f, name, node):
        """A raising comparison of the dimensions of all elements before the node."""
        for s in walk_own(f.node):
            # every entry replaced by one re-arranged, unless it has the dimensions already
            if isinstance(s, ast.Assign) and s.lineno < getattr(node, "lineno", 0) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name for t in s.targets):
                cs = [(t, pol) for t, pol, kind, o in conds(f, s) if kind == "if" or kind == "leave" and any(isinstance(l, ast.For) and any(x is o for x in l.body) for l in walk_own(f.node))]
                if self.elem(f, s.value, None, lambda: UNKNOWN, 4) == OK and (not cs or all(t is not None and self.implies(f, t, not pol) for t, pol in cs)):
                    return True
            if not isinstance(s, (ast.If, ast.Assert)) or s.lineno >= getattr(node, "lineno", 0) or any(k not in ("leave",) for *_, k, _ in conds(f, s)):
                continue
            if isinstance(s, ast.If) and not (ends_raise(s.body) or ends_raise(s.orelse)):
                continue
            todo, seen = [s.test], set()
            while todo:
                e = todo.pop()
                for n in ast.walk(e):
                    if isinstance(n, (ast.SetComp, ast.GeneratorExp, ast.ListComp)) and any(isinstance(x, ast.Attribute) and x.attr == "dims" for x in ast.walk(n.elt)) \
                            and any(isinstance(x, ast.Name) and x.id == name for g in n.generators for x in ast.walk(g.iter)):
                        return True
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in seen:
                        seen.add(n.id)
                        todo += [src for _, src, how in defs_of(f).reaching(n.id, n) or [] if src is not None and how == "="]
        return False

    def coll(self, f, e, at, depth=10):
        if depth < 0:
            return UNKNOWN
        if isinstance(e, ast.NamedExpr):
            return self.coll(f, e.value, at, depth)
        if isinstance(e, ast.IfExp):
            return worst(self.coll(f, x, at, depth - 1) for x in (e.body, e.orelse))
        if isinstance(e, ast.Name):
            if self.guarded(f, e.id, at):
                return OK
            out = []
            for st, src, how in defs_of(f).reaching(e.id, e) or [(None, None, "entry")]:
                if src is None or how == "entry":
                    out.append(self.param(f, e.id, depth))
                elif how in ("=", "aug"):
                    if isinstance(src, ast.List) and not src.elts or isinstance(src, ast.Call) and (dotted(src.func) or [""])[-1] in ("list", "deque") and not src.args:
                        out.append(self.filled(f, e.id, depth))
                    else:
                        out.append(self.coll(f, src, src, depth - 1))
                elif isinstance(how, tuple) and how[0] == "item" and isinstance(src, ast.Call):
                    gs = self.targets(f, src)
                    out.append(worst(self.returned(g, how[1], depth - 1) for g in gs) if gs else UNKNOWN)
                elif how == "iter":
                    out.append(self.coll(f, src, src, depth - 1))
                else:
                    out.append(UNKNOWN)
            return worst(out)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            g = e.generators[-1]
            if any(self.implies(f, t, True) for x in e.generators for t in x.ifs):
                return OK
            var = g.target.id if isinstance(g.target, ast.Name) else None
            return self.elem(f, e.elt, var, lambda: self.coll(f, g.iter, g.iter, depth - 1), depth)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                return LOOSE if e.slice.value == "patch" else UNKNOWN
            return self.coll(f, e.value, at, depth - 1)
        if isinstance(e, ast.Starred):
            return self.coll(f, e.value, at, depth - 1)
        if isinstance(e, (ast.List, ast.Tuple)) and e.elts:
            return worst(self.coll(f, x, at, depth - 1) for x in e.elts) if all(isinstance(x, ast.Starred) for x in e.elts) else UNKNOWN
        if isinstance(e, ast.Call):
            last = (dotted(e.func) or [""])[-1]
            if last in ("list", "tuple", "sorted", "reversed", "iter", "islice", "enumerate", "tolist", "copy", "to_list") or last in ("tolist", "to_list", "copy"):
                src = e.args[0] if e.args else e.func.value if isinstance(e.func, ast.Attribute) else None
                return self.coll(f, src, at, depth - 1) if src is not None else UNKNOWN
            if last == "map" and len(e.args) == 2 and isinstance(e.args[0], ast.Lambda) and e.args[0].args.args:
                lam = e.args[0]
                return self.elem(f, lam.body, lam.args.args[0].arg, lambda: self.coll(f, e.args[1], at, depth - 1), depth)
            gs = self.targets(f, e)
            if gs:
                got = worst(self.returned(g, None, depth - 1) for g in gs)
                if got != UNKNOWN:
                    return got
            sts = [self.coll(f, a, at, depth - 1) for a in list(e.args) + [k.value for k in e.keywords]]
            return LOOSE if LOOSE in sts else OK if OK in sts else UNKNOWN
        return UNKNOWN

    def elem(self, f, e, var, base, depth):
        if isinstance(e, ast.Name) and e.id == var:
            return base()
        if isinstance(e, ast.IfExp):
            a = OK if self.implies(f, e.test, True) else self.elem(f, e.body, var, base, depth)
            b = OK if self.implies(f, e.test, False) else self.elem(f, e.orelse, var, base, depth)
            return worst([a, b])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr == "transpose" and e.args:
                return OK
            if e.func.attr in SAME_ORDER:
                return self.elem(f, e.func.value, var, base, depth)
            if e.func.attr == "func" and isinstance(e.func.value, ast.Attribute) and e.args:
                return OK if e.func.value.attr == "transpose" and len(e.args) > 1 else self.elem(f, e.args[0], var, base, depth) if e.func.value.attr in SAME_ORDER else UNKNOWN
        if isinstance(e, ast.Name) and var is not None:
            ds = defs_of(f).reaching(e.id, e) or []
            sts = [self.elem(f, s, var, base, depth - 1) for _, s, how in ds if s is not None and how == "=" and depth > 0]
            return worst(sts) if sts else UNKNOWN
        if isinstance(e, ast.Call):
            gs = self.targets(f, e)
            if gs and e.args and depth > 0:
                out = []
                for g in gs:
                    ps = [a.arg for a in g.node.args.args]
                    rets = [r.value for r in walk_own(g.node) if isinstance(r, ast.Return) and r.value is not None]
                    idx = next((i for i, a in enumerate(e.args) if any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(a))), None)
                    if idx is None or idx >= len(ps) or not rets:
                        return UNKNOWN
                    out += [OK if any(self.implies(g, t, pol) for t, pol, _, _ in conds(g, r) if t is not None) else self.elem(g, r, ps[idx], lambda: self.elem(f, e.args[idx], var, base, depth - 1), depth - 1) for r in rets]
                return worst(out)
        return UNKNOWN

    def filled(self, f, name, depth):
        """A list filled by append/extend in the function."""
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.args:
                if n.func.attr in ("append", "insert", "appendleft"):
                    out.append(self.one(f, n.args[-1], n, depth - 1))
                elif n.func.attr == "extend":
                    out.append(self.coll(f, n.args[0], n, depth - 1))
        return worst(out)

    def one(self, f, e, at, depth):
        """A single patch used at a place: aligned by the conditions there, or by where it comes from."""
        if depth < 0:
            return UNKNOWN
        if any(self.implies(f, t, pol) for t, pol, _, _ in conds(f, at) if t is not None):
            return OK
        if isinstance(e, ast.Name):
            out = []
            for st, src, how in defs_of(f).reaching(e.id, e) or []:
                # re-arranged unless it has the wanted dimensions already
                if src is not None and how == "=" and any(self.implies(f, t, not pol) for t, pol, kind, _ in conds(f, st) if t is not None and kind == "if") \
                        and self.elem(f, src, e.id, lambda: UNKNOWN, 4) == OK:
                    return OK
                if src is not None and how == "iter":
                    out.append(self.coll(f, src, src, depth - 1))
                elif src is not None and isinstance(how, tuple) and isinstance(st, ast.For) or src is not None and how == "iter":
                    out.append(self.coll(f, src, src, depth - 1))
                elif src is not None and how == "=":
                    out.append(self.one(f, src, at, depth - 1))
                else:
                    out.append(UNKNOWN)
            return worst(out)
        if isinstance(e, ast.Subscript):
            return self.coll(f, e.value, at, depth - 1)
        if isinstance(e, (ast.Call, ast.IfExp)):
            inner = [x for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
            for x in inner:
                got = self.elem(f, e, x.id, lambda x=x: self.one(f, x, at, depth - 1), depth)
                if got != UNKNOWN:
                    return got
        return UNKNOWN

    def returned(self, g, item, depth):
        if depth < 0:
            return UNKNOWN
        out = []
        for n in walk_own(g.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                v = n.value
                if item is not None:
                    if not (isinstance(v, ast.Tuple) and item < len(v.elts)):
                        out.append(UNKNOWN)
                        continue
                    v = v.elts[item]
                out.append(self.coll(g, v, v, depth - 1))
            elif isinstance(n, ast.YieldFrom):
                out.append(self.coll(g, n.value, n.value, depth - 1))
        return worst(out)

    def param(self, f, name, depth):
        if name not in f.all_params:
            outer = f.parent if not isinstance(f.parent, str) else self.p.functions.get(f.parent)
            if outer is None:
                return UNKNOWN
            ds = [d for d in defs_of(outer).defs.get(name, [])]
            if not ds:
                return self.param(outer, name, depth - 1) if depth else UNKNOWN
            return worst(self.coll(outer, s, s, depth - 1) if s is not None and how == "=" else UNKNOWN for _, s, how in ds)
        sites = self.callers.get(f.qual, [])
        got = []
        for g, call in sites:
            a = self.bound(f, call, name)
            if a is not None and depth > 0:
                got.append(self.coll(g, a, call, depth - 1))
        if f.parent is None and self.patch_root(f, name) and (not f.name.startswith("_") or not got):
            return LOOSE
        return worst(got) if got else UNKNOWN

    # ---- places where arrays are combined
    def arrays(self, f, e, depth=4):
        """Status of a collection of data arrays (None: it is none)."""
        if isinstance(e, ast.Name) and depth:
            if self.data_lists(f, e.id):
                return worst(self.data_lists(f, e.id))
            sts = [self.arrays(f, s, depth - 1) for _, s, how in defs_of(f).reaching(e.id, e) or [] if s is not None and how == "="]
            sts = [s for s in sts if s is not None]
            return worst(sts) if sts else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            g = e.generators[-1]
            if not isinstance(g.target, ast.Name):
                return None
            hold = [x.value for x in ast.walk(e.elt) if isinstance(x, ast.Attribute) and x.attr == "data"]
            hold = [h for h in hold if any(isinstance(x, ast.Name) and x.id == g.target.id for x in ast.walk(h))]
            if not hold:
                return None
            if any(self.implies(f, t, True) for t in g.ifs):
                return OK
            return worst(self.elem(f, h, g.target.id, lambda: self.coll(f, g.iter, e), 8) for h in hold)
        if isinstance(e, ast.Call) and (dotted(e.func) or [""])[-1] in ("list", "tuple") and e.args:
            return self.arrays(f, e.args[0], depth)
        return None

    def data_lists(self, f, name):
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.args:
                for x in ast.walk(n.args[0]):
                    if isinstance(x, ast.Attribute) and x.attr == "data":
                        out.append(self.one(f, x.value, n, 8))
        return out

    def sites(self, f):
        """(node, status) of the combinations of data arrays of several patches in a function."""
        par = None
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or [getattr(n.func, "attr", "")])[-1] in COMBINE and n.args:
                for a in n.args[:2]:
                    st = self.arrays(f, a)
                    if st is not None:
                        yield n, st
            acc = None
            if isinstance(n, ast.AugAssign):
                acc = (n.target, n.value)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                names = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id == t]
                if names and isinstance(n.value, (ast.BinOp, ast.Call)):
                    acc = (n.targets[0], n.value)
            if acc is None:
                continue
            par = par or parents(f.node)
            loop, x = None, n
            loops = []
            while id(x) in par:
                x = par[id(x)]
                if isinstance(x, ast.For):
                    loops.append(x)
            for h in ast.walk(acc[1]):
                if isinstance(h, ast.Attribute) and h.attr == "data" and isinstance(h.value, ast.Name):
                    if isinstance(acc[0], ast.Name) and h.value.id == acc[0].id:
                        continue
                    ds = defs_of(f).reaching(h.value.id, h) or []
                    if any(any(d[0] is l or d[0] in ast.walk(l) for l in loops) for d in ds if d[0] is not None):
                        yield n, self.one(f, h.value, n, 8)


def run(ctx, prog):
    sv = Several(ctx, prog)
    for f in list(prog.functions.values()):
        for n, st in sv.sites(f):
            ctx.count(f"combinations_{'undecided' if st == UNKNOWN else 'of_several_patches'}")
            if st == LOOSE:
                ctx.violation(f"several:{f.qual}", f"{f.where(n)} in {f.qual}: data arrays of several patches are combined position by position in `{ast.unparse(n)[:70]}`, "
                              "but nothing makes sure that their dimensions are in the same order (no transpose to common dimensions, no comparison of dims that rejects or skips others)")
