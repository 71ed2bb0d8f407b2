"""How Patch objects are built: what reaches the private slots of a Patch."""
from __future__ import annotations

import ast

from .absint import Interp, Val, PATCH, NOC, CM
from .model import Program

SLOTS = ("_data", "_coords", "_attrs")
LOCK = "dascore.compat.array"


class Build(Interp):
    """Abstract interpreter that names every otherwise anonymous value."""

    def __init__(self, prog, lockers=(LOCK,)):
        super().__init__(prog)
        self.lockers = set(lockers)

    def ev(self, e, env, fr):
        v = super().ev(e, env, fr)
        if isinstance(e, (ast.Call, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Subscript)) and not v.al and not v.fn and v.const is NOC and v.kind is None:
            v = v.but(al={f"FRESH@{getattr(e, 'lineno', 0)}:{getattr(e, 'col_offset', 0)}"})
        return v

    def hook_result(self, fr, node, qual, args, kwargs, recv, env, out):
        a = args[0] if args else next(iter(kwargs.values()), None)
        if qual in self.lockers:
            tags = {"RO"}
            if a is not None:
                ok = {t for t in a.al if t.startswith("VALID") or t.endswith("._data")}
                tags |= ok
                if a.al - ok or not a.al:
                    tags.add("UNCHECKED")
            return Val(al=tags, ty={"numpy.ndarray"}, nn=True)
        if qual.rsplit(".", 1)[-1] == "validate_data":
            src = ",".join(sorted(recv.al)) if recv is not None and recv.al else "?"
            return Val(al={f"VALID<{src}>"}, ty={"numpy.ndarray"}, nn=True)
        return out

    def hook_store_attr(self, fr, stmt, t, base, v, env):
        if t.attr in SLOTS:
            self.emit(fr, stmt, "slot", attr=t.attr, val=v, base=base, target=t)


def store_functions(prog: Program):
    """Functions with a store to a patch slot on something other than a foreign class' self."""
    out = []
    for fi in prog.functions.values():
        for n in ast.walk(fi.node):
            hit = False
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in SLOTS:
                hit = True
            elif isinstance(n, ast.Call) and n.args:
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if nm in ("setattr", "__setattr__") and any(isinstance(a, ast.Constant) and a.value in SLOTS for a in n.args):
                    hit = True
            if hit:
                out.append(fi)
                break
    return out


def outermost(fi):
    while fi.parent is not None:
        fi = fi.parent
    return fi


def callers_of(prog, fi):
    out = []
    for g in prog.functions.values():
        if g is fi:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                if prog.resolve(g.module, g, n.func) == fi.qual:
                    out.append(g)
                    break
                if fi.cls is not None and isinstance(n.func, ast.Attribute) and n.func.attr == fi.name:
                    out.append(g)
                    break
    return out


def entry_points(prog, fns, depth=3):
    """Public (or outermost) functions from which the given functions are reached."""
    out, todo, seen = {}, [(outermost(f), depth) for f in fns], set()
    while todo:
        f, d = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        private = f.name.startswith("_") and not f.name.startswith("__")
        cs = [outermost(c) for c in callers_of(prog, f)] if private and d > 0 else []
        if cs:
            todo += [(c, d - 1) for c in cs]
        else:
            out[f.qual] = f
    return list(out.values())


def params_for(it, fi):
    ps = {n: it.default_param(fi, n, n) for n in fi.all_params}
    if fi.cls is not None and fi.params and not it._is_static(fi):
        s = fi.params[0]
        if it._is_class(fi):
            ps[s] = Val(fn={("class", fi.cls.qual)}, nn=True)
        elif fi.name in ("__init__", "__new__"):
            ps[s] = Val(ty={fi.cls.qual}, kind="obj", items=(), nn=True)
        else:
            ps[s] = Val(al={s}, ty={fi.cls.qual}, nn=True)
    return ps


def slot_events(prog):
    """[(entry, function, node, attr, Val, base Val)] for stores into Patch slots."""
    it = Build(prog)
    fns = store_functions(prog)
    evs = []
    ents = entry_points(prog, fns)
    for fi in ents:
        _, ev = it.run_entry(fi, params_for(it, fi), cls=fi.cls)
        for kind, f, node, stack, data in ev:
            if kind == "slot":
                evs.append((fi, f, node, stack, data))
    return evs, fns, ents, it
