"""C03: a patch's data, dimensions and coordinates always agree in shape."""
from __future__ import annotations

import ast

from ..absint import Interp, PATCH, CM, COORD, ATTRS
from ..construct import Build, slot_events, params_for, outermost
from ..flow import Flow, backslice, MustCall, eval_order, defs_of
from ..guards import guard_tests, loop_pseudo, LoopFlow
from .c02 import is_patchlike

DIM_ATTRS = {"dims", "dim_tuple"}


def _compare_nodes(test):
    return [n for n in ast.walk(test) if isinstance(n, ast.Compare)]


def _roots_with(fi, expr, last):
    """Root identifiers r for which some `r...<last>` influences expr."""
    names, attrs, calls = backslice(fi, [expr])
    roots = set()
    for a in attrs:
        p = a.split(".")
        if p[-1] in last:
            roots.add(".".join(p[:-1]))
    for c in calls:
        fn = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if fn in last and c.args:                      # np.shape(x)
            d = c.args[0]
            while isinstance(d, (ast.Attribute, ast.Subscript)):
                d = d.value
            if isinstance(d, ast.Name):
                roots.add(d.id)
    return roots


def dims_guard_nodes(fi):
    """Compare nodes (in raising guards) relating the dims of two objects."""
    out = set()
    for test, st in guard_tests(fi.node):
        for c in _compare_nodes(test):
            weak = any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("len", "set", "sorted", "frozenset") for x in ast.walk(c))
            strict = all(isinstance(o, (ast.Eq, ast.NotEq)) for o in c.ops)
            if len(_roots_with(fi, c, DIM_ATTRS)) >= 2 and strict and not weak and not _escaped(fi, test, st):
                out.add(id(c))
    return out


def _escaped(fi, test, st):
    """A conjunction weakens the guard: it only fires when something else holds too."""
    return isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And)


def shape_guard_nodes(fi, param):
    """Comparisons relating self.shape to the argument's full shape."""
    out = set()
    for c in ast.walk(fi.node):
        if isinstance(c, ast.Compare):
            if len(c.ops) != 1 or not isinstance(c.ops[0], (ast.Eq, ast.NotEq)):
                continue
            sides = [c.left] + list(c.comparators)
        elif isinstance(c, ast.Call) and getattr(c.func, "attr", getattr(c.func, "id", "")) == "array_equal" and len(c.args) == 2:
            sides = c.args
        else:
            continue
        infl = []
        for s in sides:
            roots = _roots_with(fi, s, {"shape"})
            # len()/size/ndim/slices of the shape weaken the comparison
            weak = any((x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) in ("len", "prod", "sum", "max", "set", "sorted")
                       for x in ast.walk(s) if isinstance(x, ast.Call)) or any(isinstance(x, ast.Subscript) for x in ast.walk(s))
            infl.append((roots, weak))
        allr = set().union(*[r for r, _ in infl])
        if any("self" in r.split(".") or r == "self" for r in allr) and len(allr) >= 2 and not any(w for _, w in infl):
            out.add(id(c))
    return out


def equal_side(t, pol):
    """Does this outcome of the comparison mean that both sides are equal?"""
    if isinstance(t, ast.Call):
        return pol
    return pol == isinstance(t.ops[0], ast.Eq)


def shape_flow(fi, good, gen=lambda n: ()):
    return Flow(fi, gen, refine=lambda t, pol, st: st | {"shape"} if st is not None and id(t) in good and equal_side(t, pol) else st)


def check_validate_data(ctx, prog):
    q = prog.class_member(CM, "validate_data")
    f = prog.functions.get(q) if q else None
    if f is None:
        ctx.violation("shape-check-gone", f"{CM}.validate_data no longer exists")
        return
    param = f.params[1] if len(f.params) > 1 else None
    good = shape_guard_nodes(f, param)
    mc = {}

    def gen(n):
        if isinstance(n, ast.Call):
            g = prog.functions.get(prog.resolve(f.module, f, n.func) or "")
            if g is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f.cls:
                g = prog.functions.get(prog.class_member(f.cls.qual, n.func.attr) or "")
            if g is not None and g is not f and shape_guard_nodes(g, None):
                gg = shape_guard_nodes(g, None)
                ex = shape_flow(g, gg).at_exit()
                if ex is None or "shape" in ex:
                    return {"shape"}
        return ()

    fl = shape_flow(f, good, gen)
    ctx.count("shape_checked_exits", len(fl.exits))
    for kind, node, st in fl.exits:
        if "shape" not in st:
            ctx.violation("shape-check-skipped", f"{f.module.relpath}:{node.lineno} {f.qual} can return data whose shape was not compared with the "
                          "full shape of the coordinates")


def check_cm_validator(ctx, prog):
    c = prog.classes[CM]
    vals = [m for m in c.methods.values() if any(isinstance(d, ast.Call) and (prog.resolve(c.module, None, d.func) or "").endswith("model_validator")
                                                 for d in m.decorators())]
    ok_shape = ok_dim = False
    why = "CoordManager has no model validator"
    for m in vals:
        fns = [m] + [g for n in ast.walk(m.node) if isinstance(n, ast.Call)
                     for g in [prog.functions.get(prog.resolve(m.module, m, n.func) or "") or
                               (prog.functions.get(prog.class_member(CM, n.func.attr) or "") if isinstance(n.func, ast.Attribute) else None)] if g]
        for f in fns:
            guards = {id(t): (t, s) for t, s in guard_tests(f.node)}
            for loop in [n for n in ast.walk(f.node) if isinstance(n, (ast.For,))]:
                names, attrs, _, used = backslice(f, [loop.iter], want_exprs=True)
                srcs = names | {a.split(".")[-1] for a in attrs} | {x.value for u in used for x in ast.walk(u) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                pf = loop_pseudo(f, loop)
                good_s, good_d, free = set(), set(), set()
                ltargets = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
                for cmp_ in [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Compare)]:
                    if len(cmp_.ops) != 1 or not isinstance(cmp_.ops[0], (ast.Eq, ast.NotEq)):
                        continue
                    sides = [cmp_.left] + list(cmp_.comparators)
                    if all(_shape_infl(f, x) for x in sides):
                        good_s.add(id(cmp_))
                        for x in sides:     # an empty expectation: coordinate without dimensions
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and any(isinstance(e, (ast.GeneratorExp, ast.ListComp)) for _, e, h in defs_of(f).reaching(y.id, y) if e is not None for e in ast.walk(e)):
                                    free.add(y.id)
                    if any(isinstance(x, ast.Tuple) and len(x.elts) == 1 for x in sides):
                        good_d.add(id(cmp_))

                def refine(t, pol, st, good):
                    if st is None:
                        return st
                    if id(t) in good and equal_side(t, pol):
                        return st | {"s"}
                    if isinstance(t, ast.Name) and not pol and (t.id in free or t.id in ltargets):
                        return st | {"s"}
                    return st
                if good_s and ("dim_map" in srcs):
                    fl = LoopFlow(pf, lambda n: (), refine=lambda t, p, st: refine(t, p, st, good_s))
                    ex = fl.at_exit()
                    if ex is None or "s" in ex:
                        ok_shape = True
                        ctx.count("coordinate_shape_loops")
                if good_d and "dims" in srcs:
                    fl = LoopFlow(pf, lambda n: (), refine=lambda t, p, st: refine(t, p, st, good_d))
                    ex = fl.at_exit()
                    if ex is None or "s" in ex:
                        ok_dim = True
            # comprehension form: any(...)/all(...) over dim_map in a raising guard
            for t, s in guards.values():
                for n in ast.walk(t):
                    if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
                        cs = _compare_nodes(n.elt)
                        for cmp_ in cs:
                            if all(_shape_infl(f, x) for x in [cmp_.left] + list(cmp_.comparators)):
                                ok_shape = True
                            if any(isinstance(x, ast.Tuple) and len(x.elts) == 1 for x in [cmp_.left] + list(cmp_.comparators)):
                                ok_dim = True
        why = "no validator loop compares every coordinate's shape with the shape of its dimensions on every iteration"
    line = c.node.lineno
    if not ok_shape:
        ctx.violation("coord-shape-check", f"{c.module.relpath}:{line} {why}")
    if not ok_dim:
        ctx.violation("coord-dim-check", f"{c.module.relpath}:{line} no validator checks that each dimension's own coordinate is attached to exactly that dimension")
    ctx.count("coord_manager_validators", len(vals))


def _shape_infl(f, e):
    _, attrs, calls = backslice(f, [e])
    weak = any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("len", "set", "sorted") for x in ast.walk(e))
    return any(a.split(".")[-1] == "shape" for a in attrs) and not weak


def check_bypass(ctx, prog):
    """Constructing models without validation."""
    protected = {CM, COORD, PATCH, *prog.subclasses(CM), *prog.subclasses(COORD)}

    class B(Interp):
        def hook_call(self, fr, node, qual, args, kwargs, recv, env):
            nm = qual.rsplit(".", 1)[-1]
            if nm in ("model_construct", "model_copy", "construct", "copy") and recv is not None:
                ts = set(recv.ty) | {f[1] for f in recv.fn if f[0] == "class"}
                upd = kwargs or args
                if ts & protected and (nm in ("model_construct", "construct") or upd):
                    self.emit(fr, node, "bypass", name=nm, ty=sorted(ts & protected))
            return None

    it = B(prog)
    for fi in prog.functions.values():
        hit = [n for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and n.attr in ("model_construct", "model_copy", "construct")]
        if not hit or fi.parent is not None:
            continue
        ctx.count("unvalidated_construction_sites", len(hit))
        _, evs = it.run_entry(fi, params_for(it, fi), cls=fi.cls)
        for kind, f, node, stack, d in evs:
            if kind == "bypass":
                ctx.violation(f"validation-bypass:{f.qual}", f"{f.module.relpath}:{node.lineno} {f.qual} uses {d['name']} to build "
                              f"{', '.join(d['ty'])} without running the shape validation")
    for fi in prog.functions.values():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "model_construct":
                q = prog.resolve(fi.module, fi, n.func.value)
                c = fi.cls.qual if fi.cls and isinstance(n.func.value, ast.Name) and n.func.value.id in ("cls", "self") else q
                if c in protected:
                    ctx.violation(f"validation-bypass:{fi.qual}", f"{fi.module.relpath}:{n.lineno} {fi.qual} uses model_construct to build {c} "
                                  "without running the shape validation")


def analyse(ctx, prog):
    evs, fns, ents, it = slot_events(prog)
    groups = {}
    for entry, f, node, stack, d in evs:
        if not is_patchlike(prog, d["base"]):
            continue
        groups.setdefault((entry.qual, f.qual, tuple(stack)), {}).setdefault(d["attr"], []).append((d["val"], node, f))
    merged = {}
    for (eq, fq, st), slots in groups.items():
        m = {k: list(v) for k, v in slots.items()}
        related = False
        for (eq2, fq2, st2), sl2 in groups.items():
            if eq2 == eq and st2 != st and st[:len(st2)] == st2:      # stores made by a caller on the same call chain
                for k, v in sl2.items():
                    m.setdefault(k, []).extend(v)
            if eq2 == eq and st2 != st and st2[:len(st)] == st and "_data" in sl2:
                related = True
        if "_data" not in m:
            if related:
                continue
            v, node, ff = next(iter(m.values()))[0]
            ctx.violation(f"partial-rebuild:{fq}", f"{ff.module.relpath}:{node.lineno} {fq} replaces {', '.join(sorted(m))} of an existing patch without "
                          "validating its data against them")
            continue
        merged[(eq, fq, st)] = m
    for (eq, fq, st), slots in merged.items():
        ctx.count("construction_routes")
        f = prog.functions[fq]
        coords = set().union(*[v.al or {f"NEW@{n.lineno}"} for v, n, _ in slots.get("_coords", [])]) if "_coords" in slots else None
        for v, node, ff in slots.get("_data", []):
            tags = v.al
            copied = {t for t in tags if t.endswith("._data")}
            valid = {t for t in tags if t.startswith("VALID")}
            if copied and not valid and "UNCHECKED" not in tags and not (tags - copied - {"RO"}):
                own = {t[: -len("._data")] for t in copied}
                cs = {c[: -len("._coords")] for c in (coords or set()) if c.endswith("._coords")}
                if coords is not None and (own != cs or any(not c.endswith("._coords") for c in coords)):
                    ctx.violation(f"unvalidated-copy:{fq}", f"{ff.module.relpath}:{node.lineno} {fq} keeps one patch's data but stores coordinates that "
                                  "are not that patch's, without comparing their shapes")
                continue
            if not valid or "UNCHECKED" in tags:
                ctx.violation(f"shape-unchecked:{fq}", f"{ff.module.relpath}:{node.lineno} {fq} builds a patch from data whose shape was not validated "
                              f"against its coordinates (via {eq})")
                continue
            src = {x for t in valid for x in t[6:-1].split(",")}
            if coords is not None and coords and src != coords and "?" not in src:
                ctx.violation(f"wrong-coords-checked:{fq}", f"{ff.module.relpath}:{node.lineno} {fq} validates the data against other coordinates than "
                              "the ones it stores")
        # dimension names: attrs against coords
        if "_attrs" in slots and "_coords" in slots:
            data_copied = all(all(t.endswith("._data") for t in v.al) for v, _, _ in slots.get("_data", []) if v.al) and slots.get("_data")
            if data_copied and all(c.endswith("._coords") for c in coords):
                ctx.count("copies_of_validated_patches")
                continue
            # the guard must run on every path of a function on the call chain
            chain = [prog.functions[q] for q in dict.fromkeys(list(st) + [fq, eq]) if q in prog.functions]
            if not any(dims_checked(prog, g) for g in chain):
                ctx.violation(f"dims-unchecked:{fq}", f"{f.module.relpath}:{f.node.lineno} {fq} builds a patch without comparing the dimension names of "
                              "attributes and coordinates on every path")
    check_validate_data(ctx, prog)
    check_cm_validator(ctx, prog)
    check_bypass(ctx, prog)


_DC = {}


def dims_checked(prog, fi, depth=4):
    key = (id(prog), fi.qual)
    if key in _DC:
        return _DC[key]
    _DC[key] = False
    own = dims_guard_nodes(fi)

    def gen(n):
        if id(n) in own:
            return {"dims"}
        if isinstance(n, ast.Call) and depth > 0:
            g = prog.functions.get(prog.resolve(fi.module, fi, n.func) or "")
            if g is not None and g is not fi and dims_checked(prog, g, depth - 1):
                # both arguments must be handed over
                if len(n.args) + len(n.keywords) >= 2:
                    return {"dims"}
        return ()

    ex = Flow(fi, gen).at_exit()
    _DC[key] = ex is None or "dims" in ex
    return _DC[key]


def run(ctx):
    ctx.rule("Every route that fills a Patch's slots (found by interprocedural value flow) stores data that was validated by validate_data of exactly the "
             "coordinates it stores, or copies data and coordinates of one existing patch; the attributes/coordinates dimension-name guard runs on every "
             "path; validate_data returns only after an equality test of the full shapes whose failing side raises; CoordManager's model validator compares "
             "each coordinate's shape with its dimensions' shape on every loop iteration; no CoordManager or coordinate is built through an unvalidated "
             "pydantic constructor.")
    analyse(ctx, ctx.prog)
    ctx.require("construction_routes", 2)
    ctx.require("coord_manager_validators", 1)
    ctx.assumptions += ["pydantic runs model validators on every construction except model_construct/model_copy"]
