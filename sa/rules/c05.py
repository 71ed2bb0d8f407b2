"""C05: every processing step is recorded in the patch history."""
from __future__ import annotations

import ast

from ..absint import PATCH
from ..flow import Flow, backslice, defs_of
from ..model import walk_own

# Documented as unrecorded (selection, ordering, views, bookkeeping) or recording themselves.
UNRECORDED = {"select", "order", "transpose", "append_dims", "update", "new", "update_attrs", "set_dims", "pipe",
              "rolling", "apply_ufunc", "iselect", "sel", "isel"}
PD = "dascore.utils.patch.patch_function"
SCOPE = ("dascore.proc", "dascore.transform", "dascore.utils.array", "dascore.utils.patch", "dascore.utils.attrs",
         "dascore.core.attrs", "dascore.core.patch")


def in_scope(f):
    return f.module.name.startswith(SCOPE)


def decoration(prog, f):
    """(history argument node or None, found) of a patch_function decorator."""
    for d in f.decorators():
        q = prog.resolve(f.module, None, d.func if isinstance(d, ast.Call) else d)
        if q == PD:
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == "history":
                        return k.value, True
                if len(d.args) > 3:
                    return d.args[3], True
            return None, True
    return None, False


def fold(prog, mod, fi, e, depth=3):
    """Constant value of an expression through module constants; Ellipsis if unknown."""
    if e is None:
        return Ellipsis
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        vals = [fold(prog, mod, fi, x, depth) for x in e.elts]
        return tuple(vals)
    if depth and isinstance(e, (ast.Name, ast.Attribute)):
        q = prog.resolve(mod, fi, e)
        if q and "." in q:
            m, v = q.rsplit(".", 1)
            mm = prog.modules.get(m)
            if mm and len(mm.variables.get(v, [])) == 1:
                return fold(prog, mm, None, mm.variables[v][0], depth - 1)
    return Ellipsis


def returns_patchlike(f):
    r = getattr(f.node, "returns", None)
    if r is not None:
        s = ast.unparse(r)
        if s in ("bool", "int", "float", "str", "None", "pd.Series", "BaseCoord", "np.ndarray", "CoordManager"):
            return False
    return True


KEEP = {"update", "drop", "model_copy", "_conform_to", "model_dump", "copy", "items", "drop_private", "rename_dimension", "get_coord_manager",
        "from_dict", "flat_dump", "deepcopy"}


def whole_attrs(fi, e, prog, depth=4, item=None):
    """Does the whole attribute record of a patch (not just fields of it) make up the value of e?"""
    if depth < 0 or e is None or (isinstance(e, ast.Constant) and e.value is None):
        return True
    if isinstance(e, ast.Dict):
        for k, v in zip(e.keys, e.values):
            if isinstance(k, ast.Constant) and k.value == "attrs":
                return whole_attrs(fi, v, prog, depth - 1)
    if isinstance(e, ast.Call):
        for k in e.keywords:
            if k.arg == "attrs":
                return whole_attrs(fi, k.value, prog, depth - 1)
    rec = lambda x, it=None: whole_attrs(fi, x, prog, depth - 1, it)
    if isinstance(e, ast.Attribute):
        return e.attr == "attrs" or (e.attr not in ("coords",) and isinstance(e.value, ast.Name) and e.value.id == "self" and "attr" in e.attr)
    if isinstance(e, ast.Name):
        d = defs_of(fi)
        ds = d.reaching(e.id, e)
        # dict filled from the record later on
        for n in walk_own(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and is_name(n.func.value, {e.id}) and n.args:
                if rec(n.args[0]):
                    return True
        oks = []
        for s, src, how in ds:
            if how == "entry":
                oks.append(e.id in fi.all_params or fi.parent is not None)
            elif how in ("aug",):
                continue
            elif how in ("iter", "with", "*"):
                oks.append(True)
            elif isinstance(how, tuple):
                oks.append(rec(src, how[1]))
            else:
                oks.append(rec(src))
        return bool(oks) and all(oks)
    if isinstance(e, ast.IfExp):
        return rec(e.body) and rec(e.orelse)
    if isinstance(e, ast.BoolOp):
        return any(rec(v) for v in e.values)
    if isinstance(e, ast.BinOp):
        return rec(e.left) or rec(e.right)
    if isinstance(e, ast.NamedExpr):
        return rec(e.value)
    if isinstance(e, (ast.Starred, ast.Subscript)) and not (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str)):
        return rec(e.value)
    if isinstance(e, (ast.List, ast.ListComp)):
        return any(rec(x) for x in (e.elts if isinstance(e, ast.List) else [e.generators[0].iter, e.elt]))
    if isinstance(e, ast.Dict):
        return any(k is None and rec(v) for k, v in zip(e.keys, e.values))
    if isinstance(e, ast.DictComp):
        return rec(e.generators[0].iter)
    if isinstance(e, ast.Tuple) and item is not None and item < len(e.elts):
        return rec(e.elts[item])
    if isinstance(e, ast.Call):
        a = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        q = prog.resolve(fi.module, fi, e.func)
        g = prog.functions.get(q or "")
        if g is None and isinstance(e.func, ast.Attribute) and fi.cls and is_name(e.func.value, {"self", "cls"}):
            g = prog.functions.get(prog.class_member(fi.cls.qual, e.func.attr) or "")
        if g is not None and g.name not in KEEP:
            rets = [r.value for r in walk_own(g.node) if isinstance(r, ast.Return) and r.value is not None]
            return bool(rets) and all(whole_attrs(g, r, prog, depth - 1, item) for r in rets)
        if a in KEEP and isinstance(e.func, ast.Attribute) and q is None:
            return rec(e.func.value) or any(rec(x) for x in e.args)
        return any(rec(x) for x in e.args) or any(k.arg is None and rec(k.value) for k in e.keywords)
    return False


def history_reads(e):
    """Attribute nodes reading `.history` in an expression."""
    return [n for n in ast.walk(e) if isinstance(n, ast.Attribute) and n.attr == "history"]


def keeps_history(fi, value):
    """Why a value stored as history does not keep all earlier entries ('' when it does)."""
    names, attrs, calls, used = backslice(fi, [value], want_exprs=True)
    reads = []
    for e in used:
        par = {}
        for n in ast.walk(e):
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        for n in history_reads(e):
            reads.append(n)
            p = par.get(id(n))
            while p is not None:
                if isinstance(p, ast.Subscript) and any(x is n for x in ast.walk(p.value)):
                    return "only part of the earlier entries is kept"
                if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and any(g.ifs for g in p.generators):
                    return "earlier entries are filtered"
                if isinstance(p, ast.Call) and getattr(p.func, "id", getattr(p.func, "attr", "")) in ("set", "frozenset", "sorted", "reversed"):
                    return "the order of the entries is not kept"
                p = par.get(id(p))
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and history_reads(n.right) and not history_reads(n.left):
                return "the new entry is put before earlier ones"
            if isinstance(n, (ast.Tuple, ast.List)):
                for i, x in enumerate(n.elts):
                    if isinstance(x, ast.Starred) and history_reads(x) and i > 0:
                        return "the new entry is put before earlier ones"
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("insert", "pop", "remove", "clear", "reverse", "sort"):
                if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.func.value)):
                    return "earlier entries are not all kept in order"
    # statements mutating the names holding the history
    for s in walk_own(fi.node):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("insert", "pop", "remove", "clear", "reverse", "sort"):
            if isinstance(s.func.value, ast.Name) and s.func.value.id in names and reads and not (
                    s.func.attr == "pop" and s.args and isinstance(s.args[0], ast.Constant) and isinstance(s.args[0].value, str)):
                defs = [n for n in walk_own(fi.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == s.func.value.id for t in n.targets)]
                if any(history_reads(d.value) for d in defs):
                    return "earlier entries are removed or reordered"
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names:
                    defs = [n for n in walk_own(fi.node) if isinstance(n, ast.Assign) and any(isinstance(t2, ast.Name) and t2.id == t.value.id for t2 in n.targets)]
                    if any(history_reads(d.value) for d in defs):
                        return "earlier entries are deleted"
    if not reads:
        return "the earlier entries are not part of the value"
    return ""


def history_stores(root):
    """(node, value) where something is stored under the name history."""
    out = []
    for n in ast.walk(root):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == "history":
                    out.append((n, k.value))
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == "history":
                    out.append((n, v))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "history":
                    out.append((t, n.value))
    return out


# ---------------------------------------------------------------- R1

def check_ops(ctx, prog):
    c = prog.classes[PATCH]
    for name in sorted(set(c.attrs) | set(c.methods)):
        q = prog.class_member(PATCH, name)
        f = prog.functions.get(q or "")
        expr = c.attrs.get(name)
        if f is None or name.startswith("_"):
            if expr is not None and not name.startswith("_"):
                # Patch.op = something.func / .raw_function binds the undecorated function
                if isinstance(expr, ast.Attribute) and expr.attr in ("func", "raw_function", "__wrapped__"):
                    ctx.violation(f"unrecorded:{name}", f"{c.module.relpath}:{expr.lineno} Patch.{name} is bound to the undecorated function")
            continue
        if not f.module.name.startswith(("dascore.proc", "dascore.transform")):
            continue
        if name in UNRECORDED or not returns_patchlike(f) or name.startswith(("get_", "check_", "iter_")) or name in ("equals",):
            continue
        ctx.count("patch_operations")
        h, dec = decoration(prog, f)
        where = f.where()
        if not dec:
            # a thin function returning another recorded op would also record, but under another name
            ctx.violation(f"unrecorded:{f.qual}", f"{where}: patch operation is not wrapped by patch_function, so nothing is recorded")
            continue
        if h is not None:
            v = fold(prog, f.module, None, h)
            if v is None or v is False or v == "":
                ctx.violation(f"unrecorded:{f.qual}", f"{where}: patch operation changes data or coordinates but is declared history={v!r}")
                continue
        ctx.count("recorded_operations")
        if ctx.counts["recorded_operations"] % 12 == 1:
            ctx.sample(f"{f.qual}: recorded through patch_function")


# ---------------------------------------------------------------- R2

def is_name(e, names):
    return isinstance(e, ast.Name) and e.id in names


def exempt(test, pol, hist_names):
    """Does this branch outcome mean that nothing has to be recorded?"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, r = test.ops[0], test.comparators[0]
        if isinstance(r, ast.Constant) and r.value is None and isinstance(test.left, ast.Name) and test.left.id in hist_names:
            return pol if isinstance(op, (ast.Is, ast.Eq)) else (not pol)
        if isinstance(op, ast.IsNot) and isinstance(test.left, ast.Name) and isinstance(r, ast.Name):
            return not pol
        if isinstance(op, ast.Is) and isinstance(test.left, ast.Name) and isinstance(r, ast.Name):
            return pol
        return False
    if isinstance(test, ast.Call) and getattr(test.func, "id", "") in ("hasattr", "isinstance"):
        if getattr(test.func, "id", "") == "hasattr":
            return not pol
        return not pol and any("Patch" in ast.unparse(a) for a in test.args[1:])
    if isinstance(test, ast.Name):
        return not pol and test.id in hist_names
    if isinstance(test, ast.NamedExpr):
        return not pol and test.target.id in hist_names
    return False


class Recorder:
    def __init__(self, ctx, prog):
        self.ctx, self.p, self.memo = ctx, prog, {}

    def run(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = (frozenset(), [])
        stores = {id(n): v for n, v in history_stores(f.node)}
        # names which being empty/None mean there is no entry to record
        hist_names = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.NamedExpr)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                txt = [c for c in ast.walk(n.value) if isinstance(c, ast.Call)]
                for t in ts:
                    if isinstance(t, ast.Name):
                        if any((self.p.resolve(f.module, f, c.func) or "").endswith("_get_history_str") for c in txt):
                            hist_names.add(t.id)
                        if isinstance(n.value, ast.Dict) or (isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "dict"):
                            if any(isinstance(x, ast.Assign) and any(isinstance(tt, ast.Subscript) and is_name(tt.value, {t.id}) for tt in x.targets)
                                   for x in ast.walk(f.node)):
                                hist_names.add(t.id)
        up = f
        while up is not None:
            hist_names |= {p for p in up.all_params if "history" in p or "hist" in p}
            up = up.parent
        hist_names |= {p for p in f.all_params if "update" in p}

        def gen(n):
            out = set()
            if id(n) in stores:
                out.add("stored")
            if isinstance(n, ast.Call):
                a = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if a in ("update_attrs", "_fast_attr_update"):
                    out.add("applied")
                    if any(k.arg == "history" for k in n.keywords):
                        out.add("stored")
                g = self.p.functions.get(self.p.resolve(f.module, f, n.func) or "")
                if g is not None and g is not f and g.module.name == "dascore.utils.patch" and g.name not in ("check_patch_coords", "check_patch_attrs"):
                    ex, _ = self.run(g)
                    out |= ex
            return out

        def refine(t, pol, st):
            if st is not None and exempt(t, pol, hist_names):
                return st | {"exempt", "stored", "applied"}
            return st

        fl = Flow(f, gen, refine=refine)
        need = [(k, n, st) for k, n, st in fl.exits if "exempt" not in st]
        out = None
        for _, _, st in need:
            out = st if out is None else out & st
        res = (frozenset(out or ()) - {"exempt"}, [(n, st) for k, n, st in need if not {"stored", "applied"} <= st])
        self.memo[f.qual] = res
        return res


def check_wrapper(ctx, prog):
    pf = prog.functions.get(PD)
    if pf is None:
        ctx.violation("wrapper-gone", "dascore.utils.patch.patch_function no longer exists")
        return
    inner = [f for f in prog.functions.values() if f.qual.startswith(PD + ".") and f.params[:1] and
             any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in _outer_params(f) and any(isinstance(a, ast.Starred) for a in n.args)
                 for n in walk_own(f.node))]
    if not inner:
        ctx.violation("wrapper-gone", f"{pf.where()}: no inner function calls the wrapped operation")
        return
    rec = Recorder(ctx, prog)
    for f in inner:
        ctx.count("recording_wrappers")
        facts, bad = rec.run(f)
        for n, st in bad:
            missing = "recorded" if "stored" not in st else "attached to the result"
            ctx.violation("wrapper-path", f"{f.module.relpath}:{n.lineno} {f.qual}: a result other than the input patch can be returned without its history entry being {missing}")
        fns = [f] + [g for n in ast.walk(f.node) if isinstance(n, ast.Call)
                     for g in [prog.functions.get(prog.resolve(f.module, f, n.func) or "")] if g is not None and g.module.name == "dascore.utils.patch"]
        seen = False
        for g in fns:
            for n, v in history_stores(g.node):
                if isinstance(v, ast.Name) and v.id in _outer_params(g) | set(g.all_params) or (isinstance(n, ast.Call) and not _is_update(n)):
                    continue
                seen = True
                ctx.count("history_values")
                why = keeps_history(g, v)
                if why:
                    ctx.violation("wrapper-history", f"{g.module.relpath}:{n.lineno} {g.qual}: {why}")
                names, attrs, calls = backslice(g, [v])
                first = f.params[0]
                for a in attrs:
                    if a.endswith(".attrs.history") and g is f and a.split(".")[0] == first:
                        ctx.violation("wrapper-base", f"{g.module.relpath}:{n.lineno} {g.qual}: the new history starts from the input's history, dropping what the operation itself recorded")
                if not any((prog.resolve(g.module, g, c.func) or "").endswith("_get_history_str") for c in calls) and g is f:
                    ctx.violation("wrapper-entry", f"{g.module.relpath}:{n.lineno} {g.qual}: the entry added does not come from _get_history_str")
        if not seen:
            ctx.violation("wrapper-history", f"{f.where()}: no history value is stored")
    g = prog.functions.get("dascore.utils.patch._get_history_str")
    if g is None:
        return
    fparam = g.params[1] if len(g.params) > 1 else "func"
    hp = {p for p in g.all_params if "history" in p}
    for mode in ("full", "method_name"):
        def decide(t, pol, st):
            if st is None:
                return st
            if is_name(t, hp):
                return st if pol else None
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and is_name(t.left, hp):
                c = fold(prog, g.module, g, t.comparators[0])
                if c is Ellipsis:
                    return st
                op = t.ops[0]
                r = (mode in c if isinstance(c, (tuple, str)) else False) if isinstance(op, (ast.In, ast.NotIn)) else mode == c
                if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                    r = not r
                return st if r == pol else None
            return st

        vals = {}
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        vals[id(t)] = n.value

        def named(v):
            if v is None or isinstance(v, ast.Constant):
                return False
            names, attrs, calls = backslice(g, [v])
            if any(a.endswith(".__name__") for a in attrs):
                return True
            for c in calls:
                h = prog.functions.get(prog.resolve(g.module, g, c.func) or "")
                if h is not None and any(is_name(a, {fparam}) for a in c.args):
                    hr = [r.value for r in walk_own(h.node) if isinstance(r, ast.Return) and r.value is not None]
                    if hr and all(any(a.endswith(".__name__") for a in backslice(h, [r])[1]) for r in hr):
                        return True
            return False

        def gen(n):
            if id(n) in vals and named(vals[id(n)]):
                return {"named:" + n.id}
            return ()

        def kill(n):
            if id(n) in vals and not named(vals[id(n)]):
                return {"named:" + n.id}
            return ()

        fl = Flow(g, gen, kill=kill, refine=decide)
        for kind, node, st in fl.exits:
            ctx.count("entry_string_paths")
            v = getattr(node, "value", None) if kind == "return" else None
            ok = ("named:" + v.id in st) if isinstance(v, ast.Name) else named(v)
            if not ok:
                ctx.violation("entry-missing", f"{g.module.relpath}:{node.lineno} {g.qual}: with history={mode!r} the returned entry does not name the operation (or is None)")


def _outer_params(f):
    out, up = set(), f.parent
    while up is not None:
        out |= set(up.all_params)
        up = up.parent
    return out


def _is_update(call):
    a = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, "id", "")
    return a in ("update_attrs", "update", "model_copy", "PatchAttrs", "dict", "_fast_attr_update")


# ---------------------------------------------------------------- R3

def constructions(prog, f):
    """(call, attrs-argument or None, kind) for calls building a patch."""
    out = []
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        q = prog.resolve(f.module, f, n.func)
        a = n.func.attr if isinstance(n.func, ast.Attribute) else ""
        kw = {k.arg: k.value for k in n.keywords}
        star = any(k.arg is None for k in n.keywords)
        if q == PATCH or (a == "__class__" and ast.unparse(n.func.value) in ("patch", "self", "self.patch") and f.module.name.startswith(SCOPE)
                          and not (f.cls and f.cls.qual != PATCH and ast.unparse(n.func.value) == "self")):
            if a == "__class__" and f.module.name == "dascore.core.attrs":
                continue
            at = kw.get("attrs", n.args[3] if len(n.args) > 3 else None)
            if star and at is None:
                at = next(k.value for k in n.keywords if k.arg is None)
            out.append((n, at, "ctor"))
        elif a == "from_parts":
            out.append((n, kw.get("attrs", n.args[2] if len(n.args) > 2 else None), "from_parts"))
        elif a in ("new", "update") and "attrs" in kw:
            out.append((n, kw["attrs"], "new"))
    return out


def check_kept(ctx, prog):
    writers = set()
    for f in prog.functions.values():
        if not in_scope(f):
            continue
        st = history_stores_own(f)
        for n, v in st:
            if isinstance(n, ast.Call) and not _is_update(n):
                continue
            if isinstance(v, ast.Constant) and v.value is None:
                pass
            if f.qual.startswith(PD):
                continue
            if isinstance(v, ast.Name) and v.id in f.all_params:
                continue
            ctx.count("history_values")
            why = keeps_history(f, v)
            if why and not f.module.name.endswith(("utils.patch",)) or (why and n is not None and not _is_df(n)):
                ctx.violation(f"history-value:{f.qual}", f"{f.where(n)}: {why}")
            else:
                writers.add(f.qual)
        # dropping history
        for n in walk_own(f.node):
            bad = False
            if isinstance(n, ast.Call):
                a = n.func.attr if isinstance(n.func, ast.Attribute) else ""
                vals = [fold(prog, f.module, f, x.value if isinstance(x, ast.Starred) else x) for x in n.args]
                flat = [y for x in vals for y in (x if isinstance(x, tuple) else (x,))]
                if a in ("pop", "drop", "drop_attrs", "__delitem__") and "history" in flat:
                    bad = True
                if a == "model_dump":
                    for k in n.keywords:
                        if k.arg == "exclude":
                            v = fold(prog, f.module, f, k.value)
                            if v == "history" or (isinstance(v, tuple) and "history" in v):
                                bad = True
            elif isinstance(n, ast.Delete):
                bad = any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "history" for t in n.targets)
            elif isinstance(n, (ast.DictComp, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                for g in n.generators:
                    for t in g.ifs:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Constant) and x.value == "history":
                                bad = True
                            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                                v = fold(prog, f.module, f, x)
                                bad |= isinstance(v, tuple) and "history" in v
            if bad and not _bool_only(f):
                ctx.violation(f"history-dropped:{f.qual}", f"{f.where(n)}: the history is removed from attributes")
        # constructions
        if not f.module.name.startswith(("dascore.proc", "dascore.transform", "dascore.utils.array")):
            continue
        for n, at, kind in constructions(prog, f):
            ctx.count("construction_sites")
            if at is None:
                ctx.violation(f"attrs-lost:{f.qual}", f"{f.where(n)}: a patch is built without the attributes (and history) of the input")
                continue
            if not whole_attrs(f, at, prog):
                if isinstance(at, ast.Name) and at.id in f.all_params:
                    continue
                ctx.violation(f"attrs-lost:{f.qual}", f"{f.where(n)}: the attributes of the patch built here do not come from those of the input, so earlier history entries are lost")
    # self-recording operations
    for f in prog.functions.values():
        top = f
        while top.parent is not None:
            top = top.parent
        selfrec = (top.qual in ("dascore.utils.patch.concatenate_patches", "dascore.utils.patch.stack_patches") or
                   (f.module.name == "dascore.proc.rolling" and f.cls is not None))
        if not selfrec:
            continue
        for n, at, kind in constructions(prog, f):
            ctx.count("self_recording_sites")
            if at is None:
                ctx.violation(f"self-record:{f.qual}", f"{f.where(n)}: the result carries no recorded history")
                continue
            ok = recorded(prog, f, at, 4)
            if not ok:
                ctx.violation(f"self-record:{f.qual}", f"{f.where(n)}: the attributes of the result do not carry an entry for this operation")


def _is_df(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "assign"


def _bool_only(f):
    rets = [r.value for r in walk_own(f.node) if isinstance(r, ast.Return)]
    return bool(rets) and all(isinstance(r, (ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp)) or
                              (isinstance(r, ast.Call) and getattr(r.func, "id", getattr(r.func, "attr", "")) in ("bool", "all", "any", "equals", "allclose")) for r in rets)


def history_stores_own(f):
    ids = {id(x) for x in walk_own(f.node)}
    kids = set()
    for c in f.children.values():
        kids |= {id(x) for x in ast.walk(c.node)}
    return [(n, v) for n, v in history_stores(f.node) if id(n) not in kids]


def recorded(prog, f, e, depth):
    """Does the attribute value certainly carry a new history entry?"""
    if isinstance(e, ast.Call):
        for n, v in history_stores(e):
            if not keeps_history(f, v):
                return True
        g = prog.functions.get(prog.resolve(f.module, f, e.func) or "")
        if g is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and f.cls:
            g = prog.functions.get(prog.class_member(f.cls.qual, e.func.attr) or "")
        if g is not None and depth:
            rets = [r.value for r in walk_own(g.node) if isinstance(r, ast.Return)]
            if rets and all(r is not None and recorded(prog, g, r, depth - 1) for r in rets):
                return True
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ("update", "_conform_to", "drop_private", "model_copy", "drop", "rename_dimension") and recorded(prog, f, e.func.value, depth):
                return True
            for k in e.keywords:
                if k.arg is None and recorded(prog, f, k.value, depth):
                    return True
        return False
    if isinstance(e, ast.IfExp):
        return recorded(prog, f, e.body, depth) and recorded(prog, f, e.orelse, depth)
    if isinstance(e, ast.Dict):
        return any(not keeps_history(f, v) for n, v in history_stores(e))
    if isinstance(e, ast.Name):
        defs = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and any(is_name(t, {e.id}) for t in n.targets)]
        stores = [v for n, v in history_stores_own(f) if isinstance(n, ast.Subscript) and is_name(n.value, {e.id})]
        if any(not keeps_history(f, v) for v in stores):
            return True
        return bool(defs) and all(recorded(prog, f, d, depth) for d in defs)
    return False


def run(ctx):
    prog = ctx.prog
    ctx.rule("R1 every function of dascore.proc/dascore.transform bound as a Patch method that returns a changed patch is wrapped by patch_function with history enabled")
    ctx.rule("R2 every path of patch_function's wrapper on which the result is not the input patch itself stores `result history + entry naming the operation` and attaches it")
    ctx.rule("R3 no operation builds its result from attributes that do not come from the input's whole attribute record, removes or reorders history entries; rolling, concatenate and stack record themselves on every path")
    ctx.assumptions += [
        "select, order, transpose, append_dims, set_dims, update/new, update_attrs, pipe and element-wise operators are taken as documented-unrecorded.",
        "Operations composed of other recorded operations may record those too; exactly-once is not claimed.",
    ]
    check_ops(ctx, prog)
    check_wrapper(ctx, prog)
    check_kept(ctx, prog)
    ctx.require("patch_operations", 40)
    ctx.require("construction_sites", 10)
    ctx.require("recording_wrappers", 1)
