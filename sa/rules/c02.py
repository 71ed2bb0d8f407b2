"""C02: patches, coordinates and attributes cannot be edited in place."""
from __future__ import annotations

import ast

from ..absint import Interp, Val, PATCH, CM, COORD, ATTRS
from ..construct import Build, slot_events, params_for, LOCK
from ..flow import defs_of, Flow
from ..model import Program, walk_own

SUMMARY = "dascore.core.coords.CoordSummary"
MUTABLE_ANN = {"builtins.dict", "builtins.list", "builtins.set", "numpy.ndarray", "typing.Dict", "typing.List", "typing.Set",
               "collections.abc.MutableMapping", "collections.defaultdict", "bytearray"}


def is_patchlike(prog, base):
    known = [t for t in base.ty if t in prog.classes]
    return not known or any(prog.is_subclass(t, PATCH) for t in known)


# ---------------------------------------------------------------- lock function
def _locks(n):
    """Is this AST node an operation making an array read-only / writable? -> False/True/None"""
    if isinstance(n, ast.Assign):
        for t in n.targets:
            w = None
            if isinstance(t, ast.Attribute) and t.attr == "writeable":
                w = n.value
            elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value in ("WRITEABLE", "W"):
                w = n.value
            if w is not None:
                return not (isinstance(w, ast.Constant) and w.value in (False, 0))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setflags":
        w = next((k.value for k in n.keywords if k.arg == "write"), n.args[0] if n.args else None)
        if w is not None:
            return not (isinstance(w, ast.Constant) and w.value in (False, 0))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and \
            isinstance(n.args[1], ast.Constant) and n.args[1].value == "writeable":
        return not (isinstance(n.args[2], ast.Constant) and n.args[2].value in (False, 0))
    return None


def _about_flag(e, fi):
    """Does the expression stand for the array itself or its flags?"""
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and "flag" in n.attr or isinstance(n, ast.Constant) and n.value in ("flags", "writeable", "setflags"):
            return True
    if isinstance(e, ast.Name):
        return e.id in fi.all_params or any(src is not None and not isinstance(src, ast.Name) and _about_flag(src, fi) for _, src, _ in defs_of(fi).reaching(e.id, e))
    return False


def _capability_test(e, fi):
    """Only asks whether the object has a write flag at all."""
    if isinstance(e, ast.BoolOp):
        return all(_capability_test(v, fi) for v in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return _capability_test(e.operand, fi)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and any(
            isinstance(c, ast.Constant) and c.value is None for c in e.comparators) and _about_flag(e.left, fi)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("hasattr",):
        return any(isinstance(a, ast.Constant) and a.value in ("flags", "writeable", "setflags") for a in e.args)
    if isinstance(e, ast.Name):      # `if flags:`
        return "flag" in e.id or _about_flag(e, fi) and e.id not in fi.all_params
    return False


class _LockFlow(Flow):
    """Facts: 'locked' established by a read-only store or by a failed capability test;
    operations under suppress/try count (they fail only for objects without the flag)."""

    def __init__(self, prog, fi, locked_calls):
        self.prog, self.locked_calls = prog, locked_calls
        super().__init__(fi, self._gen)

    def _gen(self, n):
        if isinstance(n, ast.Call):
            if _locks(n) is False:
                return {"locked"}
            q = self.prog.resolve(self.fi.module, self.fi, n.func)
            if q in self.locked_calls:
                return {"locked"}
        return ()

    def s_Assign(self, s, st):
        st = super().s_Assign(s, st)
        if _locks(s) is False and st is not None:
            st = st | {"locked"}
        return st

    def s_If(self, s, st):
        if _capability_test(s.test, self.fi):
            from ..flow import meet
            st = self.expr(s.test, st)
            has = self._body_locks(s.body)
            els = self._body_locks(s.orelse)
            a = self.block(s.body, st if has or not els else st | {"locked"})
            b = self.block(s.orelse, st)
            # one side has the flag (and must lock), the other lacks it
            if a is not None and "locked" in a and b is not None:
                b = b | {"locked"}
            elif b is not None and "locked" in b and a is not None:
                a = a | {"locked"}
            elif a is None:
                # early return for objects without a flag: mark those exits as fine
                self.exits = [(k, n, e | {"locked"}) if _inside(s.body, n) else (k, n, e) for k, n, e in self.exits]
            return meet(a, b)
        return super().s_If(s, st)

    def _body_locks(self, body):
        return any(_locks(n) is False for s in body for n in ast.walk(s))

    def s_With(self, s, st):
        out = super().s_With(s, st)
        # suppress(AttributeError, ValueError) around the lock only covers objects that cannot be locked
        if out is not None and any(_locks(n) is False for n in ast.walk(s)) and all(
                not isinstance(x, (ast.If, ast.For, ast.While)) for b in s.body for x in ast.walk(b)):
            out = out | {"locked"}
        return out

    def s_Try(self, s, st):
        out = super().s_Try(s, st)
        if out is not None and any(_locks(n) is False for b in s.body for n in ast.walk(b)) and all(
                not isinstance(x, (ast.If, ast.For, ast.While)) for b in s.body for x in ast.walk(b)):
            out = out | {"locked"}
        return out


def _inside(body, node):
    return any(x is node for s in body for x in ast.walk(s))


def locking_functions(prog):
    """Functions that leave their (single) array argument/result read-only on every path."""
    out = set()
    for _ in range(4):
        new = set()
        for fi in prog.functions.values():
            if fi.module.name not in ("dascore.compat",) and not any(_locks(n) is False for n in ast.walk(fi.node)) and not out:
                continue
            if not any((isinstance(n, (ast.Assign, ast.Call)) and _locks(n) is False) or
                       (isinstance(n, ast.Call) and prog.resolve(fi.module, fi, n.func) in out) for n in ast.walk(fi.node)):
                continue
            if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fi.node)):
                continue
            if fi.module.name != "dascore.compat" and not any(_locks(n) is False for n in ast.walk(fi.node)):
                continue
            ex = _LockFlow(prog, fi, out).at_exit()
            if ex is not None and "locked" in ex:
                new.add(fi.qual)
        if new == out:
            break
        out = new
    return out


# ---------------------------------------------------------------- model classes
def effective_config(prog, cqual, key):
    """Effective pydantic config value; child overrides parent."""
    val, where = None, None
    for q in reversed(prog.mro(cqual)):
        c = prog.classes.get(q)
        if c is None:
            continue
        ex = c.attrs.get("model_config")
        cands = []
        if ex is not None:
            if isinstance(ex, ast.Call):
                cands += [k for k in ex.keywords if k.arg == key]
            if isinstance(ex, ast.Dict):
                for k, v in zip(ex.keys, ex.values):
                    if isinstance(k, ast.Constant) and k.value == key:
                        cands.append(ast.keyword(arg=key, value=v))
        cands += [k for k in c.node.keywords if k.arg == key]
        for k in cands:
            val, where = (k.value.value if isinstance(k.value, ast.Constant) else "?"), c
    return val, where


def check_models(ctx, prog):
    roots = [r for r in (CM, COORD, ATTRS, SUMMARY) if r in prog.classes]
    for r in (CM, COORD, ATTRS):
        if r not in prog.classes:
            ctx.violation(f"class-gone:{r}", f"{r} is no longer a class of the package; nothing guarantees its immutability")
    seen = set()
    for r in roots:
        for q in [r] + list(prog.subclasses(r)):
            if q in seen:
                continue
            seen.add(q)
            c = prog.classes[q]
            ctx.count("immutable_model_classes")
            val, where = effective_config(prog, q, "frozen")
            if val is not True:
                w = (where or c)
                ctx.violation(f"not-frozen:{q}", f"{c.module.relpath}:{c.node.lineno} class {q} has effective model config frozen={val} "
                              f"(set in {w.qual}); its attributes can be assigned")
            for name, m in c.methods.items():
                if name in ("__setattr__", "__delattr__", "__setitem__", "__delitem__", "__iadd__", "__ior__"):
                    if not _rejects(m):
                        ctx.violation(f"mutating-dunder:{m.qual}", f"{m.module.relpath}:{m.node.lineno} {m.qual} lets instances be edited in place")
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__", "__delattr__"):
                    base = n.func.value
                    if isinstance(base, ast.Name) and base.id in ("object", "BaseModel"):
                        ctx.violation(f"frozen-bypass:{q}", f"{c.module.relpath}:{n.lineno} object.__setattr__ bypasses the frozen model {q}")
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and not s.target.id.startswith("_"):
                    bad = _mutable_ann(prog, c, s.annotation)
                    ctx.count("model_fields")
                    if bad:
                        ctx.violation(f"mutable-field:{q}.{s.target.id}", f"{c.module.relpath}:{s.lineno} field {s.target.id} of immutable model "
                                      f"{q} is declared as mutable {bad}; its content can be edited in place")
    ctx.require("immutable_model_classes", 20)


def _rejects(m):
    """Only raises, or delegates to setattr on self (rejected by the frozen model)."""
    ok = False
    for n in ast.walk(m.node):
        if isinstance(n, ast.Raise):
            ok = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
            ok = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__", "__delattr__"):
            return isinstance(n.func.value, ast.Call)     # super().__setattr__
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return False
    return ok


def _mutable_ann(prog, c, ann):
    """Name of a mutable type the annotation admits at its top level, or None."""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(ann, ast.BinOp):
        return _mutable_ann(prog, c, ann.left) or _mutable_ann(prog, c, ann.right)
    if isinstance(ann, ast.Subscript):
        q = prog.resolve(c.module, None, ann.value)
        if q in ("typing.Annotated", "typing_extensions.Annotated"):
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            # a plain validator replaces the declared type (FrozenDict, array)
            if any("alidator" in ast.dump(x) for x in elts[1:]):
                return _mutable_ann(prog, c, elts[0]) if False else None
            return _mutable_ann(prog, c, elts[0])
        if q in ("typing.Optional", "typing.Union"):
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            for x in elts:
                b = _mutable_ann(prog, c, x)
                if b:
                    return b
            return None
        if q in ("typing.ClassVar",):
            return None
        return q if q in MUTABLE_ANN else None
    q = prog.resolve(c.module, None, ann)
    return q if q in MUTABLE_ANN else None


# ---------------------------------------------------------------- validators
FD = "dascore.utils.mapping.FrozenDict"


def _deref(prog, mod, e, depth=4):
    """Follow module-level names to their defining expression: (module, expr)."""
    while depth > 0 and isinstance(e, (ast.Name, ast.Attribute)):
        q = prog.resolve(mod, None, e)
        if not q or not q.startswith("dascore.") or q in prog.functions or q in prog.classes:
            return mod, e
        m, _, n = q.rpartition(".")
        mm = prog.modules.get(m)
        if mm is None or n not in mm.variables:
            return mod, e
        mod, e = mm, mm.variables[n][-1]
        depth -= 1
    return mod, e


def _validator_fn(prog, mod, e):
    """The function given to a pydantic validator marker, or None."""
    mod, e = _deref(prog, mod, e)
    if isinstance(e, ast.Call) and (prog.resolve(mod, None, e.func) or "").startswith("pydantic.") and "alidator" in (prog.resolve(mod, None, e.func) or ""):
        if e.args:
            return mod, e.args[0]
    return None


def _fn_info(prog, mod, fe):
    from ..model import FunctionInfo
    if isinstance(fe, ast.Lambda):
        return FunctionInfo(f"{mod.name}.<lambda>", "<lambda>", fe, mod)
    q = prog.resolve(mod, None, fe)
    return prog.functions.get(q) if q else None


def check_validators(ctx, prog, lockers):
    it = Interp(prog)
    classes = set()
    for r in (CM, COORD, ATTRS):
        if r in prog.classes:
            classes |= {r, *prog.subclasses(r)}
    for q in sorted(classes):
        c = prog.classes[q]
        frozen_fields = set()
        for s in c.node.body:
            if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)):
                continue
            mod, ann = _deref(prog, c.module, s.annotation)
            if not (isinstance(ann, ast.Subscript) and (prog.resolve(mod, None, ann.value) or "").endswith(".Annotated")):
                continue
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            head = elts[0].value if isinstance(elts[0], ast.Subscript) else elts[0]
            hq = prog.resolve(mod, None, head)
            vals = [v for v in (_validator_fn(prog, mod, x) for x in elts[1:]) if v]
            is_alias = isinstance(s.annotation, ast.Name) and s.annotation.id == "ArrayLike"
            if hq == FD:
                frozen_fields.add(s.target.id)
                ctx.count("protected_fields")
                f = _fn_info(prog, *vals[-1]) if vals else None
                ok = False
                if vals and prog.resolve(vals[-1][0], None, vals[-1][1]) == FD:
                    ok = True
                if f is not None:
                    ret, _ = it.run_entry(f, {n: Val(al={n}) for n in f.all_params})
                    ok = ok or ret.ty == {FD}
                if not ok:
                    ctx.violation(f"unfrozen-field:{q}.{s.target.id}", f"{c.module.relpath}:{s.lineno} the validator of {q}.{s.target.id} does not "
                                  "turn the value into a FrozenDict")
            elif is_alias or (s.target.id in ("values", "data") and q != ATTRS):
                ctx.count("protected_fields")
                ok = False
                for vm, ve in vals:
                    f = _fn_info(prog, vm, ve)
                    if f is None:
                        continue
                    if f.qual in lockers:
                        ok = True
                    elif f.node and any(isinstance(x, ast.Call) and prog.resolve(vm, f, x.func) in lockers for x in ast.walk(f.node)):
                        ok = True
                if not ok:
                    ctx.violation(f"unlocked-field:{q}.{s.target.id}", f"{c.module.relpath}:{s.lineno} array field {q}.{s.target.id} is not passed "
                                  "through the read-only lock")
        for m in c.methods.values():
            for d in m.decorators():
                if isinstance(d, ast.Call) and (prog.resolve(c.module, None, d.func) or "").endswith("field_validator"):
                    names = {a.value for a in d.args if isinstance(a, ast.Constant)}
                    inherited = frozen_fields or {x.target.id for b in prog.mro(q) if b in prog.classes for x in prog.classes[b].node.body
                                                  if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "FrozenDict" in ast.dump(x.annotation)}
                    if names & inherited:
                        ret, _ = it.run_entry(m, {n: Val(al={n}) if i else Val(fn={("class", q)}) for i, n in enumerate(m.params)}, cls=c)
                        if ret.ty and ret.ty != {FD}:
                            ctx.violation(f"unfrozen-validator:{m.qual}", f"{m.module.relpath}:{m.node.lineno} {m.qual} replaces a protected mapping by "
                                          f"{', '.join(sorted(ret.ty))}")
    ctx.require("protected_fields", 3)


# ---------------------------------------------------------------- FrozenDict
MUTATORS = {"__setitem__", "__delitem__", "update", "pop", "popitem", "clear", "setdefault", "__ior__"}


def check_frozendict(ctx, prog):
    q = "dascore.utils.mapping.FrozenDict"
    c = prog.classes.get(q)
    if c is None:
        ctx.violation("frozendict-gone", f"{q} no longer exists; coordinate maps are not protected")
        return
    for b in prog.mro(q)[1:]:
        if b in ("builtins.dict", "collections.UserDict", "collections.OrderedDict", "collections.abc.MutableMapping", "typing.MutableMapping"):
            ctx.violation("frozendict-base", f"{c.module.relpath}:{c.node.lineno} FrozenDict inherits the mutable {b}")
    it = Interp(prog)
    for name, m in c.methods.items():
        if name in MUTATORS and not _only_raises(m):
            ctx.violation(f"frozendict-mutator:{name}", f"{m.module.relpath}:{m.node.lineno} FrozenDict.{name} allows editing in place")
        if it._is_static(m):
            continue
        if name == "__init__":
            ps = params_for(it, m)
            _, evs = it.run_entry(m, ps, cls=c)
            continue
        ret, evs = it.run_entry(m, params_for(it, m), cls=c)
        for kind, g, node, _, d in evs:
            if kind == "mut" and any(o == "self._dict" or o.startswith("self._dict[") for o in d["origins"]):
                ctx.violation(f"frozendict-edit:{name}", f"{g.module.relpath}:{node.lineno} FrozenDict.{name} edits its private dictionary: {d['how']}")
        if any(o == "self._dict" for o in ret.al):
            ctx.violation(f"frozendict-leak:{name}", f"{m.module.relpath}:{m.node.lineno} FrozenDict.{name} hands out its private dictionary")
        ctx.count("frozendict_methods")
    init = c.methods.get("__init__")
    if init is not None:
        class _I(Interp):
            bad = None

            def hook_store_attr(self, fr, stmt, t, base, v, env):
                if t.attr == "_dict" and v.al:
                    self.bad = stmt

        i2 = _I(prog)
        i2.run_entry(init, params_for(i2, init), cls=c)
        if i2.bad is not None:
            ctx.violation("frozendict-alias", f"{init.module.relpath}:{i2.bad.lineno} FrozenDict stores the mapping it was given instead of a copy")


DICT_EDITS = {"update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__"}


def check_frozendict_users(ctx, prog):
    """Nobody else edits the private dictionary of a FrozenDict."""
    own = {f"{FD}.{n}" for n in prog.classes[FD].methods} if FD in prog.classes else set()
    keeps = {c.qual for c in prog.classes.values() if c.qual != FD and any(isinstance(t, ast.Attribute) and t.attr == "_dict" and isinstance(t.value, ast.Name) and t.value.id == "self"
                                                                          for m in c.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Assign) for t in n.targets)}
    for f in prog.functions.values():
        if f.qual in own or f.cls is not None and f.cls.qual in keeps:
            continue

        def private(e):
            if isinstance(e, ast.Attribute) and e.attr == "_dict":
                return True
            return isinstance(e, ast.Name) and any(how == "=" and src is not None and isinstance(src, ast.Attribute) and src.attr == "_dict" for _, src, how in defs_of(f).reaching(e.id, e))
        for n in walk_own(f.node):
            bad = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DICT_EDITS and private(n.func.value)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
                    bad = bad or isinstance(t, ast.Subscript) and private(t.value) or isinstance(t, ast.Attribute) and t.attr == "_dict" or isinstance(n, ast.AugAssign) and private(t)
            if bad:
                ctx.violation(f"frozendict-edit:{f.qual}", f"{f.where(n)}: {f.qual} edits the private dictionary of a frozen mapping: `{ast.unparse(n)[:80]}`")


def _only_raises(m):
    body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[-1], ast.Raise)


# ---------------------------------------------------------------- main analysis
def analyse(ctx, prog):
    lockers = locking_functions(prog)
    ctx.count("locking_functions", len(lockers))
    # (1) every store to Patch._data
    evs, fns, ents, it = slot_events(prog)
    ctx.count("patch_slot_store_functions", len(fns))
    for entry, f, node, stack, d in evs:
        if d["attr"] != "_data" or not is_patchlike(prog, d["base"]):
            continue
        ctx.count("data_slot_stores")
        tags = {t for t in d["val"].al if not t.startswith("VALID") and t != "UNCHECKED"}
        bad = [t for t in tags if t != "RO" and not t.endswith("._data")]
        if bad or not tags:
            ctx.violation(f"unlocked-data:{f.qual}", f"{f.module.relpath}:{node.lineno} {f.qual} stores patch data that was not passed through "
                          f"the read-only lock (value may be {', '.join(sorted(bad)) or 'an unprotected new array'}; path {' -> '.join(stack)})")
        elif "RO" in tags and LOCK not in lockers:
            fi = prog.functions.get(LOCK)
            where = f"{fi.module.relpath}:{fi.node.lineno}" if fi else "dascore/compat.py"
            ctx.violation("lock-incomplete", f"{where} {LOCK} does not make the array read-only on every path, but {f.qual} relies on it")
    # (2) nothing lifts the protection
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.Assign, ast.Call)):
                w = _locks(n)
                if w is not None:
                    ctx.count("write_flag_operations")
                if w:
                    ctx.violation(f"write-flag:{mod.name}", f"{mod.relpath}:{n.lineno} an array is made writable again")
    # (3) properties of Patch have no setters / deleters
    pc = prog.classes.get(PATCH)
    if pc is None:
        ctx.violation("class-gone:Patch", "class Patch not found")
        return
    for s in pc.node.body:
        if isinstance(s, ast.FunctionDef):
            for d in s.decorator_list:
                if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                    ctx.violation(f"patch-setter:{s.name}", f"{pc.module.relpath}:{s.lineno} Patch.{s.name} can be assigned")
            if s.name in ("__setitem__", "__delitem__", "__setattr__", "__delattr__", "__iadd__", "__isub__", "__imul__", "__itruediv__",
                          "__ifloordiv__", "__ipow__", "__imod__", "__iand__", "__ior__", "__ixor__"):
                if not _only_raises(pc.methods[s.name]):
                    ctx.violation(f"patch-inplace:{s.name}", f"{pc.module.relpath}:{s.lineno} Patch defines the in-place protocol {s.name}")
    for name in ("data", "coords", "attrs", "dims", "shape"):
        m = pc.methods.get(name)
        if m is None or not any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in m.decorators()):
            ctx.violation(f"patch-property:{name}", f"{pc.module.relpath}:{pc.node.lineno} Patch.{name} is no longer a read-only property")
        ctx.count("patch_properties")
    # (4) cached coordinate arrays are locked
    b = Build(prog)
    for q in [COORD] + list(prog.subclasses(COORD)):
        c = prog.classes.get(q)
        if c is None:
            continue
        for name, m in c.methods.items():
            decs = {(d.func if isinstance(d, ast.Call) else d) for d in m.decorators()}
            names = {x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "") for x in decs}
            if name in ("values", "data") and names & {"cached_method", "cached_property", "cache", "lru_cache"}:
                ctx.count("cached_coordinate_arrays")
                ret, _ = b.run_entry(m, params_for(b, m), cls=c)
                bad = [t for t in ret.al if t not in ("RO", "UNCHECKED") and not t.startswith("VALID")]
                if bad or not ret.al:
                    ctx.violation(f"writable-cached-array:{m.qual}", f"{m.module.relpath}:{m.node.lineno} {m.qual} caches and hands out an array that "
                                  f"was not made read-only ({', '.join(sorted(bad))})")
    check_models(ctx, prog)
    check_validators(ctx, prog, lockers)
    check_frozendict(ctx, prog)
    check_frozendict_users(ctx, prog)


def run(ctx):
    ctx.rule("Every store into a patch's data slot holds a value that passed through the read-only lock (or another patch's data); the lock "
             "function sets the write flag to False on every path for arrays that have one; no code sets a write flag back; Patch exposes its parts "
             "through properties without setters; every attribute/coordinate model class is effectively frozen, declares no mutable container field "
             "and has no mutating protocol method; FrozenDict copies its input, has no mutator and never leaks its dictionary; cached coordinate "
             "arrays are locked before they are handed out.")
    analyse(ctx, ctx.prog)
    ctx.require("data_slot_stores", 2)
    ctx.require("patch_properties", 5)
    ctx.assumptions += ["array-likes without a numpy write flag are outside the guarantee (as documented in compat.array)",
                        "pydantic's frozen=True rejects attribute assignment and deletion"]
