"""C06: operations check their declared prerequisites before running."""
from __future__ import annotations

import ast

from ..absint import PATCH
from ..flow import Flow, backslice, defs_of, eval_order
from ..guards import guard_tests, ends_raise
from ..model import walk_own
from .c05 import PD, fold, is_name, _outer_params

OPS = ("dascore.proc", "dascore.transform")

# Requirements documented for the operations (dimension/attribute prerequisites).
DECLARED = {
    "dascore.transform.strain.velocity_to_strain_rate": ({"distance"}, {"data_type": "velocity"}),
    "dascore.transform.strain.velocity_to_strain_rate_edgeless": ({"distance"}, {"data_type": "velocity"}),
    "dascore.transform.dispersion.dispersion_phase_shift": ({"time", "distance"}, {}),
    "dascore.transform.taup.tau_p": ({"time", "distance"}, {}),
}

# Operations that need an evenly sampled / sorted coordinate (raise CoordError otherwise).
SAMPLING = {
    "dascore.transform.hilbert.hilbert": {"even"},
    "dascore.transform.hilbert.envelope": {"even"},
    "dascore.transform.hilbert.phase_weighted_stack": {"even"},
    "dascore.transform.fourier.dft": {"even"},
    "dascore.transform.fourier.idft": {"even"},
    "dascore.transform.fourier.stft": {"even"},
    "dascore.transform.spectro.spectrogram": {"even"},
    "dascore.proc.correlate.correlate_shift": {"even"},
    "dascore.proc.resample.resample": {"even", "sorted"},
    "dascore.transform.strain.velocity_to_strain_rate_edgeless": {"even"},
    "dascore.transform.strain.radians_to_strain": set(),
    "dascore.transform.kurtosis.kurtosis": {"even"},
    "dascore.transform.taup.tau_p": {"even"},
    "dascore.proc.mute.slope_mute": {"sorted"},
    "dascore.proc.taper.taper_range": {"sorted"},
    "dascore.proc.align.align_to_coord": {"even"},
    "dascore.transform.dispersion.dispersion_phase_shift": {"even"},
    "dascore.proc.taper.taper_range": {"sorted"},
}


class Opt(Flow):
    """Must-flow that takes loops and comprehensions to run at least once."""

    def _loop(self, s, st, entry, body_entry):
        self.loops.append(([], []))
        after = self.block(s.body, body_entry)
        brk, cont = self.loops.pop()
        out = after
        for b in brk + cont:
            out = b if out is None else out & b
        if out is None:
            out = entry
        if s.orelse:
            out = self.block(s.orelse, out)
        return out


def callee(prog, f, call):
    q = prog.resolve(f.module, f, call.func)
    g = prog.functions.get(q or "")
    if g is not None:
        return g
    if isinstance(call.func, ast.Attribute):
        n = call.func
        if n.attr in ("func", "raw_function") and isinstance(n.value, (ast.Name, ast.Attribute)):
            q = prog.resolve(f.module, f, n.value)
            g = prog.functions.get(q or "")
            if g is None and isinstance(n.value, ast.Attribute):
                g = prog.functions.get(prog.class_member(PATCH, n.value.attr) or "")
            return g
        if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and f.cls:
            g = prog.functions.get(prog.class_member(f.cls.qual, n.attr) or "")
            if g is not None:
                return g
        m = prog.functions.get(prog.class_member(PATCH, n.attr) or "")
        if m is not None and m.module.name.startswith(OPS):
            return m
    return None


class Sampling:
    """Which sampling requirements an operation certainly imposes."""

    def __init__(self, prog):
        self.p, self.memo = prog, {}

    def facts_of_call(self, f, c, depth):
        out = set()
        a = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        for k in c.keywords:
            if k.arg in ("require_evenly_sampled", "require_evenly_spaced", "require_sorted"):
                v = fold(self.p, f.module, f, k.value)
                fact = "sorted" if k.arg == "require_sorted" else "even"
                if v is True:
                    out.add(fact)
        if a in ("get_coord", "get_array"):
            return out
        if depth > 0:
            g = callee(self.p, f, c)
            if g is not None:
                # keyword requirements are only worth something if the callee hands them on
                out2 = self.must(g, depth - 1)
                flags = {"even": ("require_evenly_sampled", "require_evenly_spaced"), "sorted": ("require_sorted",)}
                out = {o for o in out if any(isinstance(x, ast.Call) and any(isinstance(k.value, ast.Name) and k.value.id in g.all_params and k.arg in flags[o]
                                                                             for k in x.keywords) for x in ast.walk(g.node))}
                out |= out2
        return out

    def must(self, f, depth=5):
        key = (f.qual, depth)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()

        def gen(n):
            if isinstance(n, ast.Call):
                return self.facts_of_call(f, n, depth)
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                out = set()
                elts = [n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]
                if not any(g.ifs for g in n.generators):
                    for e in elts:
                        for x in eval_order(e):
                            if isinstance(x, ast.Call):
                                out |= self.facts_of_call(f, x, depth)
                return out
            return ()

        st = None
        for kind, node, x in Opt(f, gen).exits:
            v = getattr(node, "value", None) if kind == "return" else None
            if isinstance(v, ast.Name) and f.params[:1] == [v.id] and all(h == "entry" for _, _, h in defs_of(f).reaching(v.id, v)):
                continue            # the input patch itself is returned: nothing was computed
            st = x if st is None else st & x
        self.memo[key] = frozenset(st or ())
        return self.memo[key]


# ---------------------------------------------------------------- R1 wrapper order

def check_order(ctx, prog):
    inner = [f for f in prog.functions.values() if f.qual.startswith(PD + ".") and f.params[:1] and
             any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in _outer_params(f) and any(isinstance(a, ast.Starred) for a in n.args)
                 for n in walk_own(f.node))]
    if not inner:
        ctx.violation("wrapper-gone", "no inner function of patch_function calls the wrapped operation")
        return
    memo = {}

    def facts(f, n, depth):
        """Requirements discharged by one call: which closure requirement reaches which check."""
        out = set()
        if not isinstance(n, ast.Call):
            return out
        q = prog.resolve(f.module, f, n.func) or ""
        args = list(n.args) + [k.value for k in n.keywords]
        names = {a.id for a in args if isinstance(a, ast.Name)}
        outer = _outer_params(f) | set(f.all_params)
        kw = {k.arg: k.value for k in n.keywords}
        if q.endswith(".check_patch_coords"):
            d = kw.get("dims", n.args[1] if len(n.args) > 1 else None)
            c = kw.get("coords", n.args[2] if len(n.args) > 2 else None)
            if is_name(d, outer) and "dim" in d.id:
                out.add("dims")
            if is_name(c, outer) and "coord" in c.id:
                out.add("coords")
        elif q.endswith(".check_patch_attrs"):
            a = kw.get("required_attrs", n.args[1] if len(n.args) > 1 else None)
            if is_name(a, outer) and "attr" in a.id:
                out.add("attrs")
        elif depth > 0:
            g = prog.functions.get(q)
            if g is not None and g is not f and g.module is f.module and not names & {"func"}:
                if g.qual not in memo:
                    memo[g.qual] = frozenset()
                    memo[g.qual] = Flow(g, lambda m: facts(g, m, depth - 1)).at_exit() or frozenset()
                out |= memo[g.qual]
        return out

    for f in inner:
        reqs = {"dims", "coords", "attrs"}
        outer = _outer_params(f)

        def refine(t, pol, st):
            # a requirement that is None needs no check
            if st is None:
                return st
            if isinstance(t, ast.Compare) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.left, ast.Name):
                none = pol if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not pol
                if none:
                    return st | {w for w in reqs if w[:-1] in t.left.id}
            if isinstance(t, ast.Name) and not pol:
                return st | {w for w in reqs if "required" in t.id and w[:-1] in t.id}
            return st

        def visit(n, st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in outer and any(isinstance(a, ast.Starred) for a in n.args):
                ctx.count("operation_call_sites")
                for r in sorted(reqs - set(st)):
                    ctx.violation(f"unchecked:{r}", f"{f.module.relpath}:{n.lineno} {f.qual}: the operation can run before the declared required {r} were checked")

        Flow(f, lambda n: facts(f, n, 3), visit=visit, refine=refine)


# ---------------------------------------------------------------- R2 the checks

def fslice(fi, e, seen=None):
    """Flow-sensitive backward slice: the expressions a value is computed from."""
    seen = {} if seen is None else seen
    if e is None or id(e) in seen:
        return seen
    seen[id(e)] = e
    d = defs_of(fi)
    bound = {x.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
            for s, src, how in d.reaching(n.id, n):
                if src is not None:
                    fslice(fi, src, seen)
    return seen


def guard_parts(f):
    """[(part, whole test)] disjuncts of raising tests (conjuncts only next to None tests)."""
    out = []
    for test, st in guard_tests(f.node):
        def split(t, conj):
            if isinstance(t, ast.BoolOp):
                for v in t.values:
                    split(v, conj or isinstance(t.op, ast.And))
            else:
                out.append((t, conj))
        split(test, False)
    return out


def _mentions(f, e, param, avail=None):
    sl = fslice(f, e)
    p = any(isinstance(n, ast.Name) and n.id == param for x in sl.values() for n in ast.walk(x))
    a = None
    if avail:
        a = any(isinstance(n, ast.Attribute) and n.attr in avail for x in sl.values() for n in ast.walk(x))
        if avail <= {"dims", "dim_tuple"} and any(isinstance(n, ast.Attribute) and n.attr in ("coord_map", "dim_map") for x in sl.values() for n in ast.walk(x)):
            a = False      # coordinates which are not dimensions would count too
    return p, a


def _relates(f, e, param, avail):
    for n in ast.walk(e):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            lp, la = _mentions(f, n.left, param, avail)
            rp, ra = _mentions(f, n.right, param, avail)
            if lp and ra and not rp:
                return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("difference", "issubset") and n.args:
            lp, _ = _mentions(f, n.func.value, param)
            _, ra = _mentions(f, n.args[0], param, avail)
            if lp and ra:
                return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "issuperset" and n.args:
            _, la = _mentions(f, n.func.value, param, avail)
            rp, _ = _mentions(f, n.args[0], param)
            if la and rp:
                return True
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            op, l, r = n.ops[0], n.left, n.comparators[0]
            lp, la = _mentions(f, l, param, avail)
            rp, ra = _mentions(f, r, param, avail)
            if isinstance(op, (ast.In, ast.NotIn)) and ra:
                # element of the requirement: loop or comprehension variable over it
                if lp or _iter_over(f, e, l, param):
                    return True
            if isinstance(op, (ast.LtE, ast.Lt)) and lp and ra or isinstance(op, (ast.GtE, ast.Gt)) and la and rp:
                return True
            if isinstance(op, (ast.Eq, ast.NotEq)) and ((lp and ra) or (la and rp)):
                return True
    return False


def _iter_over(f, e, name, param):
    if not isinstance(name, ast.Name):
        return False
    for c in ast.walk(f.node):
        if isinstance(c, (ast.comprehension, ast.For)) and any(is_name(x, {name.id}) for x in ast.walk(c.target)):
            if any(is_name(x, {param}) for x in ast.walk(c.iter)):
                return True
    return False


def check_checkers(ctx, prog):
    specs = [("check_patch_coords", "dims", {"dims", "dim_tuple"}), ("check_patch_coords", "coords", {"coord_map"}),
             ("check_patch_attrs", "required_attrs", {"attrs"})]
    for fn, param, avail in specs:
        f = prog.functions.get(f"dascore.utils.patch.{fn}")
        if f is None or param not in f.all_params:
            ctx.violation(f"checker-gone:{fn}:{param}", f"dascore.utils.patch.{fn} no longer checks {param}")
            continue
        parts = {id(t): t for t, conj in guard_parts(f)}
        direct = {i for i, t in parts.items() if _relates(f, t, param, avail)}
        strong = {i for i in direct if any(isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Eq, ast.NotEq)) for c in ast.walk(parts[i])) and
                  not any(isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) in ("set", "len", "keys", "sorted", "frozenset", "list", "tuple")
                          for c in ast.walk(parts[i]))}
        # `for k, v in required.items(): if attrs[k] != v: raise`
        acc_gen, acc_kill = {}, {}
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        rel = any(_relates(f, e, param, avail) for e in [n.value] + [x for x in fslice(f, n.value).values() if not isinstance(x, ast.Name)])
                        keep = isinstance(n, ast.AugAssign) or any(is_name(x, {t.id}) for x in ast.walk(n.value))
                        if isinstance(n, ast.AugAssign) and not isinstance(n.op, (ast.BitOr, ast.Add)):
                            rel = keep = False
                        if rel and not keep or (rel and _relates(f, n.value, param, avail)):
                            acc_gen[id(t)] = t.id
                        elif not keep:
                            acc_kill[id(t)] = t.id
            if isinstance(n, ast.If) and any(_relates(f, x, param, avail) for x in [n.test]):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "add") and isinstance(c.func.value, ast.Name):
                        acc_gen[id(n.test)] = c.func.value.id
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "extend") and isinstance(n.func.value, ast.Name):
                if any(_relates(f, x, param, avail) for x in n.args):
                    acc_gen[id(n)] = n.func.value.id

        exempt = {"ok", "vals"} | {"acc:" + v for v in acc_gen.values()}

        def refine(t, pol, st):
            if st is None:
                return st
            if isinstance(t, ast.Compare) and is_name(t.left, {param}) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                none = pol if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not pol
                return st | exempt if none else st
            if is_name(t, {param}) and not pol:
                return st | exempt
            if isinstance(t, ast.Call) and getattr(t.func, "id", "") == "isinstance" and t.args and is_name(t.args[0], {param}) and ("apping" in ast.unparse(t) or "dict" in ast.unparse(t)):
                return st if pol else st | {"vals"}
            if id(t) in direct:
                return st | {"ok", "vals"} if id(t) in strong else st | {"ok"}
            if id(t) in parts and any("acc:" + n.id in st for n in ast.walk(t) if isinstance(n, ast.Name)):
                return st | {"ok"}
            return st

        fl = Opt(f, lambda n: {"acc:" + acc_gen[id(n)]} if id(n) in acc_gen else (), kill=lambda n: {"acc:" + acc_kill[id(n)]} if id(n) in acc_kill else (), refine=refine)
        ctx.count("checker_exits", len(fl.exits))
        for kind, node, st in fl.exits:
            if "ok" not in st:
                ctx.violation(f"checker:{fn}:{param}", f"{f.module.relpath}:{node.lineno} {f.qual}: can accept a patch without raising for an element of `{param}` missing from its {'/'.join(sorted(avail))}")
            elif param == "required_attrs" and "vals" not in st:
                ctx.violation(f"checker-values:{fn}", f"{f.module.relpath}:{node.lineno} {f.qual}: can accept a mapping of required attributes without comparing the values")
        good = {i for i in parts}
        # the raised error is the documented one
        want = "PatchAttributeError" if param == "required_attrs" else "PatchCoordinateError"
        for test, s in guard_tests(f.node):
            if not any(id(x) in good for x in ast.walk(test)):
                continue
            for r in ast.walk(s):
                if isinstance(r, ast.Raise) and r.exc is not None:
                    q = prog.resolve(f.module, f, r.exc.func if isinstance(r.exc, ast.Call) else r.exc) or ""
                    if not (q.endswith(want) or any(x.endswith(want) for x in prog.mro(q))):
                        ctx.violation(f"checker-error:{fn}", f"{f.where(r)}: raises {q.rsplit('.', 1)[-1]} instead of the documented {want}")
    # get_coord: flags
    f = prog.functions.get("dascore.proc.coords.get_coord")
    if f is None:
        ctx.violation("get_coord-gone", "dascore.proc.coords.get_coord no longer exists")
        return
    for flag, attrs in (("require_sorted", {"sorted", "reverse_sorted"}), ("require_evenly_sampled", {"step", "evenly_sampled"})):
        ok = False
        for test, st in guard_tests(f.node):
            if not any(is_name(n, {flag}) for n in ast.walk(test)):
                # nested if under the flag
                up = [o for o in walk_own(f.node) if isinstance(o, ast.If) and any(is_name(n, {flag}) for n in ast.walk(o.test)) and any(x is st for x in ast.walk(o))]
                if not up:
                    continue
            if any(isinstance(n, ast.Attribute) and n.attr in attrs for x in fslice(f, test).values() for n in ast.walk(x)):
                ok = True
        ctx.count("coordinate_requirement_flags")
        if not ok:
            ctx.violation(f"flag:{flag}", f"{f.where()}: `{flag}` does not raise for a coordinate that lacks it")
    g = prog.functions.get("dascore.proc.coords.get_array")
    if g is not None:
        for flag in ("require_sorted", "require_evenly_sampled"):
            if flag in g.all_params:
                fw = any(isinstance(n, ast.Call) and any(k.arg == flag and is_name(k.value, {flag}) for k in n.keywords) for n in walk_own(g.node))
                ctx.count("coordinate_requirement_flags")
                if not fw:
                    ctx.violation(f"flag-forward:{flag}", f"{g.where()}: `{flag}` is accepted but not passed on")


# ---------------------------------------------------------------- R3 declared vs used

def declaration(prog, f):
    out = {"dims": set(), "coords": set(), "attrs": {}, "decorated": False}
    for d in f.decorators():
        if prog.resolve(f.module, None, d.func if isinstance(d, ast.Call) else d) != PD:
            continue
        out["decorated"] = True
        if not isinstance(d, ast.Call):
            continue
        names = ["required_dims", "required_coords", "required_attrs"]
        kw = {k.arg: k.value for k in d.keywords}
        for i, a in enumerate(d.args[:3]):
            kw[names[i]] = a
        for key, n in (("dims", "required_dims"), ("coords", "required_coords")):
            if n in kw:
                v = fold(prog, f.module, None, kw[n])
                if isinstance(v, str):
                    v = (v,)
                out[key] = set(v) if isinstance(v, tuple) else {Ellipsis}
        if "required_attrs" in kw:
            e = kw["required_attrs"]
            if isinstance(e, ast.Name):
                q = prog.resolve(f.module, None, e) or ""
                m = prog.modules.get(q.rsplit(".", 1)[0])
                if m and len(m.variables.get(e.id, [])) == 1:
                    e = m.variables[e.id][0]
            if isinstance(e, ast.Dict):
                out["attrs"] = {fold(prog, f.module, None, k): fold(prog, f.module, None, v) for k, v in zip(e.keys, e.values)}
            else:
                out["attrs"] = {Ellipsis: 1}
    return out


LOOKUP = {"get_coord", "get_array", "get_axis"}


def strings(prog, f, e):
    """Constant dimension names an expression certainly denotes."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return {e.value}
    if isinstance(e, (ast.Tuple, ast.List)):
        out = set()
        for x in e.elts:
            out |= strings(prog, f, x)
        return out
    if isinstance(e, ast.Name):
        if e.id in f.all_params or f.parent is not None:
            return set()
        ds = defs_of(f).reaching(e.id, e)
        if len(ds) == 1 and ds[0][2] == "=":
            return strings(prog, f, ds[0][1])
        if not ds or ds[0][2] == "entry":
            v = fold(prog, f.module, f, e)
            return {v} if isinstance(v, str) else {x for x in v if isinstance(x, str)} if isinstance(v, tuple) else set()
    return set()


def fixed_lookups(prog, f):
    """(node, name) for every dimension/coordinate looked up under a fixed name."""
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = n.func.attr
            recv = ast.unparse(n.func.value)
            if a in LOOKUP and n.args:
                for s in strings(prog, f, n.args[0]):
                    yield n, s
            elif a == "index" and recv.endswith("dims") and n.args:
                for s in strings(prog, f, n.args[0]):
                    yield n, s
            elif a in ("step", "min", "max", "coord_range", "coord_size") and recv.endswith(".coords") and n.args:
                for s in strings(prog, f, n.args[0]):
                    yield n, s
            elif a == "transpose" and not recv.startswith(("np", "data", "arr")) and n.args:
                for x in n.args:
                    for s in strings(prog, f, x):
                        yield n, s
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("dim", "dims") and any(isinstance(x, ast.Name) and x.id in ("patch", "self") for a in list(n.args) + [n.func] for x in ast.walk(a)):
                    g = callee(prog, f, n)
                    if g is not None and g.module.name.startswith(OPS) and g.name not in ("new", "update"):
                        for s in strings(prog, f, k.value):
                            yield n, s
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.unparse(n.value).endswith((".coord_map", "patch.coords")):
            for s in strings(prog, f, n.slice):
                yield n, s


def closure(prog, f):
    """Helpers of an operation: functions it calls that are not operations themselves."""
    seen, todo = {f.qual: f}, [f]
    while todo:
        g = todo.pop()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                h = callee(prog, g, n)
                if h is None or h.qual in seen or not h.module.name.startswith(OPS):
                    continue
                if declaration(prog, h)["decorated"] and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("func", "raw_function")):
                    continue
                if h.name in LOOKUP or prog.class_member(PATCH, h.name) == h.qual and not declaration(prog, h)["decorated"]:
                    continue
                seen[h.qual] = h
                todo.append(h)
    return list(seen.values())


def guarded_names(f):
    """String constants tested for membership somewhere in the function."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.add(x.value)
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("check_patch_coords", "check_coords", "get"):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.add(x.value)
    return out


def check_declared(ctx, prog):
    ops = [f for f in prog.functions.values() if f.module.name.startswith(OPS) and f.parent is None and f.cls is None]
    for f in ops:
        dec = declaration(prog, f)
        is_op = dec["decorated"]
        if not is_op:
            continue
        ctx.count("operations")
        have = dec["dims"] | dec["coords"]
        for g in closure(prog, f):
            dg = declaration(prog, g) if g is not f else None
            if dg and dg["decorated"]:
                # raw call bypasses the callee's own checks
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("func", "raw_function") and callee(prog, f, n) is g:
                        lack = (dg["dims"] | dg["coords"]) - have
                        if lack and Ellipsis not in have:
                            ctx.violation(f"bypass:{f.qual}:{g.name}", f"{f.where(n)}: calls the unchecked form of {g.name}, which requires {sorted(map(str, lack))} that {f.name} does not require")
                        la = {k for k in dg["attrs"] if k not in dec["attrs"]}
                        if la and Ellipsis not in dec["attrs"]:
                            ctx.violation(f"bypass:{f.qual}:{g.name}", f"{f.where(n)}: calls the unchecked form of {g.name}, which requires attributes {sorted(map(str, la))}")
            ok = guarded_names(g) | guarded_names(f)
            for n, s in fixed_lookups(prog, g):
                ctx.count("fixed_name_lookups")
                ctx.sample(f"{g.where(n)}: looks up {s!r}; declared {sorted(map(str, have))}")
                if s in have or Ellipsis in have or s in ok or s.startswith("_"):
                    continue
                if g is not f and dg and s in (dg["dims"] | dg["coords"]):
                    continue
                if _adds(f, s) or _adds(g, s):
                    continue
                ctx.violation(f"undeclared:{f.qual}:{s}", f"{g.where(n)}: {f.qual} uses the dimension or coordinate {s!r} but does not declare it as required")
    for q, (dims, attrs) in DECLARED.items():
        f = prog.functions.get(q)
        if f is None:
            continue
        dec = declaration(prog, f)
        ctx.count("documented_requirements")
        lack = dims - dec["dims"]
        if lack and Ellipsis not in dec["dims"] and not all(x in guarded_names(f) for x in lack):
            ctx.violation(f"documented:{q}:dims", f"{f.where()}: documented required dimensions {sorted(lack)} are not declared")
        for k, v in attrs.items():
            if dec["attrs"].get(k, dec["attrs"].get(Ellipsis)) != v and Ellipsis not in dec["attrs"]:
                ctx.violation(f"documented:{q}:attrs", f"{f.where()}: documented required attribute {k}={v!r} is not declared")


def _adds(f, s):
    """Does the function itself create the coordinate of that name (or is it not a patch input)?"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and k.value == s:
                    return True
        if isinstance(n, ast.Call) and any(k.arg == s for k in n.keywords):
            a = n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if a in ("update", "update_coords", "rename_coords", "append_dims", "rename_coord"):
                return True
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == s for t in n.targets):
            return True
    return False


# ---------------------------------------------------------------- R4 sampling

def check_sampling(ctx, prog):
    sm = Sampling(prog)
    for q, need in SAMPLING.items():
        f = prog.functions.get(q)
        if f is None:
            continue
        ctx.count("sampling_requirements", len(need))
        have = sm.must(f)
        for r in sorted(need - have):
            word = "evenly sampled" if r == "even" else "sorted"
            ctx.violation(f"sampling:{q}:{r}", f"{f.where()}: needs {'an' if r == 'even' else 'a'} {word} coordinate but can run without requiring it")
    users = {}
    for f in prog.functions.values():
        if f.module.name.startswith(OPS) and f.parent is None and declaration(prog, f)["decorated"]:
            for g in closure(prog, f):
                users.setdefault(g.qual, []).append(f)
    for f in prog.functions.values():
        if not f.module.name.startswith(OPS) and f.module.name != "dascore.utils.patch":
            continue
        us = users.get(f.qual, [])
        if us and all("even" in sm.must(u) for u in us):
            continue
        if f.module.name.startswith(OPS) and not declaration(prog, f)["decorated"] and (not us or any("even" in sm.must(u) for u in us)):
            continue
        tests = [n for n in ast.walk(f.node) if isinstance(n, (ast.If, ast.IfExp, ast.Assert, ast.While))]
        checked = any(isinstance(x, ast.Attribute) and x.attr in ("evenly_sampled", "step") for t in tests for x in ast.walk(t.test))
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Attribute) and n.attr == "step" and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            for s, src, how in defs_of(f).reaching(n.value.id, n):
                if not (isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "get_coord" and how == "="):
                    continue
                ctx.count("step_uses")
                flag = next((k.value for k in src.keywords if k.arg == "require_evenly_sampled"), src.args[2] if len(src.args) > 2 else None)
                v = fold(prog, f.module, f, flag) if flag is not None else False
                if v is False and not checked and not _nullchecked(f, n):
                    ctx.violation(f"step-unchecked:{f.qual}", f"{f.where(n)}: uses the sampling step of a coordinate that was not required to be evenly sampled")


def check_differences(ctx, prog):
    """The difference of two samples at fixed positions is a sampling interval only when the coordinate is evenly sampled."""
    sm = Sampling(prog)
    for f in prog.functions.values():
        if not f.module.name.startswith(OPS) or f.parent is not None:
            continue
        for n in walk_own(f.node):
            if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and all(isinstance(x, ast.Subscript) for x in (n.left, n.right))):
                continue
            i, j = (const_index(x.slice) for x in (n.left, n.right))
            if i is None or j is None or abs(i - j) != 1 or ast.unparse(n.left.value) != ast.unparse(n.right.value):
                continue
            srcs = [n.left.value]
            if isinstance(n.left.value, ast.Name):
                srcs = [s for _, s, how in defs_of(f).reaching(n.left.value.id, n.left.value) if how == "=" and s is not None]
            coord = [s for s in srcs for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("get_array", "get_coord")]
            if not coord:
                continue
            ctx.count("sample_differences")
            users = [u for u in prog.functions.values() if u.module.name.startswith(OPS) and u.parent is None and declaration(prog, u)["decorated"] and any(g.qual == f.qual for g in closure(prog, u))]
            if "even" in sm.must(f) or users and all("even" in sm.must(u) for u in users):
                continue
            ctx.violation(f"interval-unchecked:{f.qual}", f"{f.where(n)}: takes the difference of two neighbouring samples as the sampling interval of a coordinate that was not required to be evenly sampled")


def const_index(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int):
        return -e.operand.value
    return None


def _nullchecked(f, node):
    """The step is bound to a name that is then tested, or is returned as is."""
    if any(isinstance(r, ast.Return) and (r.value is node or isinstance(r.value, (ast.Tuple, ast.List)) and any(x is node for x in r.value.elts)) for r in walk_own(f.node)):
        return True
    for s in walk_own(f.node):
        if isinstance(s, ast.Assign) and s.value is node:
            names = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in ast.walk(f.node):
                if isinstance(t, (ast.If, ast.IfExp, ast.Assert)) and any(is_name(x, names) for x in ast.walk(t.test)):
                    return True
            uses = [x for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
            rets = [x for r in walk_own(f.node) if isinstance(r, ast.Return) and r.value is not None for x in ast.walk(r.value)]
            if uses and all(any(u is r for r in rets) for u in uses):
                return True
    return False


def run(ctx):
    prog = ctx.prog
    ctx.rule("R1 in patch_function's wrapper the dims, coords and attrs checks precede the call of the operation on every path")
    ctx.rule("R2 check_patch_coords/check_patch_attrs/get_coord raise the documented error whenever an element of the requirement is missing, on every path")
    ctx.rule("R3 every dimension or coordinate an operation (or its helpers) looks up under a fixed name is declared, created by it, or tested; raw calls of another operation inherit its requirements")
    ctx.rule("R4 operations needing evenly sampled or sorted coordinates request that on every path, and no step of an unchecked coordinate is used")
    ctx.assumptions += ["The documented requirements of the strain-rate, dispersion and tau-p operations and the sampling requirements are a fixed table."]
    check_order(ctx, prog)
    check_checkers(ctx, prog)
    check_declared(ctx, prog)
    check_sampling(ctx, prog)
    check_differences(ctx, prog)
    ctx.require("operations", 50)
    ctx.require("operation_call_sites", 1)
