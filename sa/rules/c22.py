"""C22: named operations and operators compute what their name says."""
from __future__ import annotations

import ast
import copy

from ..contrib import Env, Explorer
from ..flow import defs_of
from ..model import AnalysisError, dotted, walk_own
from . import c12
from .c11 import parents
from .c12 import Unknown, const_eval, dead_under

PATCH = "dascore.core.patch.Patch"
BINARY = {
    "add": {"add"}, "sub": {"subtract"}, "mul": {"multiply"}, "truediv": {"divide", "true_divide"}, "floordiv": {"floor_divide"}, "mod": {"mod", "remainder"},
    "pow": {"power"}, "lt": {"less"}, "le": {"less_equal"}, "gt": {"greater"}, "ge": {"greater_equal"}, "ne": {"not_equal"}, "and": {"bitwise_and"}, "or": {"bitwise_or"},
    "xor": {"bitwise_xor"}, "lshift": {"left_shift"}, "rshift": {"right_shift"}, "matmul": {"matmul"}}
REFLECTABLE = {"add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lshift", "rshift", "matmul"}
COMMUTE = {"add", "mul", "and", "or", "xor"}
PYOP = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide", "FloorDiv": "floor_divide", "Mod": "mod", "Pow": "power", "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor",
        "LShift": "left_shift", "RShift": "right_shift", "MatMult": "matmul", "Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal", "NotEq": "not_equal", "Eq": "equal"}
UNARY = {"neg": {"negative"}, "pos": {"positive"}, "abs": {"abs", "absolute"}, "invert": {"invert", "bitwise_not"}}
SAME = [{"divide", "true_divide"}, {"mod", "remainder"}, {"abs", "absolute"}, {"invert", "bitwise_not"}, {"conj", "conjugate"}, {"amin", "min"}, {"amax", "max"}]

# names of statistics and the spellings under which libraries know them
STATS = {
    "mean": {"mean", "nanmean", "move_mean", "uniform_filter1d", "average"}, "median": {"median", "nanmedian", "move_median", "median_filter"},
    "min": {"min", "nanmin", "amin", "move_min", "minimum_filter1d", "minimum"}, "max": {"max", "nanmax", "amax", "move_max", "maximum_filter1d", "maximum"},
    "std": {"std", "nanstd", "move_std"}, "sum": {"sum", "nansum", "move_sum"}, "var": {"var", "nanvar", "move_var"}, "any": {"any"}, "all": {"all"},
    "first": {"first"}, "last": {"last"}, "prod": {"prod", "nanprod"}, "argmin": {"argmin", "nanargmin", "move_argmin"}, "argmax": {"argmax", "nanargmax", "move_argmax"}, "rank": {"rank", "move_rank"}}
PARTS = {"real": {"real"}, "imag": {"imag"}, "abs": {"abs", "absolute"}, "conj": {"conj", "conjugate"}, "angle": {"angle"}}
NP_STATS = set().union(*STATS.values())


class Evaluator:
    """Reduces a method to the element-wise function it applies and the order of its operands."""

    def __init__(self, prog):
        self.p = prog
        self.x = Explorer(prog, PATCH)

    def ufunc(self, f, e, env, depth=6):
        """Names of the numpy functions an expression stands for."""
        q = self.p.external(self.p.resolve(f.module, f, e)) if dotted(e) else None
        if q and q.split(".")[0] in ("numpy", "operator", "_operator", "builtins"):
            n = q.split(".")[-1].strip("_")
            if q.split(".")[0] in ("operator", "_operator"):
                n = {"sub": "subtract", "mul": "multiply", "truediv": "divide", "floordiv": "floor_divide", "pow": "power", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal",
                     "neg": "negative", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}.get(n, n)
            return {n}
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") == "getattr" and len(e.args) >= 2:
            return {v for v in self.consts(f, e.args[1], env)}
        if isinstance(e, ast.Name) and depth:
            if e.id in env:
                g, x, ev = env[e.id]
                return self.ufunc(g, x, ev, depth - 1)
            out = set()
            for s, src, how in defs_of(f).reaching(e.id, e):
                if how == "=" and src is not None:
                    out |= self.ufunc(f, src, env, depth - 1)
            return out
        return set()

    def consts(self, f, e, env):
        return {t[1] for t in self.x.terms(f, e, env) if t[0] == "const" and isinstance(t[1], str)}

    def operand(self, f, e, env, depth=6):
        """Parameter name of the operator method an expression stands for."""
        if isinstance(e, ast.Starred):
            return self.operand(f, e.value, env, depth)
        if isinstance(e, ast.Name):
            if e.id in env and depth:
                g, x, ev = env[e.id]
                return self.operand(g, x, ev, depth - 1)
            ds = [d for d in defs_of(f).reaching(e.id, e)]
            if ds and all(d[1] is not None and d[2] == "=" for d in ds) and depth:
                r = {self.operand(f, d[1], env, depth - 1) for d in ds}
                return r.pop() if len(r) == 1 else None
            if e.id in f.all_params:
                return ("p", f.qual, e.id)
        return None

    def apply(self, f, e, env, depth=6):
        """[(function names, (operands))] an expression may apply; None when not understood."""
        if depth <= 0 or e is None:
            return None
        if isinstance(e, ast.Name):
            out = []
            for s, src, how in defs_of(f).reaching(e.id, e):
                r = self.apply(f, src, env, depth - 1) if how == "=" and src is not None else None
                if r is None:
                    return None
                out += r
            return out or None
        if isinstance(e, ast.IfExp):
            a, b = self.apply(f, e.body, env, depth - 1), self.apply(f, e.orelse, env, depth - 1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.BinOp):
            return [({PYOP.get(type(e.op).__name__, "?")}, (self.data_of(f, e.left, env), self.data_of(f, e.right, env)))]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]).__name__ in PYOP:
            return [({PYOP[type(e.ops[0]).__name__]}, (self.data_of(f, e.left, env), self.data_of(f, e.comparators[0], env)))]
        if isinstance(e, ast.UnaryOp):
            n = {"USub": "negative", "UAdd": "positive", "Invert": "invert"}.get(type(e.op).__name__)
            return [({n}, (self.data_of(f, e.operand, env),))] if n else None
        if not isinstance(e, ast.Call):
            return None
        last = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if last in ("apply_ufunc", "_apply_binary_ufunc", "_apply_unary_ufunc") and e.args:
            a = e.args
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self":
                return None      # the bound method passes self first
            u = self.ufunc(f, a[0], env)
            if not u:
                return None
            ops = []
            for x in a[1:]:
                if isinstance(x, ast.Starred) and isinstance(x.value, (ast.Tuple, ast.List)):
                    ops += [self.operand(f, y, env) for y in x.value.elts]
                elif isinstance(x, ast.Starred):
                    ops += [None, None]
                else:
                    ops.append(self.operand(f, x, env))
            return [(u, tuple(ops))]
        u = self.ufunc(f, e.func, env)
        if u:
            return [(u, tuple(self.data_of(f, x, env) for x in e.args))]
        if last in ("new", "update") and isinstance(e.func, ast.Attribute):
            d = next((k.value for k in e.keywords if k.arg == "data"), None)
            return self.apply(f, d, env, depth - 1)
        g = self.x.callees(f, e)
        if g is not None:
            env2 = self.x.bind(f, e, g, env)
            if g.cls is not None and isinstance(e.func, ast.Attribute) and g.all_params and g.all_params[0] == "self" if isinstance(g.all_params, list) else g.cls is not None and isinstance(e.func, ast.Attribute):
                env2["self"] = (f, e.func.value, env)
            out = []
            for r in self.x.results(g):
                x = self.apply(g, r.value, env2, depth - 1)
                if x is None:
                    return None
                out += x
            return out or None
        return None

    def data_of(self, f, e, env):
        """operand behind `x` or `x.data`"""
        if isinstance(e, ast.Attribute) and e.attr in ("data",):
            return self.operand(f, e.value, env)
        return self.operand(f, e, env)


def same(a, b):
    return a == b or any(a in s and b in s for s in SAME)


def operators(ctx, prog, ev):
    c = prog.classes.get(PATCH)
    if c is None:
        raise AnalysisError("class Patch not found")
    for q in prog.mro(PATCH):
        k = prog.classes.get(q)
        if k is None:
            continue
        for name in list(k.methods) + list(k.attrs):
            base = name.strip("_")
            if not (name.startswith("__") and name.endswith("__")):
                continue
            refl = base.startswith("r") and base[1:] in REFLECTABLE
            inpl = base.startswith("i") and base[1:] in REFLECTABLE
            op = base[1:] if refl or inpl else base
            if op not in BINARY and op not in UNARY:
                continue
            m = prog.functions.get(prog.class_member(PATCH, name) or "")
            if m is None:
                v = k.attrs.get(name)
                factory(ctx, prog, ev, k, name, op, refl, v)
                continue
            params = [a.arg for a in m.node.args.args]
            ctx.count("operators")
            results = []
            for r in ev.x.results(m):
                x = ev.apply(m, r.value, Env())
                if x:
                    results += x
            if not results:
                ctx.count("operators_not_understood")
                continue
            want = BINARY.get(op) or UNARY[op]
            for us, ops in results:
                if not any(same(u, w) for u in us for w in want):
                    ctx.violation(f"op:{name}:function", f"{m.where()}: Patch.{name} applies {'/'.join(sorted(us))}, not {'/'.join(sorted(want))}")
                elif op in BINARY and len(params) == 2 and len(ops) >= 2:
                    exp = (params[1], params[0]) if refl else (params[0], params[1])
                    got = tuple(o[2] if o and o[0] == "p" and o[1] == m.qual else None for o in ops[:2])
                    if None in got:
                        continue
                    ctx.count("operand_orders")
                    if got != exp and op not in COMMUTE:
                        ctx.violation(f"op:{name}:order", f"{m.where()}: Patch.{name} applies {'/'.join(sorted(us))}({', '.join(got)}), operands in reversed order")
                    elif got[0] == got[1]:
                        ctx.violation(f"op:{name}:operand", f"{m.where()}: Patch.{name} uses {got[0]} for both operands")


def factory(ctx, prog, ev, k, name, op, refl, v):
    """Operators built by a function call in the class body."""
    if not isinstance(v, ast.Call):
        return
    ctx.count("operators")
    us = set()
    for a in list(v.args) + [x.value for x in v.keywords]:
        q = prog.external(prog.resolve(k.module, None, a)) if dotted(a) else None
        if q and q.split(".")[0] == "numpy":
            us.add(q.split(".")[-1])
    want = BINARY.get(op) or UNARY[op]
    if us and not any(same(u, w) for u in us for w in want):
        ctx.violation(f"op:{name}:function", f"{k.module.relpath}:{v.lineno}: Patch.{name} is built from {'/'.join(sorted(us))}, not {'/'.join(sorted(want))}")


# ---- designators of statistics inside a function
def designators(prog, f, universe, depth=2, names=None, seen=None):
    """(name, node) of the library functions and names of `universe` a function mentions."""
    doc = f.node.body[0].value if f.node.body and isinstance(f.node.body[0], ast.Expr) and isinstance(f.node.body[0].value, ast.Constant) else None
    skip = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.keyword) and n.arg in ("dim", "dim_reduce", "engine", "data_type", "name") and n.arg != "name":
            skip |= {id(x) for x in ast.walk(n.value)}
    for n in walk_own(f.node):
        if n is doc or id(n) in skip:
            continue
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in universe:
            yield n.value, n
        elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            q = prog.external(prog.resolve(f.module, f, n))
            if q and q.split(".")[0] in ("numpy", "scipy", "bottleneck", "pandas", "operator") and q.split(".")[-1] in universe:
                yield q.split(".")[-1], n
            elif isinstance(n, ast.Attribute) and n.attr in universe and not (q and q.split(".")[0] == prog.package) and _is_callee(f, n):
                yield n.attr, n


def _is_callee(f, n):
    return any(isinstance(c, ast.Call) and c.func is n for c in walk_own(f.node))


def named(ctx, prog, f, name, table, what):
    """The statistics a function mentions are those of its name."""
    universe = set().union(*table.values())
    allowed = table[name]
    seen = False
    for d, n in designators(prog, f, universe):
        ctx.count("designators")
        seen |= d in allowed
        if d not in allowed:
            ctx.violation(f"name:{f.qual}:{d}", f"{f.where(n)}: {what} `{name}` uses `{ast.unparse(n)}`")
    return seen


def missing_values(ctx, prog):
    """The statistics of one family treat missing values alike: all ignore them or none does."""
    both = {n for v in STATS.values() for n in v if "nan" + n in v}
    fam = {}
    for f in prog.functions.values():
        if f.parent is not None or f.name not in STATS and f.name not in ("demean", "demedian"):
            continue
        if f.cls is not None and "Roller" in f.cls.name:
            key = f"the rolling statistics of {f.cls.name}"
        elif f.cls is None and f.module.name.endswith(".proc.aggregate"):
            key = "the aggregations"
        elif f.cls is None and f.name in ("demean", "demedian"):
            key = "the centering operations"
        else:
            continue
        for d, n in designators(prog, f, both | {"nan" + b for b in both}):
            if isinstance(n, (ast.Attribute, ast.Name)) and (prog.external(prog.resolve(f.module, f, n)) or "").startswith("numpy."):
                fam.setdefault(key, []).append((d.startswith("nan"), f"{f.where(n)}: `{f.name}` uses `{ast.unparse(n)}`", f.qual))
    m = prog.modules[prog.package + ".constants"]
    for k, v in table_items(prog, m, "_AGG_FUNCS"):
        for d in strings(prog, m, v) & (both | {"nan" + b for b in both}):
            fam.setdefault("the aggregations", []).append((d.startswith("nan"), f"{m.relpath}:{v.lineno}: `{k}` uses `{d}`", f"_AGG_FUNCS:{k}"))
    for key, xs in fam.items():
        ctx.count("missing_value_families")
        n = sum(x[0] for x in xs)
        if 0 < n < len(xs):
            odd = n * 2 <= len(xs)
            for nan, where, q in xs:
                if nan == odd:
                    ctx.violation(f"nan:{q}", f"{where}, which {'ignores' if nan else 'propagates'} missing values, unlike the rest of {key}")


def statistics(ctx, prog):
    """Functions and methods which carry the name of a statistic."""
    missing_values(ctx, prog)
    for f in prog.functions.values():
        if f.parent is not None:
            continue
        mod = f.module.name
        nm = f.name
        if mod.endswith(".proc.aggregate") and nm in STATS and f.cls is None:
            ctx.count("named_aggregations")
            named(ctx, prog, f, nm, STATS, "the aggregation")
        elif f.cls is not None and "Roller" in f.cls.name and nm in STATS:
            ctx.count("rolling_statistics")
            named(ctx, prog, f, nm, STATS, "the rolling statistic")
        elif mod.endswith(".utils.moving") and nm.startswith("move_") and nm[5:] in STATS:
            ctx.count("moving_filters")
            named(ctx, prog, f, nm[5:], STATS, "the moving filter")
        elif mod.endswith(".utils.moving") and f.cls is None and len({w for w in nm.split("_") if w in STATS}) == 1:
            ctx.count("moving_filters")
            named(ctx, prog, f, next(w for w in nm.split("_") if w in STATS), STATS, "the implementation of the moving")
        elif mod.endswith(".proc.basic") and nm in PARTS:
            ctx.count("complex_parts")
            named(ctx, prog, f, nm, PARTS, "the operation")
        elif nm in ("demean", "demedian") and f.cls is None and mod.startswith(prog.package + ".proc"):
            ctx.count("centering_operations")
            t = {k: STATS[k] for k in ("mean", "median")}
            named(ctx, prog, f, nm[2:], t, "the operation")
        elif nm == "median_filter" and mod.endswith(".proc.filter"):
            ctx.count("filters")
            uni = {"median": {"median_filter", "medfilt", "medfilt2d", "median"}, "other": {"minimum_filter", "maximum_filter", "gaussian_filter", "uniform_filter", "percentile_filter", "rank_filter", "sobel"}}
            named(ctx, prog, f, "median", uni, "the filter")
        elif nm in ("sobel_filter", "gaussian_filter") and mod.endswith(".proc.filter"):
            ctx.count("filters")
            uni = {"sobel": {"sobel"}, "gaussian": {"gaussian_filter", "gaussian_filter1d"}, "other": {"minimum_filter", "maximum_filter", "uniform_filter", "percentile_filter", "rank_filter", "prewitt", "laplace", "median_filter"}}
            named(ctx, prog, f, nm.split("_")[0], uni, "the filter")


def table_items(prog, m, name):
    """(key, value) of a module-level mapping: literals, dict() calls, comprehensions over constants, later entries; wrappers unwrapped."""
    for v in m.variables.get(name, []):
        while isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id == "dict"):
            v = v.args[0] if v.args else None
        yield from _mapping(prog, m, v)
    for s in m.tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name and isinstance(t.slice, ast.Constant):
                    yield t.slice.value, s.value
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) == [name, "update"]:
            c = s.value
            yield from _mapping(prog, m, c.args[0] if c.args else ast.Dict(keys=[], values=[]))
            yield from ((k.arg, k.value) for k in c.keywords if k.arg)


def _mapping(prog, m, v):
    if isinstance(v, ast.Dict):
        for k, x in zip(v.keys, v.values):
            if isinstance(k, ast.Constant):
                yield k.value, x
            elif k is None:
                yield from _mapping(prog, m, x)
    elif isinstance(v, ast.Name):
        for w in m.variables.get(v.id, []):
            yield from _mapping(prog, m, w)
    elif isinstance(v, ast.DictComp) and len(v.generators) == 1 and isinstance(v.generators[0].target, ast.Name) and isinstance(v.key, ast.Name) and v.key.id == v.generators[0].target.id:
        it = v.generators[0].iter
        if isinstance(it, ast.Name):
            it = next(iter(m.variables.get(it.id, [])), it)
        if isinstance(it, (ast.Tuple, ast.List)):
            for k in it.elts:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    yield k.value, _Subst(v.key.id, k).visit(copy.deepcopy(v.value))
    elif isinstance(v, ast.Call):
        for k in v.keywords:
            if k.arg:
                yield k.arg, k.value
        for a in v.args:
            yield from _mapping(prog, m, a)


class _Subst(ast.NodeTransformer):
    def __init__(self, name, by):
        self.name, self.by = name, by

    def visit_Name(self, n):
        return ast.copy_location(ast.Constant(value=self.by.value), n) if n.id == self.name else n


def strings(prog, m, e):
    """Names an expression refers to: string constants and external functions."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value.split(".")[-1])
        elif isinstance(n, (ast.Name, ast.Attribute)):
            q = prog.external(prog.resolve(m, None, n))
            if q and q.split(".")[0] != prog.package and "." in q:
                out.add(q.split(".")[-1])
            elif q and q in prog.functions:
                out.add(q.split(".")[-1])
    return out


def tables(ctx, prog):
    # aggregation table
    m = prog.modules[prog.package + ".constants"]
    agg = {}
    for k, v in table_items(prog, m, "_AGG_FUNCS"):
        ctx.count("aggregation_table_entries")
        names = strings(prog, m, v)
        if k in ("first", "last"):
            ix = [n.value for n in ast.walk(v) if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool)]
            neg = any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) for n in ast.walk(v))
            got = [-x if neg else x for x in ix]
            if len(got) == 1 and got[0] != {"first": 0, "last": -1}[k]:
                ctx.violation(f"table:agg:{k}", f"{m.relpath}:{v.lineno}: the aggregation `{k}` takes the value at index {got[0]}")
            continue
        hit = {n for n in names if n in NP_STATS}
        agg[k] = hit
        if k in STATS and hit and not hit <= STATS[k]:
            ctx.violation(f"table:agg:{k}", f"{m.relpath}:{v.lineno}: the aggregation `{k}` is computed by {'/'.join(sorted(hit))}")
    # the shortcut and the name given to aggregate agree
    am = prog.modules.get(prog.package + ".proc.aggregate")
    if am is not None:
        for k, hit in agg.items():
            f = prog.functions.get(f"{am.name}.{k}")
            if f is None or not hit:
                continue
            d = {x for x, n in designators(prog, f, NP_STATS) if isinstance(n, (ast.Attribute, ast.Name))}
            if d and d != hit and d <= STATS.get(k, set()):
                ctx.violation(f"table:agree:{k}", f"{f.where()}: Patch.{k} is computed by {'/'.join(sorted(d))} but aggregate(method='{k}') by {'/'.join(sorted(hit))}")
    # windows
    m = prog.modules[prog.package + ".utils.signal"]
    alias = {"cos": {"hann", "cosine"}, "ramp": {"triang"}}
    for k, v in table_items(prog, m, "WINDOW_FUNCTIONS"):
        ctx.count("window_table_entries")
        names = strings(prog, m, v) - {"windows", "lazy_import"}
        if not names & alias.get(k, {k}):
            ctx.violation(f"table:window:{k}", f"{m.relpath}:{v.lineno}: the window `{k}` is computed by {'/'.join(sorted(names))}")
    # moving filters
    m = prog.modules[prog.package + ".utils.moving"]
    engines = {}
    for k, v in table_items(prog, m, "OPERATION_REGISTRY"):
        if not isinstance(v, ast.Dict):
            continue
        for e, x in zip(v.keys, v.values):
            if not isinstance(e, ast.Constant) or isinstance(x, ast.Constant) and x.value is None:
                continue
            ctx.count("moving_table_entries")
            names = strings(prog, m, x)
            engines.setdefault(k, {})[e.value] = names
            want = STATS.get(k, set()) | ({"uniform_filter1d"} if k == "sum" else set())
            want = {w for w in want if w.startswith("move_") == (e.value == "bottleneck")} if e.value in ("bottleneck", "scipy") else want
            if not names & want:
                ctx.violation(f"table:moving:{k}:{e.value}", f"{m.relpath}:{x.lineno}: the moving `{k}` is computed by {'/'.join(sorted(names))} with {e.value}")
            lib = {n.value.split(".")[0] for n in ast.walk(x) if isinstance(n, ast.Constant) and isinstance(n.value, str)} & {"scipy", "bottleneck"}
            if lib and e.value in ("scipy", "bottleneck") and e.value not in lib:
                ctx.violation(f"table:moving:{k}:{e.value}:lib", f"{m.relpath}:{x.lineno}: the engine {e.value} computes `{k}` with {'/'.join(sorted(lib))}")
    return engines


def moving(ctx, prog, engines):
    """Wrappers compute with the engine they are registered for; sums built from means are scaled."""
    m = prog.modules[prog.package + ".utils.moving"]
    wrappers = {}
    for k, v in table_items(prog, m, "ENGINE_WRAPPERS"):
        q = prog.resolve(m, None, v) if dotted(v) else None
        if q in prog.functions:
            wrappers[k] = prog.functions[q]
    for e, f in wrappers.items():
        ctx.count("engine_wrappers")
        consts = set()
        for c in walk_own(f.node):
            if isinstance(c, ast.Call) and (prog.resolve(f.module, f, c.func) or "").endswith("._get_engine_function"):
                g = prog.functions.get(prog.resolve(f.module, f, c.func))
                names = [a.arg for a in g.node.args.args]
                b = dict(zip(names, c.args)) | {k.arg: k.value for k in c.keywords}
                v = b.get(names[0])
                if isinstance(v, ast.Constant):
                    consts.add(v.value)
                o = b.get(names[1])
                if isinstance(o, ast.Constant) and o.value in STATS and not dead_under(prog, f, c, {"operation": o.value}) and not _guarded_by(prog, f, c, o.value):
                    ctx.violation(f"moving:{f.qual}:fixed", f"{f.where(c)}: always computes `{o.value}`, whatever operation was asked for")
        if consts and e not in consts:
            ctx.violation(f"moving:wrapper:{e}", f"{f.where()}: registered for the engine {e} but computes with {'/'.join(sorted(consts))}")
    g = prog.functions.get(m.name + "._get_engine_function")
    if g is not None:
        ctx.count("engine_lookups")
        used = {n.id for n in walk_own(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for p in list(g.all_params)[:2]:
            if p not in used:
                ctx.violation(f"moving:lookup:{p}", f"{g.where()}: looks the function up without regard to `{p}`")
    # scaling
    if not any("uniform_filter1d" in str(x) for d in engines.values() for x in d.values()):
        return
    for f in wrappers.values():
        size = "window" if "window" in f.all_params else None
        if size is None or not any(isinstance(c, ast.Call) and any(isinstance(a, ast.Constant) and a.value == "scipy" for a in c.args) and (prog.resolve(f.module, f, c.func) or "").endswith("._get_engine_function") for c in walk_own(f.node)):
            continue
        par = parents(f)
        for op, need in (("sum", True), ("mean", False)):
            nm = next(iter(engines.get(op, {}).get("scipy", set()) & {"uniform_filter1d"}), None)
            if nm is None:
                continue
            env = {"operation": op, "func_name": nm}
            live, helpers = [], False
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Name) and n.id == size and isinstance(n.ctx, ast.Load)) or dead_under(prog, f, n, env):
                    continue
                c, top = None, n
                while top is not None and not isinstance(top, ast.stmt):
                    if isinstance(top, ast.Call) and top is not n and c is None:
                        c = top
                    top = par.get(id(top))
                if isinstance(top, (ast.If, ast.Raise, ast.Assert)):
                    continue
                if c is None or (prog.external(prog.resolve(f.module, f, c.func)) or "").startswith("numpy."):
                    live.append(n)
                elif prog.resolve(f.module, f, c.func) in prog.functions:
                    helpers = True
            ctx.count("scaling_cases")
            if need and not live and not helpers:
                ctx.violation("moving:scale:sum", f"{f.where()}: the moving sum is the moving mean of {nm}, not scaled by the window")
            if not need and live and not _conditional(prog, f, live, env):
                ctx.violation("moving:scale:mean", f"{f.where(live[0])}: the moving mean is scaled by the window")


def _conditional(prog, f, nodes, env):
    """Inside an if or conditional expression whose test could not be decided."""
    def inside(n):
        for x in walk_own(f.node):
            if isinstance(x, (ast.If, ast.IfExp)):
                kids = x.body if isinstance(x.body, list) else [x.body]
                kids = kids + (x.orelse if isinstance(x.orelse, list) else [x.orelse])
                if any(y is n for k in kids for y in ast.walk(k)):
                    try:
                        const_eval(prog, x.test, env)
                    except (Unknown, TypeError, IndexError):
                        return True
        return False
    return all(inside(n) for n in nodes)


def _guarded_by(prog, f, c, op):
    """Is the call only reached when the operation is `op`?"""
    for other in STATS:
        if other != op and not dead_under(prog, f, c, {"operation": other}):
            return "operation" not in f.all_params
    return True


def members(ctx, prog):
    """Class attributes bound to operations of another name."""
    c = prog.classes[PATCH]
    public = {f.name for f in prog.functions.values() if f.cls is None and f.parent is None and f.module.name.startswith((prog.package + ".proc", prog.package + ".transform"))}
    ns = [k for k in prog.classes.values() if any(b.endswith("NameSpace") for b in prog.mro(k.qual)[1:])]
    for k in [c] + ns:
        for name, v in k.attrs.items():
            if name.startswith("_"):
                continue
            if isinstance(v, ast.Call):
                us = strings(prog, k.module, ast.Tuple(elts=list(v.args), ctx=ast.Load()))
                fn = (dotted(v.func) or [""])[-1]
                if fn == "PatchUFunc":
                    ctx.count("element_wise_members")
                    want = name.replace("_", "")
                    if us and not any(same(u.replace("_", ""), want) for u in us):
                        ctx.violation(f"member:{name}", f"{k.module.relpath}:{v.lineno}: {k.name}.{name} applies {'/'.join(sorted(us))}")
                continue
            q = prog.resolve(k.module, None, v) if dotted(v) else None
            if q in prog.functions:
                ctx.count("operation_members")
                got = q.split(".")[-1]
                if got != name and got in k.attrs and name in public | set(STATS):
                    ctx.violation(f"member:{name}", f"{k.module.relpath}:{v.lineno}: {k.name}.{name} is bound to the operation {got}")


def reductions(ctx, prog):
    """reduce/accumulate of a wrapped function use the method of that name."""
    for c in prog.classes.values():
        if "UFunc" not in c.name:
            continue
        for name in ("reduce", "accumulate"):
            m = c.methods.get(name)
            if m is None:
                continue
            ctx.count("ufunc_methods")
            used = {n.attr for n in walk_own(m.node) if isinstance(n, ast.Attribute) and n.attr in ("reduce", "accumulate", "outer", "at", "reduceat")} | {n.value for n in walk_own(m.node) if isinstance(n, ast.Constant) and n.value in ("reduce", "accumulate")}
            if used and name not in used or used - {name}:
                ctx.violation(f"ufunc:{c.name}:{name}", f"{m.where()}: {c.name}.{name} uses {'/'.join(sorted(used))}")
        for name in ("__call__", "reduce", "accumulate"):
            m = c.methods.get(name)
            if m is None:
                continue
            ps = [a.arg for a in m.node.args.args]
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] == "apply_ufunc" and len(n.args) > 1:
                    ctx.count("bound_operands")
                    at = [i for i, a in enumerate(n.args) if dotted(a) in (["self", "patch"], ["patch"]) or len(ps) > 1 and dotted(a) == [ps[1]]]
                    if at and at[0] > 1:
                        ctx.violation(f"ufunc:{c.name}:{name}:order", f"{m.where(n)}: {c.name}.{name} passes its patch as operand {at[0]}, not first")


# ---- order of the operands inside the dispatcher
class Tags:
    """Evaluates a function on operand tags for one scenario of operand types."""

    def __init__(self, prog, isp):
        self.p, self.isp, self.depth = prog, isp, 0      # isp: tag -> is a patch
        self.calls = []

    def run(self, f, env):
        self.ret = None
        return self.block(f, f.body, env)

    def block(self, f, body, env):
        """Executes statements; returns ('ret', value) or None."""
        for s in body:
            r = self.stmt(f, s, env)
            if r is not None:
                return r
        return None

    def stmt(self, f, s, env):
        if isinstance(s, ast.Return):
            return ("ret", self.ev(f, s.value, env))
        if isinstance(s, ast.Raise):
            return ("raise", None)
        if isinstance(s, ast.Assign):
            v = self.ev(f, s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(f, s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.ev(f, s.value, env)
        elif isinstance(s, ast.Expr):
            self.ev(f, s.value, env)
        elif isinstance(s, ast.If):
            t = self.truth(f, s.test, env)
            if t is True:
                return self.block(f, s.body, env)
            if t is False:
                return self.block(f, s.orelse, env)
            e1, e2 = dict(env), dict(env)
            r1, r2 = self.block(f, s.body, e1), self.block(f, s.orelse, e2)
            live = [e for e, r in ((e1, r1), (e2, r2)) if r is None]
            if not live:
                if r1 and r1[0] == "ret" and r2 and r2[0] == "ret":
                    return ("ret", self.join(r1[1], r2[1]))
                return r1 if r1[0] == "ret" else r2
            new = live[0] if len(live) == 1 else {k: self.join(e1.get(k), e2.get(k)) for k in set(e1) | set(e2)}
            env.clear()
            env.update(new)
        elif isinstance(s, ast.Try):
            r = self.block(f, s.body, env)
            if r is not None:
                return r
            r = self.block(f, s.orelse, env) or self.block(f, s.finalbody, env)
            if r is not None:
                return r
        elif isinstance(s, (ast.With,)):
            return self.block(f, s.body, env)
        elif isinstance(s, (ast.For, ast.While)):
            e = dict(env)
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    e.setdefault(t.id, None)
            self.block(f, s.body, e)
            for k in e:
                env[k] = self.join(env.get(k, e[k]), e[k])
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("fn", f.children.get(s.name))
        return None

    @staticmethod
    def join(a, b):
        return a if a == b else None

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v and v[0] == "tuple" and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env)

    def truth(self, f, e, env):
        v = self.ev(f, e, env)
        if isinstance(v, tuple) and v and v[0] == "const":
            return bool(v[1])
        return None

    def ev(self, f, e, env):
        if e is None:
            return ("const", None)
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            g = f.parent
            return ("const", e.id == "True") if e.id in ("True", "False") else None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple", [self.ev(f, x, env) for x in e.elts])
        if isinstance(e, ast.NamedExpr):
            v = self.ev(f, e.value, env)
            self.assign(e.target, v, env)
            return v
        if isinstance(e, ast.Attribute):
            v = self.ev(f, e.value, env)
            return v if isinstance(v, tuple) and v and v[0] == "tag" and e.attr in ("data", "magnitude", "T") else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(f, e.operand, env)
            return None if t is None else ("const", not t)
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(f, v, env) for v in e.values]
            if isinstance(e.op, ast.And):
                return ("const", False) if False in ts else ("const", True) if all(t is True for t in ts) else None
            return ("const", True) if True in ts else ("const", False) if all(t is False for t in ts) else None
        if isinstance(e, ast.IfExp):
            t = self.truth(f, e.test, env)
            if t is None:
                return self.join(self.ev(f, e.body, env), self.ev(f, e.orelse, env))
            return self.ev(f, e.body if t else e.orelse, env)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(f, e.left, env), self.ev(f, e.right, env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "const" and isinstance(e.op, (ast.Add, ast.Sub)):
                try:
                    return ("const", a[1] + b[1] if isinstance(e.op, ast.Add) else a[1] - b[1])
                except TypeError:
                    return None
            return a if isinstance(a, tuple) and a[0] == "tag" else None     # data * units keeps the operand
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(f, e.left, env), self.ev(f, e.comparators[0], env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "const":
                try:
                    o = e.ops[0]
                    return ("const", {ast.Gt: lambda: a[1] > b[1], ast.Lt: lambda: a[1] < b[1], ast.GtE: lambda: a[1] >= b[1], ast.LtE: lambda: a[1] <= b[1], ast.Eq: lambda: a[1] == b[1],
                                      ast.NotEq: lambda: a[1] != b[1], ast.Is: lambda: a[1] is b[1], ast.IsNot: lambda: a[1] is not b[1]}[type(o)]())
                except (KeyError, TypeError):
                    return None
            return None
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        return None

    def call(self, f, c, env):
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        args = []
        for a in c.args:
            v = self.ev(f, a.value if isinstance(a, ast.Starred) else a, env)
            if isinstance(a, ast.Starred) and isinstance(v, tuple) and v and v[0] == "tuple":
                args += v[1]
            elif isinstance(a, ast.Starred):
                if v != ("const", ()):
                    args.append(None)
            else:
                args.append(v)
        kw = {k.arg: self.ev(f, k.value, env) for k in c.keywords if k.arg}
        if nm == "isinstance" and len(args) == 2:
            v = args[0]
            q = [self.p.resolve(f.module, f, x) or "" for x in ast.walk(c.args[1]) if isinstance(x, (ast.Name, ast.Attribute))]
            if isinstance(v, tuple) and v and v[0] == "tag" and any(x.endswith(".Patch") for x in q) and len(v) == 2:
                return ("const", self.isp[v[1]])
            return None
        if nm in ("int", "bool") and len(args) == 1:
            return args[0] if isinstance(args[0], tuple) and args[0][0] == "const" else None
        if nm == "sum" and args and isinstance(args[0], tuple) and args[0][0] == "tuple" and all(isinstance(x, tuple) and x[0] == "const" for x in args[0][1]):
            return ("const", sum(x[1] for x in args[0][1]))
        fn = self.ev(f, c.func, env) if isinstance(c.func, ast.Name) else None
        if fn == ("operator",):
            self.calls.append((f, c, args[:2]))
            return ("result",)
        g = fn[1] if isinstance(fn, tuple) and fn and fn[0] == "fn" else None
        if g is None:
            g = self.p.functions.get(self.p.resolve(f.module, f, c.func) or "")
            closure = {}
        else:
            closure = env
        if g is not None and self.depth < 6 and not isinstance(g.node, ast.Lambda):
            ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
            e2 = {k: v for k, v in closure.items()}
            d = g.node.args.defaults
            for n, v in zip(ps[len(ps) - len(d):], d):
                e2[n] = ("const", v.value) if isinstance(v, ast.Constant) else None
            for n in ps:
                e2.setdefault(n, None) if n not in closure else None
            for n in ps:
                e2[n] = e2.get(n) if n in [x for x in ps[len(ps) - len(d):]] else None
            for n, v in zip(ps, args):
                e2[n] = v
            if g.node.args.vararg:
                e2[g.node.args.vararg.arg] = ("tuple", args[len(ps):])
            for n, v in kw.items():
                e2[n] = v
            self.depth += 1
            r = self.block(g, g.body, e2)
            self.depth -= 1
            if r and r[0] == "ret" and r[1] is not None:
                return r[1]
        # unknown: the value keeps the identity of its receiver or first argument
        if isinstance(c.func, ast.Attribute):
            v = self.ev(f, c.func.value, env)
            if isinstance(v, tuple) and v and v[0] == "tag":
                return v
        return next((a for a in args[:1] if isinstance(a, tuple) and a and a[0] == "tag"), None)


def dispatch_order(ctx, prog):
    """_apply_binary_ufunc hands the operands over in written order."""
    m = prog.modules.get(prog.package + ".utils.array")
    f = prog.functions.get(m.name + "._apply_binary_ufunc") if m else None
    if f is None:
        cand = [prog.functions.get(prog.resolve(m, None, v)) for k, v in _dict_items(m, "UFUNC_MAP") if isinstance(k, ast.Tuple) and [getattr(x, "value", None) for x in k.elts] == [2, 1]] if m else []
        f = cand[0] if cand else None
    if f is None:
        raise AnalysisError("the dispatcher of binary functions was not found")
    ps = [a.arg for a in f.node.args.args]
    for a_is, b_is in ((True, True), (True, False), (False, True)):
        t = Tags(prog, {"A": a_is, "B": b_is})
        env = {p: None for p in f.all_params}
        env[ps[0]], env[ps[1]], env[ps[2]] = ("operator",), ("tag", "A"), ("tag", "B")
        if f.node.args.vararg:
            env[f.node.args.vararg.arg] = ("tuple", [])
        t.run(f, env)
        ctx.count("dispatch_scenarios")
        for g, c, args in t.calls:
            tags = [a[1] if isinstance(a, tuple) and a and a[0] == "tag" else None for a in args]
            if len(tags) == 2 and None not in tags:
                ctx.count("dispatch_applications")
                if tags != ["A", "B"]:
                    ctx.violation("dispatch:order", f"{g.where(c)}: with {'a patch' if a_is else 'an array'} and {'a patch' if b_is else 'an array'} as operands the function is applied to them in order {'second, first' if tags == ['B', 'A'] else ' and '.join(tags)}")


def _dict_items(m, name):
    for v in m.variables.get(name, []):
        if isinstance(v, ast.Dict):
            yield from zip(v.keys, v.values)


def dispatch_map(ctx, prog):
    m = prog.modules.get(prog.package + ".utils.array")
    for k, v in _dict_items(m, "UFUNC_MAP"):
        if isinstance(k, ast.Tuple):
            ks = tuple(getattr(x, "value", None) for x in k.elts)
            g = prog.functions.get(prog.resolve(m, None, v) or "") if dotted(v) else None
            if g is None:
                continue
            ctx.count("dispatch_entries")
            # a function of two operands must not go to a dispatcher taking one, and vice versa
            n = len([a for a in g.node.args.args]) - 1
            if ks in ((2, 1), (1, 1)) and n != ks[0] and not g.node.args.vararg:
                ctx.violation(f"dispatch:{ks}", f"{m.relpath}:{v.lineno}: functions with {ks[0]} operands are dispatched to {g.name}, which takes {n}")
            elif ks in ((2, 1), (1, 1)) and n < ks[0]:
                ctx.violation(f"dispatch:{ks}", f"{m.relpath}:{v.lineno}: functions with {ks[0]} operands are dispatched to {g.name}")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Each operator method of Patch reduces to the element-wise function it denotes on its operands in written order (reflected ones swapped); the dispatcher hands operands over in order for every combination of patch and array; "
             "each named aggregation, rolling statistic, moving filter, complex part, centering operation and filter mentions only library functions of its own name; the tables of aggregations, windows and moving filters map each name "
             "to the function of that name in each backend, and sums built on means are scaled; members of Patch are bound to the operation of their name")
    ev = Evaluator(prog)
    operators(ctx, prog, ev)
    dispatch_order(ctx, prog)
    dispatch_map(ctx, prog)
    statistics(ctx, prog)
    engines = tables(ctx, prog)
    moving(ctx, prog, engines)
    members(ctx, prog)
    reductions(ctx, prog)
    ctx.require("operators", 15)
    ctx.require("dispatch_scenarios", 3)
    for k in ("named_aggregations", "rolling_statistics", "moving_filters"):
        ctx.require(k, 3)
    if sum(ctx.counts.get(k, 0) for k in ("aggregation_table_entries", "window_table_entries", "moving_table_entries")) < 5:
        raise AnalysisError("the dispatch tables were not found")
    ctx.require("element_wise_members", 5)
    ctx.require("operation_members", 40)
