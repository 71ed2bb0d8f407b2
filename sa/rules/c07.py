"""C07: results do not depend on the order of a patch's dimensions."""
from __future__ import annotations

import ast

from ..absint import PATCH
from ..flow import defs_of
from ..model import walk_own
from . import c07m
from .c05 import is_name

OPS = ("dascore.proc", "dascore.transform")
WRITERS = ("dascore.io.",)
FREE = "free"

# array functions acting along one axis by default (first or last)
DEFAULT_AXIS = {
    "numpy.cumsum", "numpy.cumprod", "numpy.diff", "numpy.sort", "numpy.argsort", "numpy.trapz", "numpy.trapezoid",
    "numpy.fft.fft", "numpy.fft.ifft", "numpy.fft.rfft", "numpy.fft.irfft", "numpy.fft.hfft", "numpy.apply_along_axis",
    "scipy.fft.fft", "scipy.fft.ifft", "scipy.fft.rfft", "scipy.fft.irfft", "scipy.fft.dct",
    "scipy.signal.detrend", "scipy.signal.filtfilt", "scipy.signal.lfilter", "scipy.signal.sosfilt", "scipy.signal.sosfiltfilt",
    "scipy.signal.decimate", "scipy.signal.resample", "scipy.signal.resample_poly", "scipy.signal.hilbert", "scipy.signal.savgol_filter",
    "scipy.signal.spectrogram", "scipy.signal.stft", "scipy.interpolate.interp1d", "scipy.ndimage.sobel", "scipy.ndimage.uniform_filter1d",
    "scipy.ndimage.median_filter1d", "scipy.ndimage.maximum_filter1d", "scipy.ndimage.minimum_filter1d", "scipy.ndimage.gaussian_filter1d",
    "scipy.integrate.cumulative_trapezoid", "scipy.integrate.simpson",
    "dascore.compat.is_array",
} - {"dascore.compat.is_array"}
AXIS_HELD = {"stft", "stft_detrend", "istft", "spectrogram"}
AXIS_METHODS = {"cumsum", "cumprod", "sort", "argsort"}
REDUCE = {"mean", "sum", "min", "max", "std", "var", "median", "any", "all", "prod", "nanmean", "nanmax", "nanmin", "nansum", "argmax", "argmin", "ptp", "amax", "amin",
          "allclose", "array_equal", "isscalar", "count_nonzero", "size", "ndim", "result_type", "issubdtype", "shares_memory"}
ONE_D = {"get_array", "get_window", "hann", "hamming", "arange", "linspace", "fftfreq", "rfftfreq"}
KEEP_P = {"new", "update", "update_attrs", "convert_units", "set_units", "simplify_units", "update_coords", "drop_coords", "drop_private_coords",
          "select", "order", "sort_coords", "snap_coords", "rename_coords", "pad", "dft", "idft", "abs", "detrend", "taper", "dropna", "fillna",
          "pass_filter", "resample", "interpolate", "decimate", "apply_ufunc", "demean", "normalize", "standardize", "integrate", "differentiate", "envelope", "hilbert"}


class Lay:
    """Evaluates which dimension layout an expression carries.

    ("P", root): a patch, ("A", root): an array in that patch's layout,
    ("AX", root): axis number, ("S", root): shape, ("D", root): dims tuple,
    ("C", v): constant, ("1D",): one-dimensional array.  root is "free" (the
    caller's order, unknown) or "fixed" (arranged by name inside the library)."""

    def __init__(self, ctx, prog):
        self.ctx, self.p, self.memo, self.ret_memo = ctx, prog, set(), {}
        self.stack = []

    # -- environment
    def name(self, f, n, env, depth):
        d = defs_of(f)
        out = None
        for s, src, how in d.reaching(n.id, n):
            v = None
            if how == "entry":
                g = f
                while g is not None:
                    if n.id in g.all_params:
                        v = env.get((g.qual, n.id))
                        break
                    g = g.parent
                    if g is not None and n.id in defs_of(g).defs:
                        for s2, src2, how2 in defs_of(g).defs[n.id]:
                            v = v or self.bound(g, src2, how2, env, depth - 1)
                        break
            elif src is n:
                continue
            else:
                v = self.bound(f, src, how, env, depth - 1, s, n.id)
            out = self.join(out, v)
        return out

    def elem(self, f, e, env, depth):
        """Value of one element when iterating over the expression."""
        if depth < 0:
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not any(isinstance(x, ast.Starred) for x in e.args):
            if e.func.id == "zip":
                return ("T", tuple(self.elem(f, x, env, depth - 1) for x in e.args))
            if e.func.id == "enumerate" and e.args:
                v = self.ev(f, e.args[0], env, depth - 1)
                return ("T", (("AX", v[1]) if v and v[0] in ("D", "S") else ("IDX",) if v is None else None, self.elem(f, e.args[0], env, depth - 1)))
            if e.func.id == "range" and len(e.args) == 1:
                return None
            if e.func.id in ("list", "tuple", "sorted", "reversed") and e.args:
                return self.elem(f, e.args[0], env, depth - 1)
        v = self.ev(f, e, env, depth - 1)
        if v is None:
            return None
        return {"LP": ("P", FREE), "LDAV": ("DAV", v[1] if len(v) > 1 else None), "LAX": ("AX", v[1] if len(v) > 1 else None), "LDX": ("DX",)}.get(v[0])

    def bound(self, f, src, how, env, depth, stmt=None, name=None):
        if src is None or depth < 0:
            return None
        if how in ("=", "aug", "with"):
            return self.ev(f, src, env, depth)
        if isinstance(how, tuple):
            v = self.ev(f, src, env, depth)
            if v and v[0] == "T":
                return v[1][how[1]] if how[1] < len(v[1]) else None
            if v and v[0] == "DAV" or (v and v[0] == "LDAV"):
                return ("AX", v[1]) if how[1] == 1 else None
            return None
        if how == "iter":
            v = self.elem(f, src, env, depth)
            return self.pick(getattr(stmt, "target", None), v, name)
        return None

    def pick(self, t, v, name):
        if v is None or t is None:
            return None
        if isinstance(t, ast.Name):
            return v if t.id == name else None
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                    if v[0] == "T" and i < len(v[1]):
                        return self.pick(x, v[1][i], name)
                    if v[0] == "DAV":
                        return ("AX", v[1]) if i == 1 and isinstance(x, ast.Name) else None
        return None

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a[0] == b[0] and len(a) > 1 and len(b) > 1 and FREE in (a[1], b[1]) and a[0] in ("A", "P", "S", "D"):
            return (a[0], FREE)
        if a[0] == "C" or b[0] == "C":
            return None
        if {a[0], b[0]} == {"LP", "P"}:
            return a if a[0] == "P" else b
        if {a[0], b[0]} == {"1D", "DX"}:
            return ("1D",)
        return a

    # -- expressions
    def ev(self, f, e, env, depth=12):
        if e is None or depth < 0:
            return None
        r = lambda x: self.ev(f, x, env, depth - 1)
        if isinstance(e, ast.Constant):
            return ("C", e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.UnaryOp):
            v = r(e.operand)
            if v and v[0] == "C" and isinstance(e.op, ast.USub):
                return ("C", -v[1])
            return v
        if isinstance(e, ast.Name):
            return self.name(f, e, env, depth)
        if isinstance(e, ast.NamedExpr):
            return r(e.value)
        if isinstance(e, ast.Tuple):
            return ("T", tuple(r(x) for x in e.elts))
        if isinstance(e, ast.IfExp):
            return self.join(r(e.body), r(e.orelse))
        if isinstance(e, ast.BinOp):
            a, b = r(e.left), r(e.right)
            for v in (a, b):
                if v and v[0] == "A":
                    return v
            if (a and a[0] == "1D") or (b and b[0] == "1D"):
                return ("1D",)
            return None
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                v = r(x)
                if v and v[0] == "A" and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
                    return v
            return None
        if isinstance(e, ast.Attribute):
            v = r(e.value)
            if e.attr == "patch" and is_name(e.value, {"self"}):
                return ("P", FREE)
            if e.attr == "axis" and is_name(e.value, {"self"}):
                return ("AX", FREE)
            if v is None:
                # coordinate value arrays
                if e.attr in ("values", "data") and isinstance(e.value, (ast.Name, ast.Call)):
                    c = e.value
                    srcs = [c] if isinstance(c, ast.Call) else [s for _, s, h in defs_of(f).reaching(c.id, c) if h == "="]
                    if srcs and all(isinstance(s, ast.Call) and getattr(s.func, "attr", "") == "get_coord" for s in srcs):
                        return ("1D",)
                return None
            if v[0] == "P":
                if e.attr == "data":
                    return ("A", v[1])
                if e.attr == "shape":
                    return ("S", v[1])
                if e.attr == "dims":
                    return ("D", v[1])
                if e.attr == "coords":
                    return ("CM", v[1])
                return None
            if v[0] == "CM" and e.attr in ("dims", "shape"):
                return ("D" if e.attr == "dims" else "S", v[1])
            if v[0] == "A":
                if e.attr == "shape":
                    return ("S", v[1])
                if e.attr in ("real", "imag", "magnitude"):
                    return v
                if e.attr == "T":
                    return ("A", FREE)
            if v[0] in ("DAV",) and e.attr == "axis":
                return ("AX", v[1])
            return None
        if isinstance(e, ast.Subscript):
            v = r(e.value)
            if v is None:
                return None
            if v[0] == "LP":
                return v if isinstance(e.slice, ast.Slice) else ("P", FREE)
            if v[0] == "LDAV":
                return ("DAV", v[1])
            if v[0] == "DAV":
                i = r(e.slice)
                return ("AX", v[1]) if i == ("C", 1) else None
            if v[0] == "LAX":
                return ("AX", v[1])
            if v[0] == "T":
                i = r(e.slice)
                if i and i[0] == "C" and -len(v[1]) <= i[1] < len(v[1]):
                    return v[1][i[1]]
                return None
            if v[0] == "A":
                if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in e.slice.elts):
                    return ("A", "fixed")
                return v
            if v[0] == "DX" and isinstance(e.slice, ast.Slice):
                return ("1D",)
            if v[0] == "LDX":
                return ("DX",)
            if v[0] == "1D":
                return ("1D",) if isinstance(e.slice, ast.Slice) else None
            return None
        if isinstance(e, (ast.List, ast.ListComp, ast.GeneratorExp)):
            return None
        if isinstance(e, ast.Call):
            return self.call(f, e, env, depth)
        return None

    def own_method(self, f, e):
        """The writer's helper method a call on self or cls reaches."""
        if f.cls is None or not f.module.name.startswith(WRITERS) or not isinstance(e.func, ast.Attribute) or not is_name(e.func.value, {"self", "cls", f.cls.name}):
            return None
        return self.p.functions.get(self.p.class_member(f.cls.qual, e.func.attr) or "")

    def call(self, f, e, env, depth):
        r = lambda x: self.ev(f, x, env, depth - 1)
        q = self.p.external(self.p.resolve(f.module, f, e.func)) or ""
        fn = e.func
        a = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        kw = {k.arg: k.value for k in e.keywords if k.arg}
        m = self.own_method(f, e)
        if m is not None:
            return self.returns(m, self.bind(f, m, e, env, depth), depth)
        if isinstance(fn, ast.Attribute) and not q:
            v = r(fn.value)
            if v and v[0] == "P":
                if a == "transpose":
                    names = [x for x in e.args]
                    return ("P", "fixed") if names else ("P", FREE)
                if a == "get_axis":
                    return ("AX", v[1])
                if a == "get_array":
                    return ("1D",)
                if a in KEEP_P:
                    if a in ("new", "update") and ("dims" in kw):
                        return None
                    return v
                return None
            if v and v[0] == "D" and a == "index":
                return ("AX", v[1])
            if v and v[0] == "CM" and a == "get_array":
                return ("1D",)
            if v and v[0] == "A":
                if a in REDUCE and "axis" not in kw and not e.args:
                    return None
                if a in ("astype", "copy", "conj", "clip", "round", "view", "filled", "to", "real", "imag") or "axis" in kw:
                    return v
                if a == "reshape":
                    return None
                return None
            if v and v[0] == "1D":
                return v if a in ("astype", "copy", "view") else None
            if v is None and a == "get_array":
                return ("1D",)
            return None
        if q.endswith(".get_dim_axis_value"):
            src = e.args[0] if e.args else kw.get("patch")
            v = r(src)
            return ("LDAV", v[1]) if v and v[0] == "P" else None
        if q.endswith("_get_dx_or_spacing_and_axes"):
            v = r(e.args[0]) if e.args else None
            return ("T", (("LDX",), ("LAX", v[1]))) if v and v[0] == "P" else None
        if q == "dascore.utils.misc.broadcast_for_index":
            return None
        g = self.p.functions.get(q)
        if g is not None:
            b = self.bind(f, g, e, env, depth)
            return self.returns(g, b, depth)
        if q == PATCH or a == "__class__":
            return None
        if q.split(".")[0] in ("numpy", "scipy"):
            if a in ("swapaxes", "moveaxis", "rollaxis"):
                v = r(e.args[0]) if e.args else None
                return ("A", "fixed") if v and v[0] == "A" else None
            if a in ("sliding_window_view",):
                v = r(e.args[0]) if e.args else None
                return ("A", "fixed") if v and v[0] == "A" else None
            if a == "transpose":
                v = r(e.args[0]) if e.args else None
                return v if len(e.args) + len(e.keywords) == 1 else (("A", "fixed") if v and v[0] == "A" else None)
            if a in ("zeros", "ones", "empty", "full") and e.args:
                v = r(e.args[0])
                return ("A", v[1]) if v and v[0] == "S" else None
            if a in REDUCE and "axis" not in kw:
                return None
            if a in ONE_D and a != "get_array":
                return ("1D",)
            if a in ("stack", "concatenate", "vstack", "hstack", "expand_dims", "reshape", "ravel", "squeeze", "broadcast_to", "meshgrid", "outer"):
                return None
            vals = [r(x) for x in e.args]
            for v in vals:
                if v and v[0] == "A":
                    return v
            if vals and vals[0] and vals[0][0] == "1D" and a in ("diff", "abs", "exp", "asarray", "array", "square", "cos", "sin", "cumsum"):
                return ("1D",)
            return None
        if q in ("builtins.list", "builtins.tuple") and len(e.args) == 1:
            v = r(e.args[0])
            return v if v and v[0] in ("S", "D", "LAX", "LDX", "LDAV", "T") else None
        if q == "dascore.compat.array":
            return r(e.args[0]) if e.args else None
        # functions held in variables: f = g1 / g2
        return None

    def targets(self, f, e):
        """Program functions a call may reach through a local variable."""
        out = []
        if isinstance(e.func, ast.Name):
            for s, src, how in defs_of(f).reaching(e.func.id, e.func):
                if src is not None and how == "=":
                    for x in ([src.body, src.orelse] if isinstance(src, ast.IfExp) else [src]):
                        g = self.p.functions.get(self.p.resolve(f.module, f, x) or "")
                        if g is not None:
                            out.append(g)
        return out

    def bind(self, f, g, e, env, depth):
        out = {}
        ps = list(g.params)
        if g.cls is not None and isinstance(e.func, ast.Attribute) and ps[:1] in (["self"], ["cls"]):
            ps = ps[1:]
        seen = set()
        for i, x in enumerate(e.args):
            if isinstance(x, ast.Starred):
                break
            if i < len(ps):
                seen.add(ps[i])
                v = self.ev(f, x, env, depth - 1)
                if v is not None:
                    out[(g.qual, ps[i])] = v
        for k in e.keywords:
            if k.arg:
                seen.add(k.arg)
                v = self.ev(f, k.value, env, depth - 1)
                if v is not None:
                    out[(g.qual, k.arg)] = v
        star = any(k.arg is None for k in e.keywords) or any(isinstance(x, ast.Starred) for x in e.args)
        if not star and g.node.args.defaults:
            pos = g.node.args.posonlyargs + g.node.args.args
            for p_, d_ in list(zip(pos[-len(g.node.args.defaults):], g.node.args.defaults)) + [(p, d) for p, d in zip(g.node.args.kwonlyargs, g.node.args.kw_defaults) if d is not None]:
                if p_.arg not in seen and "axis" in p_.arg:
                    v = self.ev(g, d_, {}, 2)
                    if v is not None:
                        out[(g.qual, p_.arg)] = v
        return out

    def returns(self, g, env, depth):
        key = (g.qual, tuple(sorted(env.items(), key=str)))
        if key in self.ret_memo:
            return self.ret_memo[key]
        self.ret_memo[key] = None
        if len(self.stack) > 12:
            return None
        self.stack.append(g.qual)
        out = None
        if g.name == "__init__":
            rets = []
        else:
            rets = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return) and n.value is not None]
        dec_op = g.module.name.startswith(OPS) and any("patch_function" in ast.unparse(d) for d in g.decorators())
        if dec_op:
            first = env.get((g.qual, g.params[0])) if g.params else None
            out = first if first and first[0] == "P" and g.name in KEEP_P else None
            if g.name == "transpose":
                out = ("P", "fixed")
        else:
            for x in rets:
                out = self.join(out, self.ev(g, x, env, min(depth, 10) - 1))
        self.stack.pop()
        self.ret_memo[key] = out
        return out

    # -- the rule
    def bad(self, f, n, kind, msg):
        self.ctx.violation(f"{kind}:{f.qual}", f"{f.where(n)}: {msg}")

    def visit(self, f, env, depth=5):
        key = (f.qual, tuple(sorted(env.items(), key=str)))
        if key in self.memo or depth < 0:
            return
        self.memo.add(key)
        self.ctx.count("functions_visited")
        E = lambda x: self.ev(f, x, env)
        nodes = list(walk_own(f.node))
        for n in nodes:
            if isinstance(n, (ast.For, ast.comprehension)):
                rows = n.iter.args[0] if isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") in ("enumerate", "list", "iter", "reversed") and n.iter.args else n.iter
                for x in rows.args if isinstance(rows, ast.Call) and getattr(rows.func, "id", "") == "zip" else [rows]:
                    self.ctx.count("iterated")
                    if E(x) == ("A", FREE):
                        self.bad(f, n.iter, "rows", "goes through an array whose dimension order is the caller's along its first dimension")
            if isinstance(n, ast.Call):
                self.visit_call(f, n, env, depth)
            elif isinstance(n, ast.Subscript):
                v = E(n.value)
                if v is None:
                    continue
                if v == ("A", FREE):
                    self.ctx.count("array_subscripts")
                    self.check_index(f, n, E)
                elif v[0] in ("S", "D") and v[1] == FREE:
                    i = E(n.slice)
                    if i and i[0] == "IDX" and v[0] == "D":
                        self.bad(f, n, "position", f"indexes the {'shape' if v[0] == 'S' else 'dimensions'} of a patch whose dimension order is the caller's with a running number of another sequence")
                    if i and i[0] == "C":
                        self.bad(f, n, "position", f"takes entry {i[1]} of the {'shape' if v[0] == 'S' else 'dimensions'} of a patch whose dimension order is the caller's")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        v = E(n.value)
                        if v and v[0] in ("S", "D") and v[1] == FREE:
                            self.bad(f, n, "position", f"unpacks the {'shape' if v[0] == 'S' else 'dimensions'} of a patch whose dimension order is the caller's")
                    # index lists: idx = [slice(None)] * data.ndim; idx[0] = ...
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        i = E(t.slice)
                        if i and i[0] == "C" and self.is_index_list(f, t.value, env, unknown=f.module.name.startswith(OPS)):
                            self.bad(f, n, "position", "writes a fixed position of an index for an array whose dimension order is the caller's")
                        if i == ("IDX",) and self.names_dimension(f, t.slice) and self.is_index_list(f, t.value, env, unknown=f.module.name.startswith(OPS)):
                            self.bad(f, n, "position", "uses the running number of a sequence of dimension names as the axis of an array whose dimension order is the caller's")
            elif isinstance(n, ast.Attribute) and n.attr == "T":
                if E(n.value) == ("A", FREE):
                    self.bad(f, n, "transpose", "transposes an array whose dimension order is the caller's")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)):
                a, b = E(n.left), E(n.right)
                if a and b and {a[0], b[0]} == {"A", "1D"} and ("A", FREE) in (a, b):
                    self.bad(f, n, "broadcast", "combines an array in the caller's dimension order with a one-dimensional array without placing it on its axis")
            elif isinstance(n, (ast.For, ast.comprehension)):
                if E(n.iter) == ("A", FREE):
                    self.bad(f, n if isinstance(n, ast.For) else n.iter, "position", "iterates over the first axis of an array whose dimension order is the caller's")
        for c in f.children.values():
            self.visit(c, env, depth)

    def names_dimension(self, f, e):
        """Is the expression the counter of `for i, dim in enumerate(names)` with dim looked up as a dimension?"""
        if not isinstance(e, ast.Name):
            return False
        srcs = [e]
        for _, src, how in defs_of(f).reaching(e.id, e):
            if how == "=" and isinstance(src, ast.Name):
                srcs.append(src)
        for x in srcs:
            for s, src, how in defs_of(f).reaching(x.id, x):
                t = getattr(s, "target", None)
                if how != "iter" or not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and is_name(t.elts[0], {x.id}) and isinstance(t.elts[1], ast.Name)):
                    continue
                dim = t.elts[1].id
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("get_coord", "get_axis", "get_array", "get_coord_tuple_map") \
                            and any(is_name(y, {dim}) for y in c.args):
                        return True
        return False

    def is_index_list(self, f, name, env, unknown=False):
        for s, src, how in defs_of(f).reaching(name.id, name):
            if isinstance(src, ast.BinOp) and isinstance(src.op, ast.Mult):
                for lst, num in ((src.left, src.right), (src.right, src.left)):
                    if isinstance(lst, ast.List) and isinstance(num, (ast.Attribute, ast.Call, ast.Name)):
                        if isinstance(num, ast.Attribute) and num.attr == "ndim":
                            v = self.ev(f, num.value, env)
                            if v is None and unknown:
                                return self.param_of(f, num.value)
                            return bool(v) and v[0] in ("A", "P") and v[1] == FREE
                        if isinstance(num, ast.Call) and getattr(num.func, "id", "") == "len" and num.args:
                            v = self.ev(f, num.args[0], env)
                            return bool(v) and v[0] in ("S", "D") and v[1] == FREE
                        if isinstance(num, ast.Name):
                            for s2, src2, h2 in defs_of(f).reaching(num.id, num):
                                if isinstance(src2, ast.Attribute) and src2.attr == "ndim":
                                    v = self.ev(f, src2.value, env)
                                    return bool(v) and v[0] in ("A", "P") and v[1] == FREE
                                if isinstance(src2, ast.Call) and getattr(src2.func, "id", "") == "len" and src2.args:
                                    v = self.ev(f, src2.args[0], env)
                                    return bool(v) and v[0] in ("S", "D") and v[1] == FREE
        return False

    def param_of(self, f, e):
        """An array handed in by the caller of a helper that also gets the patch: its number of dimensions is the patch's."""
        return isinstance(e, ast.Name) and e.id in f.all_params and any(p == "patch" for p in f.all_params) \
            and all(h == "entry" for _, _, h in defs_of(f).reaching(e.id, e))

    def check_index(self, f, n, E):
        sl = n.slice
        if isinstance(sl, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in sl.elts):
                return
            full = lambda x: isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None or isinstance(x, ast.Constant) and x.value in (None, Ellipsis)
            if all(isinstance(x, ast.Constant) and x.value in (None, Ellipsis) or full(x) for x in sl.elts):
                return
            self.bad(f, n, "position", "indexes an array at fixed axis positions although its dimension order is the caller's")
        elif isinstance(sl, ast.Slice):
            self.bad(f, n, "position", "slices the first axis of an array whose dimension order is the caller's")
        else:
            i = E(sl)
            if i and i[0] == "C":
                self.bad(f, n, "position", "takes one entry of the first axis of an array whose dimension order is the caller's")

    def visit_call(self, f, n, env, depth):
        E = lambda x: self.ev(f, x, env)
        q = self.p.external(self.p.resolve(f.module, f, n.func)) or ""
        fn = n.func
        a = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        kw = {k.arg: k.value for k in n.keywords if k.arg}
        star = any(k.arg is None for k in n.keywords)
        # the array operand
        arr = None
        if isinstance(fn, ast.Attribute) and not q:
            arr = E(fn.value)
        if not (arr and arr[0] in ("A", "P")):
            for x in n.args[:2 if q in DEFAULT_AXIS else 1] + ([kw["x"]] if "x" in kw else []) + ([kw["a"]] if "a" in kw else []):
                if not isinstance(x, ast.Starred):
                    v_ = E(x)
                    if v_ and v_[0] == "A" or arr is None:
                        arr = v_
        g = self.p.functions.get(q)
        if arr and arr[0] == "A":
            self.ctx.count("array_calls")
            axkw = sorted(k for k in kw if "axis" in k or "axes" in k)
            for k in axkw:
                self.check_axis(f, n, arr, E(kw[k]), a)
            if arr[1] == FREE and not axkw and not star:
                npos = {"roll": 2, "take": 2, "flip": 1, "swapaxes": 1, "moveaxis": 1, "concatenate": 1, "repeat": 2, "delete": 2, "gradient": 99}.get(a, 1)
                if not q and isinstance(fn, ast.Name) and self.held_method(f, fn):
                    self.bad(f, n, "default-axis", f"{a} acts along its default axis of an array whose dimension order is the caller's")
                if q in DEFAULT_AXIS or (not q and isinstance(fn, ast.Attribute) and a in AXIS_METHODS | AXIS_HELD):
                    # scipy passes axis positionally in a few signatures
                    posax = any((E(x) or ("",))[0] == "AX" for x in n.args[1:] if not isinstance(x, ast.Starred))
                    self.ctx.count("axis_defaults")
                    if not posax:
                        self.bad(f, n, "default-axis", f"{a} acts along its default axis of an array whose dimension order is the caller's")
                elif q.startswith(("numpy.", "scipy.")) and a in ("roll", "take", "flip", "delete", "repeat") and len(n.args) > npos:
                    self.check_axis(f, n, arr, E(n.args[npos]), a)
                elif q == "numpy.transpose" and len(n.args) == 1:
                    self.bad(f, n, "transpose", "transposes an array whose dimension order is the caller's")
                elif q.startswith("numpy.") and a in REDUCE and len(n.args) > 1:
                    self.check_axis(f, n, arr, E(n.args[1]), a)
        if q == "dascore.utils.misc.broadcast_for_index":
            nd = n.args[0] if n.args else kw.get("n_dims")
            ax = n.args[1] if len(n.args) > 1 else kw.get("axis")
            v = E(ax)
            if v and v[0] == "C" and self.is_free_ndim(f, nd, env):
                self.bad(f, n, "position", "builds an index with a fixed axis for an array whose dimension order is the caller's")
            self.ctx.count("index_builders")
        gs = [g] if g is not None else self.targets(f, n)
        for g in gs:
            if not g.module.name.startswith(OPS + ("dascore.utils.",) + (WRITERS if f.module.name.startswith(WRITERS) else ())) or g.module.name.endswith((".pd", ".misc", ".time", ".attrs")):
                continue
            if any("patch_function" in ast.unparse(d) for d in g.decorators()):
                continue
            b = self.bind(f, g, n, env, 8)
            if any(v[0] in ("A", "P", "S", "D", "LP") for v in b.values()):
                b2 = dict(b)
                for k, v in env.items():
                    b2.setdefault(k, v) if g.parent is not None else None
                self.visit(g, b2, depth - 1)
        # methods of the same class / nested functions
        if g is None and isinstance(fn, ast.Attribute) and is_name(fn.value, {"self", "cls"}) and f.cls is not None:
            m = self.p.functions.get(self.p.class_member(f.cls.qual, a) or "")
            if m is not None:
                b = self.bind(f, m, n, env, 8)
                if b:
                    self.visit(m, b, depth - 1)

    def held_method(self, f, fn):
        """Does a local variable hold a transform object's axis-wise method?"""
        for _, src, how in defs_of(f).reaching(fn.id, fn):
            for x in ast.walk(src) if src is not None and how == "=" else ():
                if isinstance(x, ast.Attribute) and x.attr in AXIS_HELD:
                    return True
        return False

    def is_free_ndim(self, f, e, env):
        if isinstance(e, ast.Name):
            srcs = [s for _, s, h in defs_of(f).reaching(e.id, e) if s is not None]
        else:
            srcs = [e]
        for s in srcs:
            if isinstance(s, ast.Attribute) and s.attr == "ndim":
                v = self.ev(f, s.value, env)
                if v and v[0] in ("A", "P") and v[1] == FREE:
                    return True
            if isinstance(s, ast.Call) and getattr(s.func, "id", "") == "len" and s.args:
                v = self.ev(f, s.args[0], env)
                if v and v[0] in ("S", "D") and v[1] == FREE:
                    return True
        return False

    def check_axis(self, f, n, arr, ax, a):
        self.ctx.count("axis_arguments")
        if ax is None:
            return
        if ax[0] == "C" and arr[1] == FREE:
            self.bad(f, n, "fixed-axis", f"{a} is applied along fixed axis {ax[1]} of an array whose dimension order is the caller's")
        elif ax[0] == "T" and arr[1] == FREE and any(x and x[0] == "C" for x in ax[1]):
            self.bad(f, n, "fixed-axis", f"{a} is applied along fixed axes of an array whose dimension order is the caller's")
        elif ax[0] == "AX" and ax[1] != arr[1]:
            self.bad(f, n, "stale-axis", f"{a} uses an axis number of a differently ordered patch")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Layout analysis: arrays taken from a patch in the caller's dimension order are never indexed, reduced, filtered, unpacked or broadcast at a constant or default axis "
             "position; an axis number is only used with arrays of the patch it was looked up on; arrays of patches arranged by transpose(<names>) may use fixed positions")
    ctx.rule("Where data arrays of several patches are put together position by position (concatenated, stacked, summed), the patches were brought to common dimensions, or compared by their dims with others rejected or skipped")
    ctx.assumptions += ["Values whose origin the layout analysis cannot follow (user-supplied callables, values stored in containers) are not judged.",
                        "Plotting functions are outside the rule: their axis order is part of the result."]
    lay = Lay(ctx, prog)
    c = prog.classes[PATCH]
    for f in list(prog.functions.values()):
        if f.parent is not None or not f.module.name.startswith(OPS + ("dascore.utils.array",)):
            continue
        if f.module.name == "dascore.utils.array" and f.name.startswith("_"):
            continue
        if f.cls is not None and not f.module.name.startswith(OPS):
            continue
        env = {}
        for p in f.params[:1]:
            ann = next((ast.unparse(x.annotation) for x in f.node.args.args if x.arg == p and x.annotation is not None), "")
            if p in ("patch", "self") and f.cls is None or "Patch" in ann:
                env[(f.qual, p)] = ("P", FREE)
        for x in f.node.args.args + f.node.args.kwonlyargs:
            if x.arg == "patch" or (x.annotation is not None and ast.unparse(x.annotation) in ("PatchType", "dc.Patch")):
                env[(f.qual, x.arg)] = ("P", FREE)
        if not env and f.cls is None:
            continue
        ctx.count("operations_and_helpers")
        lay.visit(f, env)
    for f in list(prog.functions.values()):
        if f.module.name.startswith(WRITERS) and f.cls is not None and f.parent is None and f.name == "write" and len(f.params) > 1:
            ctx.count("writers")
            first = f.params[1]
            lay.visit(f, {(f.qual, first): ("P", FREE) if first == "patch" else ("LP",)})
    ctx.require("operations_and_helpers", 60)
    c07m.run(ctx, prog)
    ctx.require("combinations_of_several_patches", 3)
