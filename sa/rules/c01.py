"""C01: operations leave their inputs unchanged (alias/mutation analysis)."""
from __future__ import annotations

import ast

from ..absint import Interp, Val, PATCH
from ..model import Program, AnalysisError

# Classes whose instances are mutable by design: their own methods may change self.
MUTABLE_SELF = {
    "dascore.io.indexer.DirectoryIndexer": "index object: owns its cache and bookkeeping files",
    "dascore.utils.io.IOResourceManager": "resource manager: owns a cache of open handles",
    "dascore.utils.hdf5.HDFPatchIndexManager": "index file manager: in-place encoder helpers work on private copies",
    "dascore.io.core._FiberIOManager": "plugin registry",
    "dascore.utils.misc.CacheDescriptor": "descriptor writing an object's private cache",
}
# Parameters documented as sinks or accumulators.
SINK_PARAMS = {
    "ax": "matplotlib axes are drawn on",
    "resource": "open file handle passed to writers",
    "h5": "open file handle", "hdf": "open file handle", "h5file": "open file handle",
    "fi": "open file handle", "f": "open file handle", "fp": "open file handle", "file": "open file handle",
    "visited": "recursion accumulator",
    "progress": "progress bar",
}
# private per-object caches
CACHE_ATTRS = {"_cache", "cache", "_no_progress", "_hash", "__globals__", "_dataframe_cache"}
# public functions that are in-place by contract, per parameter
EXEMPT = {
    ("dascore.utils.hdf5.HDFPatchIndexManager.encode_table", "df"): "codec step applied to a frame the index manager just built",
    ("dascore.utils.hdf5.HDFPatchIndexManager.decode_table", "df"): "codec step applied to a frame just read from disk",
    ("dascore.core.attrs.PatchAttrs.__setitem__", "self"): "item assignment protocol; rejected by the frozen model (C02)",
    ("dascore.utils.namespace.NamespaceOwner.__getattr__", "self"): "lazily caches a namespace object",
    ("dascore.utils.misc.CacheDescriptor.__get__", "instance"): "descriptor protocol: writes the owner's private cache",
    ("dascore.utils.misc.CacheDescriptor.__set__", "instance"): "descriptor protocol: writes the owner's private cache",
}
VALIDATOR_DECS = ("model_validator", "field_validator", "validator", "root_validator")


def _is_validator(it, f):
    return any(d.rsplit(".", 1)[-1] in VALIDATOR_DECS for d in it._decs(f))


def _is_wrapper(prog, fi):
    """A closure standing in for the public function it wraps."""
    for d in fi.decorators():
        if isinstance(d, ast.Call) and prog.resolve(fi.module, fi.parent, d.func) in ("functools.wraps", "functools.update_wrapper"):
            return True
    return False


def _is_registered(prog, fi):
    """An implementation registered with a public single-dispatch function."""
    for d in fi.decorators():
        n = d.func if isinstance(d, ast.Call) else d
        if isinstance(n, ast.Attribute) and n.attr == "register":
            q = prog.resolve(fi.module, fi.parent, n.value)
            if q in prog.functions and prog.functions[q].is_public():
                return True
    return False


def entries(prog: Program, it: Interp):
    for fi in prog.functions.values():
        if fi.parent is not None:
            if _is_wrapper(prog, fi):
                yield fi
            continue
        if _is_registered(prog, fi):
            yield fi
            continue
        parts = fi.qual.split(".")[1:]
        if any(p.startswith("_") and not (p.startswith("__") and p.endswith("__")) for p in parts):
            continue
        if _is_validator(it, fi):
            continue
        if fi.cls is not None and any(prog.is_subclass(fi.cls.qual, m) for m in MUTABLE_SELF):
            # their parameters still count, self does not
            pass
        yield fi


def entry_params(prog, it, fi):
    params = {n: it.default_param(fi, n, n) for n in fi.all_params}
    f = fi.parent
    while f is not None:
        for n in f.all_params:
            params.setdefault(n, Val(fn={("wrapped", n)}, nn=True))
        f = f.parent
    if fi.parent is None and fi.cls is not None and fi.params and not it._is_static(fi):
        s = fi.params[0]
        if it._is_class(fi):
            params[s] = Val(fn={("class", fi.cls.qual)}, nn=True)
        elif fi.name in ("__init__", "__new__", "__set_name__", "__setstate__", "__init_subclass__", "model_post_init"):
            params[s] = Val(ty={fi.cls.qual}, kind="obj", items=(), nn=True)
        elif any(prog.is_subclass(fi.cls.qual, m) for m in MUTABLE_SELF):
            params[s] = Val(ty={fi.cls.qual}, nn=True)
        else:
            params[s] = Val(al={s}, ty={fi.cls.qual}, nn=True)
    return params


def root_of(origin):
    o = origin.lstrip("~")
    return o.split(".")[0].split("[")[0]


def path_attrs(origin):
    return set(p.split("[")[0] for p in origin.lstrip("~").split(".")[1:])


def analyse(prog, only=None):
    it = Interp(prog)
    found = {}
    n = 0
    for fi in entries(prog, it):
        if only is not None and not only(fi):
            continue
        n += 1
        ret, evs = it.run_entry(fi, entry_params(prog, it, fi), cls=fi.cls)
        names = set(fi.all_params)
        for kind, f, node, stack, data in evs:
            if kind != "mut":
                continue
            bad = []
            for o in data["origins"]:
                if o.startswith(("global:", "default:")):
                    continue
                r = root_of(o)
                if r not in names or r in SINK_PARAMS or (fi.qual, r) in EXEMPT:
                    continue
                if path_attrs(o) & CACHE_ATTRS:
                    continue
                a = next((x for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs if x.arg == r), None)
                if a is not None and _handle_type(it, a, fi):
                    continue
                if any(_handle_attr(o) for _ in (0,)):
                    continue
                bad.append(o)
            if f.cls is not None and f.cls.qual in MUTABLE_SELF:
                pass
            if not bad:
                continue
            how = data["how"]
            if "_no_progress" in how:
                continue
            if f.cls is not None and f.cls.qual in MUTABLE_SELF and isinstance(node, (ast.Assign, ast.AugAssign)) and _targets_self(f, node):
                continue
            key = f"input-mutated:{f.qual}:{sorted(bad)[0]}"
            line = getattr(node, "lineno", 0)
            msg = (f"{f.module.relpath}:{line} in {f.qual}: {how} modifies {', '.join(sorted(bad)[:3])} "
                   f"of the caller of {fi.qual} (call path: {' -> '.join(stack)})")
            found.setdefault(key, msg)
    return found, n, it


HANDLE_TYPES = ("H5Reader", "H5Writer", "PyTablesReader", "PyTablesWriter", "BinaryReader", "BinaryWriter", "TextReader",
                "TextWriter", "LocalPath", "Axes", "IOResourceManager", "Progress", "LocalBinaryReader")


def _handle_type(it, arg, fi):
    tys = it.ann_types(arg.annotation, fi.module, fi)
    return any(t.rsplit(".", 1)[-1] in HANDLE_TYPES for t in tys)


def _handle_attr(o):
    return "_v_attrs" in o


def _targets_self(f, node):
    ts = node.targets if isinstance(node, ast.Assign) else [node.target]
    for t in ts:
        r = t
        while isinstance(r, (ast.Attribute, ast.Subscript)):
            r = r.value
        if not (isinstance(r, ast.Name) and f.params and r.id == f.params[0]):
            return False
    return True


SELF = {
    "dascore/__init__.py": "",
    "dascore/a.py": '''
import numpy as np
def bad_dict(attrs: dict):
    attrs.pop("x", None)
    return attrs
def _helper(d):
    d["k"] = 1
def bad_via_helper(opts=None):
    _helper(opts)
def bad_hist(patch):
    hist = patch.attrs.history
    hist.append("x")
    return hist
def bad_view(data: np.ndarray):
    x = np.asarray(data)
    y = x[1:]
    y[0] = 2
def good(attrs: dict, data: np.ndarray, patch):
    attrs = dict(attrs)
    attrs.pop("x")
    d2 = data.copy()
    d2[0] = 1
    hist = list(patch.attrs.history)
    hist.append("x")
    out = {}
    out["a"] = data
    return attrs
''',
}


def run(ctx):
    ctx.rule("For every public function/method, an interprocedural may-alias analysis starting from its parameters finds no "
             "in-place store, augmented assignment, mutating method call, out=/overwrite/inplace argument or setattr on an "
             "object that may belong to the caller (open handles, axes, accumulators and private caches excepted).")
    sp = Program(sources=SELF)
    f, _, _ = analyse(sp)
    hit = {k.split(":")[1].rsplit(".", 1)[-1] for k in f}
    ctx.selftest(hit == {"bad_dict", "_helper", "bad_hist", "bad_view"}, f"C01 positive/negative examples: {hit}")
    found, n, it = analyse(ctx.prog)
    for k, v in found.items():
        ctx.violation(k, v)
    ctx.count("entry_functions", n)
    ctx.count("call_contexts_analysed", len(it.memo))
    ctx.count("contexts_cut_by_bound", it.cut)
    ctx.require("entry_functions", 400)
    ctx.assumptions += [
        "calls into numpy/scipy/pandas/h5py are modelled by tables of views and mutators; unknown externals are assumed not to mutate",
        "call contexts beyond depth 9 or the context limit are summarised as returning fresh values",
    ]
