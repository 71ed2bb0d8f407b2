"""C12: reading, scanning and detecting never modify data files."""
from __future__ import annotations

import ast

from ..calls import FIBER, READ_SIDE, fiber_classes, graph
from ..flow import defs_of
from ..model import AnalysisError, dotted, walk_own
from .c05 import is_name

OS_W = {"remove", "unlink", "rename", "renames", "replace", "rmdir", "removedirs", "mkdir", "makedirs", "truncate", "ftruncate", "chmod", "chown", "utime", "link", "symlink", "mknod", "mkfifo"}
PATH_W = {"write_bytes", "write_text", "touch", "unlink", "rmdir", "mkdir", "symlink_to", "hardlink_to", "link_to", "chmod", "tofile", "to_hdf", "to_csv", "to_pickle", "to_parquet", "to_feather",
          "create_group", "create_array", "create_carray", "create_earray", "create_vlarray", "create_table", "create_dataset", "create_virtual_dataset", "require_group", "require_dataset",
          "remove_node", "move_node", "rename_node", "copy_node", "truncate", "writelines", "writerow", "writerows", "remove_attrs", "savez", "write_direct", "mkdtemp"}
NP_W = {"save", "savez", "savez_compressed", "savetxt"}
OPENERS = {"open", "open_file", "File", "HDFStore", "_HDF5Store", "memmap", "constructor", "open_hdf5_file", "ZipFile", "TarFile", "read_hdf", "fdopen", "load", "open_memmap"}
DEFAULT = {"open": "r", "open_file": "r", "File": "r", "HDFStore": "a", "_HDF5Store": "a", "memmap": "r+", "constructor": "r", "ZipFile": "r", "TarFile": "r", "read_hdf": "r", "fdopen": "r",
           "load": None, "open_memmap": "r+"}
H5_READ = {"r", "rb", "rt", "c", "br"}
H5_ATTRS = {"_v_attrs", "attrs"}


class Unknown(Exception):
    pass


def const_eval(prog, e, env):
    """Evaluate simple string/boolean expressions; `env` maps dotted names to values."""
    k = ".".join(dotted(e) or [])
    if k and k in env:
        return env[k]
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return tuple(const_eval(prog, x, env) for x in e.elts)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not const_eval(prog, e.operand, env)
    if isinstance(e, ast.BoolOp):
        v = None
        for x in e.values:
            v = const_eval(prog, x, env)
            if bool(v) != isinstance(e.op, ast.And):
                return v
        return v
    if isinstance(e, ast.Subscript):
        v = const_eval(prog, e.value, env)
        s = e.slice
        if isinstance(s, ast.Slice):
            return v[(const_eval(prog, s.lower, env) if s.lower else None):(const_eval(prog, s.upper, env) if s.upper else None)]
        return v[const_eval(prog, s, env)]
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = const_eval(prog, e.left, env), const_eval(prog, e.comparators[0], env)
        o = e.ops[0]
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Is: lambda: a is b,
                ast.IsNot: lambda: a is not b}.get(type(o), lambda: (_ for _ in ()).throw(Unknown()))()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith"):
        return getattr(const_eval(prog, e.func.value, env), e.func.attr)(*[const_eval(prog, a, env) for a in e.args])
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip", "casefold") and not e.args and not e.keywords:
        v = const_eval(prog, e.func.value, env)
        if not isinstance(v, str):
            raise Unknown
        return getattr(v, e.func.attr)()
    if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("any", "bool", "set") and len(e.args) == 1:
        return {"any": any, "bool": bool, "set": set}[e.func.id](const_eval(prog, e.args[0], env))
    raise Unknown


def dead_under(prog, f, node, env):
    """Is the node inside an if-branch excluded by the environment, or after a guard that leaves?"""
    def search(body):
        for s in body:
            if any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.If):
                    inb, ino = any(x is node for b in s.body for x in ast.walk(b)), any(x is node for b in s.orelse for x in ast.walk(b))
                    if inb or ino:
                        try:
                            v = bool(const_eval(prog, s.test, env))
                            if v != inb:
                                return True
                        except (Unknown, TypeError, IndexError):
                            pass
                        return search(s.body if inb else s.orelse)
                    return False
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(s, fld, None)
                    if isinstance(sub, list) and any(x is node for b in sub for x in ast.walk(b)):
                        return search(sub)
                for h in getattr(s, "handlers", []) or []:
                    if any(x is node for b in h.body for x in ast.walk(b)):
                        return search(h.body)
                return any(isinstance(x, ast.IfExp) and _ifexp_dead(prog, x, node, env) for x in ast.walk(s))
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                try:
                    if const_eval(prog, s.test, env):
                        return True
                except (Unknown, TypeError, IndexError):
                    pass
        return False
    return search(f.body)


def _ifexp_dead(prog, x, node, env):
    for side, want in ((x.body, True), (x.orelse, False)):
        if any(y is node for y in ast.walk(side)):
            try:
                return bool(const_eval(prog, x.test, env)) != want
            except (Unknown, TypeError, IndexError):
                return False
    return False


def handle_classes(prog):
    """{class: effective mode} of all classes which open files through get_handle."""
    out = {}
    for q, c in prog.classes.items():
        g = prog.class_member(q, "get_handle")
        if g in prog.functions:
            _, m = prog.class_attr_expr(q, "mode")
            out[q] = m.value if isinstance(m, ast.Constant) else None
    return out


def mode_values(prog, f, e, env, seen_calls, depth=0):
    """Possible values of a file-mode expression; None stands for unknown."""
    if e is None:
        return {None}
    try:
        return {const_eval(prog, e, env)}
    except (Unknown, TypeError, IndexError):
        pass
    if isinstance(e, ast.IfExp):
        return mode_values(prog, f, e.body, env, seen_calls, depth) | mode_values(prog, f, e.orelse, env, seen_calls, depth)
    if isinstance(e, ast.Name) and depth < 4:
        if e.id in f.all_params:
            out = set()
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            dflt = dict(zip(names[::-1], a.defaults[::-1])) | {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
            for g, c in seen_calls.get(f.qual, []):
                v = next((k.value for k in c.keywords if k.arg == e.id), None)
                off = 1 if f.cls is not None and names and names[0] in ("self", "cls") else 0
                if v is None and e.id in names and names.index(e.id) - off < len(c.args):
                    v = c.args[names.index(e.id) - off]
                if v is None:
                    v = dflt.get(e.id)
                out |= mode_values(prog, g, v, {}, seen_calls, depth + 1) if v is not None else {None}
            return out or ({dflt[e.id].value} if isinstance(dflt.get(e.id), ast.Constant) else {None})
        srcs = [s for _, s, h in defs_of(f).reaching(e.id, e) if h == "="]
        if srcs:
            return set().union(*[mode_values(prog, f, s, env, seen_calls, depth + 1) for s in srcs])
    return {None}


def effects(prog, f, env, seen_calls):
    """(node, description) of file-modifying constructs of a function."""
    for n in walk_own(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                if isinstance(t, ast.Subscript):
                    v = t.value
                    if isinstance(v, ast.Attribute) and v.attr == "_v_attrs":
                        yield n, f"stores file attributes: `{ast.unparse(t)}`"
                    elif isinstance(v, ast.Attribute) and v.attr == "attrs" and not _patch_like(f, v.value):
                        yield n, f"stores file attributes: `{ast.unparse(t)}`"
                    elif _handle_param(prog, f, v):
                        yield n, f"stores into the opened file: `{ast.unparse(t)}`"
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and t.value.attr == "_v_attrs":
                    yield n, f"stores file attributes: `{ast.unparse(t)}`"
            continue
        if not isinstance(n, ast.Call):
            continue
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        q = prog.external(prog.resolve(f.module, f, n.func)) or ""
        root = q.split(".")[0]
        if root == "os" and name in OS_W or root == "shutil" and name not in ("which", "disk_usage", "get_terminal_size"):
            yield n, f"`{ast.unparse(n.func)}`"
        elif root == "numpy" and name in NP_W:
            yield n, f"`{ast.unparse(n.func)}`"
        elif isinstance(n.func, ast.Attribute) and name in PATH_W and (prog.functions.get(q) is None) and root != "numpy":
            yield n, f"`{ast.unparse(n.func)}`"
        elif isinstance(n.func, ast.Attribute) and name == "dump" and root in ("pickle", "json", "") and len(n.args) >= 2:
            yield n, f"`{ast.unparse(n.func)}`"
        elif isinstance(n.func, ast.Attribute) and name == "write" and (_handle_param(prog, f, n.func.value) or _opened(f, n.func.value) or root in ("scipy", "wave")):
            yield n, f"`{ast.unparse(n.func)}`"
        elif isinstance(n.func, ast.Attribute) and name in ("rename", "replace") and _path_like(f, n.func.value):
            yield n, f"`{ast.unparse(n.func)}`"
        elif name == "setattr" and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == "_v_attrs":
            yield n, "stores file attributes"
        elif root == "segyio" and name in ("create", "create_from_array2D", "create_from_array"):
            yield n, f"`{ast.unparse(n.func)}`"
        elif root == "mmap" and name == "mmap":
            if not any(k.arg == "access" and "READ" in ast.unparse(k.value) for k in n.keywords):
                yield n, "maps a file writable"
        elif name in OPENERS and _is_opener(prog, f, n, name, q):
            m = next((k.value for k in n.keywords if k.arg in (("mmap_mode",) if name == "load" else ("mode",))), None)
            pos = {"memmap": 2, "load": 1, "Path.open": 0}.get(name, 1)
            if isinstance(n.func, ast.Attribute) and name == "open" and root not in ("segyio", "io", "tables", "wave", "gzip", "zipfile", "dascore", "codecs"):
                pos = 1 if _external_module(prog, f, n.func.value) else 0
            if m is None and len(n.args) > pos and not any(isinstance(a, ast.Starred) for a in n.args[:pos + 1]):
                m = n.args[pos]
                if name == "open_hdf5_file":
                    pass
            if name == "open_hdf5_file" and m is None:
                continue
            vals = {DEFAULT.get(name, "r")} if m is None else mode_values(prog, f, m, env, seen_calls)
            bad = sorted(str(v) for v in vals if v is not None and v not in H5_READ)
            if bad:
                yield n, f"opens a file with mode {', '.join(bad)}: `{ast.unparse(n)}`"


def _is_opener(prog, f, n, name, q):
    if name in ("File",):
        return q.startswith(("h5py", "tables")) or q.endswith("H5pyFile") or q.endswith("PyTablesFile")
    if name == "load":
        return q.startswith("numpy")
    if name == "read_hdf":
        return q.startswith("pandas")
    if name == "open" and isinstance(n.func, ast.Attribute):
        return not isinstance(n.func.value, ast.Constant)
    return True


def _patch_like(f, e):
    return isinstance(e, ast.Name) and e.id in ("patch", "df", "pa", "self", "out", "new", "xr", "dar")


def _external_module(prog, f, e):
    """A local name bound to an imported (optional) module."""
    if isinstance(e, ast.Call):
        return getattr(e.func, "id", getattr(e.func, "attr", "")) in ("optional_import", "lazy_import", "import_module")
    if not isinstance(e, ast.Name):
        return False
    return any(isinstance(s, ast.Call) and getattr(s.func, "id", getattr(s.func, "attr", "")) in ("optional_import", "lazy_import", "import_module") for _, s, h in defs_of(f).reaching(e.id, e))


def _own_place(f, n):
    """Works on the user's cache or a temporary directory, not on data."""
    from .c06 import fslice
    for a in n.args:
        for x in fslice(f, a).values():
            for c in ast.walk(x):
                if isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) in ("user_cache_path", "user_cache_dir", "mkdtemp", "TemporaryDirectory", "gettempdir", "NamedTemporaryFile"):
                    return True
    return False


def _opened(f, e):
    if not isinstance(e, ast.Name):
        return False
    return any(isinstance(s, ast.Call) and (getattr(s.func, "attr", getattr(s.func, "id", "")) == "open") for _, s, h in defs_of(f).reaching(e.id, e))


def _path_like(f, e):
    if isinstance(e, ast.Call):
        return getattr(e.func, "id", "") == "Path"
    if isinstance(e, ast.Name):
        return any(isinstance(s, ast.Call) and getattr(s.func, "id", "") == "Path" for _, s, h in defs_of(f).reaching(e.id, e))
    return False


def _handle_param(prog, f, e):
    """Is the expression a parameter annotated with a file-handle class (or taken out of one)?"""
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    if not isinstance(e, ast.Name):
        return False
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == e.id and x.annotation is not None:
            for n in ast.walk(x.annotation):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    q = prog.external(prog.resolve(f.module, None, n)) or ""
                    if q in HANDLES or q.startswith(("h5py.", "tables.")):
                        return True
    return False


HANDLES: set = set()


def run(ctx):
    prog, g = ctx.prog, graph(ctx.prog)
    ctx.rule("No function reachable from format detection, scanning or reading (over-approximated call graph; stops at the directory index) opens a file in a writing mode, creates, renames, truncates or "
             "removes files, or stores into an opened file; the handle class requested by those methods opens in mode r/rb; handle classes for appending never open in a truncating mode")
    ctx.assumptions += ["Third-party readers (segyio, obspy, scipy.io, h5py, tables) opened for reading do not write.",
                        "The directory index module and an explicit call of a write/index function are outside."]
    modes = handle_classes(prog)
    HANDLES.clear()
    HANDLES.update(modes)
    ctx.count("handle_classes", len(modes))
    classes = fiber_classes(prog)
    roots = [c.methods[m] for c in classes for m in READ_SIDE if m in c.methods]
    for n in ("read", "scan", "scan_to_df", "get_format"):
        roots.append(prog.func(f"dascore.io.core.{n}"))
    reach = g.reach(roots, stop=lambda f: f.module.name == "dascore.io.indexer" or f.qual.endswith((".write", ".index")) and f.cls is not None)
    ctx.count("entry_points", len(roots))
    ctx.count("reachable_functions", len(reach))
    # call sites of reachable functions, for mode parameters
    seen_calls = {}
    for q, (f, _, _) in reach.items():
        for n, h in g.edges(f):
            if isinstance(n, ast.Call):
                seen_calls.setdefault(h.qual, []).append((f, n))
    readers = [q for q, m in modes.items() if m is not None and not m.startswith(("a", "w", "x")) and "+" not in m]
    for q, (f, caller, _) in reach.items():
        if f.cls is not None and f.cls.qual in modes:
            continue  # judged below for each class that inherits it
        ctx.count("functions_scanned")
        for n, what in effects(prog, f, {}, seen_calls):
            if _through_handles(reach, f, modes) or isinstance(n, ast.Call) and _own_place(f, n):
                continue
            ctx.violation(f"write:{f.qual}:{what[:60]}", f"{f.where(n)}: reachable from reading ({g.path(reach, q)}): {what}")
    # handle classes
    for q in sorted(modes):
        c = prog.classes[q]
        m = modes[q]
        if m is None:
            ctx.violation(f"mode-unknown:{q}", f"{c.module.relpath}:{c.node.lineno}: the opening mode of {q} is not a constant")
            continue
        if m.startswith(("w", "x")):
            ctx.violation(f"truncating:{q}", f"{c.module.relpath}:{c.node.lineno}: handle class {q} opens in mode `{m}`, which truncates existing files")
    used = {}
    for c in classes:
        for m in READ_SIDE:
            f = c.methods.get(m)
            if f is None:
                continue
            ctx.count("read_methods")
            a = f.node.args
            for x in (a.posonlyargs + a.args)[1:2]:
                for n in ast.walk(x.annotation) if x.annotation is not None else ():
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        q = prog.resolve(f.module, None, n)
                        if q in modes:
                            used.setdefault(q, f)
                            if q not in readers:
                                ctx.violation(f"writer-handle:{f.qual}", f"{f.where()}: {m} asks for {q.rsplit('.', 1)[1]}, which opens the file in mode `{modes[q]}`")
    ctx.count("reader_classes_used", len(used))
    for q in readers:
        gh = prog.functions[prog.class_member(q, "get_handle")]
        env = {"cls.mode": modes[q], "self.mode": modes[q]}
        for name, v in _class_consts(prog, q).items():
            env.setdefault("cls." + name, v)
        sub = g.reach([gh])
        for hq, (h, _, _) in sub.items():
            if not (h.module.name.startswith("dascore.utils")):
                continue
            # is the call chain from get_handle dead for this class?
            if hq != gh.qual and _chain_dead(prog, sub, hq, env):
                continue
            for n, what in effects(prog, h, env if h.cls is not None else {}, seen_calls):
                if hq == gh.qual and dead_under(prog, h, n, env):
                    continue
                ctx.violation(f"reader:{q}:{what[:60]}", f"{h.where(n)}: opening a file through {q.rsplit('.', 1)[1]} (mode {modes[q]}) {what}")
    # the generic functions must ask for the handle of the read-side method
    for q, (f, _, _) in reach.items():
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr == "_required_type" and isinstance(n.value, ast.Attribute):
                ctx.count("required_types")
                if n.value.attr == "write":
                    ctx.violation(f"writer-handle:{f.qual}", f"{f.where(n)}: takes the handle type of the write method while reading")
    ctx.require("entry_points", 40)
    ctx.require("handle_classes", 4)


def _class_consts(prog, q):
    out = {}
    for k in prog.mro(q):
        c = prog.classes.get(k)
        for name, v in (c.attrs if c else {}).items():
            if isinstance(v, ast.Constant):
                out.setdefault(name, v.value)
    return out


def _chain_dead(prog, sub, q, env):
    while q is not None:
        f, caller, node = sub[q]
        if caller is None:
            return False
        if dead_under(prog, caller, node, env):
            return True
        q = caller.qual
    return False


def _through_handles(reach, f, modes):
    """Functions reached only through the handle classes are judged per class."""
    q = f.qual
    while q is not None:
        h, caller, _ = reach[q]
        if h.cls is not None and h.cls.qual in modes:
            return True
        q = caller.qual if caller is not None else None
    return False
