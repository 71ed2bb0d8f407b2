"""C13: detected and scanned files are attributed to the right path and format."""
from __future__ import annotations

import ast
import tomllib

from ..calls import FIBER, fiber_classes
from ..contrib import Env, Explorer
from ..model import AnalysisError, dotted, walk_own

PARTS = {"split", "rsplit", "partition", "rpartition", "splitext", "splitlines"}
ALTERS = {"basename", "dirname", "lower", "upper", "casefold", "title", "capitalize", "removesuffix", "removeprefix", "replace", "with_suffix", "with_name", "with_stem", "relative_to", "lstrip", "rstrip"}
KEYS = ("path", "file_format", "file_version")
REDUCE = {"name", "stem", "suffix", "parent", "parts", "parents", "suffixes", "anchor"}
H5 = ("h5py.", "tables.")


def const_attr(prog, c, name):
    _, e = prog.class_attr_expr(c.qual, name)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    return None


def handle_kind(prog, f, pname):
    """'h5' / 'stream' / None (a path) for a parameter of a plugin method, from its annotation."""
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == pname and x.annotation is not None:
            q = prog.resolve(f.module, None, x.annotation) or ""
            names = {q} | set(prog.mro(q) if q in prog.classes else ())
            if any("PyTables" in n or "H5" in n or "HDF" in n or n.startswith(H5) for n in names):
                return "h5"
            if any(n.rsplit(".", 1)[-1] in ("BinaryReader", "TextReader", "BinaryWriter", "TextWriter", "BinaryIO", "TextIO", "IOBase") or "IO" in n.rsplit(".", 1)[-1] for n in names):
                return "stream"
    return None


class Plugin:
    def __init__(self, prog, c):
        self.p, self.c = prog, c
        self.name, self.version = const_attr(prog, c, "name"), const_attr(prog, c, "version")

    def method(self, name):
        q = self.p.class_member(self.c.qual, name)
        return self.p.functions.get(q or "")


def entry_points(prog):
    f = prog.repo / "pyproject.toml"
    d = tomllib.loads(f.read_text())
    return d.get("project", {}).get("entry-points", {}).get("dascore.fiber_io", {})


def registry(ctx, prog, plugins):
    seen = {}
    for p in plugins:
        if not p.name:
            ctx.violation(f"name:{p.c.qual}", f"{p.c.module.relpath}:{p.c.node.lineno} format class {p.c.name} has no constant name")
            continue
        if p.version is None:
            ctx.violation(f"version:{p.c.qual}", f"{p.c.module.relpath}:{p.c.node.lineno} format class {p.c.name} has no constant version")
            continue
        k = (p.name.upper(), p.version)
        if k in seen:
            ctx.violation(f"duplicate:{p.c.qual}", f"{p.c.module.relpath}:{p.c.node.lineno} {p.c.name} claims {k}, already claimed by {seen[k].c.qual}: the second is silently not registered")
        seen[k] = p
        ctx.count("formats_and_versions")
    by_class = {}
    for n, target in entry_points(prog).items():
        m, _, cls = target.partition(":")
        q = prog.canonical(f"{m}.{cls}")
        by_class.setdefault(q, []).append(n)
        if q not in prog.classes:
            ctx.violation(f"entry:{n}", f"pyproject.toml entry point {n} names {target}, which does not exist")
            continue
        p = next((x for x in plugins if x.c.qual == q), None)
        if p is None:
            ctx.violation(f"entry:{n}", f"pyproject.toml entry point {n} names {target}, which is not a file format class")
        elif p.name and n.split("__", 1)[0] != p.name.upper():
            ctx.violation(f"entry:{n}", f"entry point {n} announces format {n.split('__', 1)[0]} but {p.c.name} registers {p.name.upper()}: asking for the announced name never finds it")
        ctx.count("entry_points")
    for p in plugins:
        n = by_class.get(p.c.qual, [])
        if len(n) != 1:
            ctx.violation(f"registered:{p.c.qual}", f"{p.c.module.relpath}:{p.c.node.lineno} {p.c.name} is registered by {len(n)} entry points: {n}")


def compares(prog, ex, f, want, depth=4, env=None, seen=None):
    """Does f (or a helper it calls) compare something with a term satisfying `want`?"""
    env = Env() if env is None else env
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    for n in walk_own(f.node):
        sides = []
        if isinstance(n, ast.Compare):
            sides = [n.left] + n.comparators
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith", "fullmatch", "match", "search"):
            sides = n.args
        elif isinstance(n, ast.Subscript) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get":
            sides = [n.slice] if isinstance(n, ast.Subscript) else n.args[:1]
        for s in sides:
            if any(want(t) for t in ex.terms(f, s, env)):
                return True
        if isinstance(n, ast.Call) and depth > 0:
            g = ex.callees(f, n)
            if g is not None and compares(prog, ex, g, want, depth - 1, ex.bind(f, n, g, env), seen):
                return True
    return False


def answers(ex, f, env=None, depth=5):
    """[(function, expression, env, path statement)] of the values get_format may return, helpers followed."""
    env = Env() if env is None else env
    for r in ex.results(f):
        yield from _answer(ex, f, r.value, env, depth)


def _answer(ex, f, e, env, depth):
    from ..flow import defs_of
    if isinstance(e, ast.IfExp):
        yield from _answer(ex, f, e.body, env, depth)
        yield from _answer(ex, f, e.orelse, env, depth)
    elif isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from _answer(ex, f, v, env, depth)
    elif isinstance(e, ast.Name) and depth > 0:
        got = False
        for s, src, how in defs_of(f).reaching(e.id, e):
            if src is not None and how == "=":
                got = True
                yield from _answer(ex, f, src, env, depth - 1)
        if not got:
            yield f, e, env
    elif isinstance(e, ast.Call) and depth > 0 and ex.callees(f, e) is not None:
        g = ex.callees(f, e)
        yield from answers(ex, g, ex.bind(f, e, g, env), depth - 1)
    else:
        yield f, e, env


def detection(ctx, prog, plugins):
    shared = {}
    for p in plugins:
        m = p.method("get_format")
        if m is not None and m.cls is not None and m.cls.qual != FIBER:
            shared.setdefault(m.qual, []).append(p)
    for p in plugins:
        m = p.method("get_format")
        if m is None or m.cls is None or m.cls.qual == FIBER:
            continue
        ctx.count("detectors")
        ex = Explorer(prog, p.c.qual)
        versions = {x.version for x in plugins if x.name and p.name and x.name.upper() == p.name.upper()}
        positive = 0
        for f, e, env in answers(ex, m):
            if not isinstance(e, ast.Tuple) or len(e.elts) != 2:
                continue
            positive += 1
            ctx.count("detector_answers")
            key = f"detect:{p.c.name}"
            for t in ex.terms(f, e.elts[0], env):
                if t == ("self", "name") or t[0] == "const" and isinstance(t[1], str) and p.name and t[1].upper() == p.name.upper():
                    continue
                if t[0] == "const":
                    ctx.violation(key + ":name", f"{f.where(e)}: {p.c.name} ({p.name}) identifies files as {t[1]!r}")
                elif t[0] == "self" or not compares(prog, ex, m, lambda x: x == ("self", "name") or x[0] == "const" and isinstance(x[1], str) and x[1].upper() == (p.name or "").upper()):
                    ctx.violation(key + ":name", f"{f.where(e)}: {p.c.name} answers with `{ast.unparse(e.elts[0])}`, which is never compared with its own name {p.name!r}")
            for t in ex.terms(f, e.elts[1], env):
                if t[0] == "const" and not t[1] and len(ex.terms(f, e.elts[1], env)) > 1:
                    continue        # the not-detected outcome of a helper
                if t[0] == "const":
                    if t[1] not in versions:
                        ctx.violation(key + ":version", f"{f.where(e)}: {p.c.name} answers version {t[1]!r}; registered versions of {p.name} are {sorted(v for v in versions if v)}")
                elif t[0] == "self" and t[1] != "version":
                    ctx.violation(key + ":version", f"{f.where(e)}: {p.c.name} answers self.{t[1]} as the version")
                elif t == ("self", "version") and len({x.version for x in shared.get(m.qual, [])}) > 1:
                    if not compares(prog, ex, m, lambda x: x == ("self", "version")):
                        ctx.violation(key + ":version", f"{f.where(e)}: the detector is shared by versions {sorted(x.version for x in shared[m.qual])} but answers its own version without comparing it with the file's")
        if not positive:
            raise AnalysisError(f"cannot see what {m.qual} answers")


def path_ok(prog, scan, t, resname, kind, ctxlist):
    """Is a term the path of the scanned file?  Returns a reason when not."""
    if t[0] == "const":
        return f"the constant {t[1]!r}" if t[1] != "" else None
    if t == ("self", "<self>") or t[0] == "self":
        return f"self.{t[1]}, an attribute of the plugin"
    if t[0] == "attr":
        base, a = t[1], t[2]
        if base[0] == "param" and base[1] == scan.qual and base[2] == resname:
            good = {"h5": {"filename"}, "stream": {"name"}, None: set()}[kind]
            if a in good:
                return None
            return f"`{resname}.{a}`" + (" (the name of the root group, always '/')" if kind == "h5" and a == "name" else "")
        if a in REDUCE or a in ("mode",):
            inner = path_ok(prog, scan, base, resname, kind, ctxlist)
            if inner is None:
                return f"only the .{a} of the path"
        return None
    if t[0] in ("item", "call"):
        c = t
        while c[0] == "item":
            c = c[1]
        if c[0] == "call" and c[1].rsplit(".", 1)[-1] in PARTS | ALTERS and (t[0] == "item" or c[1].rsplit(".", 1)[-1] in ALTERS):
            whole = [x for x in (("param", scan.qual, resname), ("attr", ("param", scan.qual, resname), "name"), ("attr", ("param", scan.qual, resname), "filename"))
                     if any(str(x) in y for y in c[2] + c[3])]
            if whole:
                return f"the path changed by {c[1].rsplit('.', 1)[-1]}()"
        return None
    if t[0] == "param" and t[1] == scan.qual and t[2] == resname:
        return None if kind is None else f"the opened file `{resname}` itself, not its path"
    return None


def required(s, key):
    """Values a statement/node stores under a key."""
    out = []
    if isinstance(s, ast.Dict):
        for k, v in zip(s.keys, s.values):
            if isinstance(k, ast.Constant) and k.value == key:
                out.append(v)
    elif isinstance(s, ast.Call):
        out += [k.value for k in s.keywords if k.arg == key]
        if isinstance(s.func, ast.Attribute) and s.func.attr in ("setdefault", "__setitem__") and len(s.args) == 2 and isinstance(s.args[0], ast.Constant) and s.args[0].value == key:
            out.append(s.args[1])
    elif isinstance(s, ast.Assign):
        out += [s.value for t in s.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == key]
    return out


def conditions(f, node):
    """ids of the if/except blocks of f enclosing a node."""
    out = set()

    def go(body, st):
        for s in body:
            if any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.If):
                    for b in (s.body, s.orelse):
                        if any(x is node for y in b for x in ast.walk(y)):
                            go(b, st | {id(b)})
                            return
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and any(x is node for y in b for x in ast.walk(y)):
                        go(b, st)
                        return
                for h in getattr(s, "handlers", []) or []:
                    if any(x is node for y in h.body for x in ast.walk(y)):
                        go(h.body, st | {id(h.body)})
                        return
                out.update(st)
                return
    go(f.body, set())
    return out


def none_test(f, node, ex, env):
    """Every conditional block around the node is selected by tests on parameters that are given constants
    or values here (a default-None option the caller does pass)."""
    for n in walk_own(f.node):
        if isinstance(n, ast.If) and any(x is node for b in n.body + n.orelse for x in ast.walk(b)):
            names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
            if not names or not all(x in env and not isinstance(env[x][1], ast.Constant) for x in names if x in f.all_params) or not names <= set(f.all_params):
                return False
    return True


def scans(ctx, prog, plugins):
    for p in plugins:
        m = p.method("scan")
        if m is None:
            continue
        default = m.cls is not None and m.cls.qual == FIBER
        if default:
            r = p.method("read")
            if r is None or r.cls.qual == FIBER:
                continue        # write only
        ctx.count("scanners")
        ex = Explorer(prog, p.c.qual)
        versions = {x.version for x in plugins if x.name and p.name and x.name.upper() == p.name.upper()}
        resname = m.params[1]
        kind = handle_kind(prog, m, resname)
        for r in ex.results(m):
            if isinstance(r.value, (ast.List, ast.Tuple)) and not r.value.elts or isinstance(r.value, ast.Constant):
                continue
            found = {k: [] for k in KEYS}
            stored = False
            rc = conditions(m, r)
            for f, n, env, chain in ex.explore(m, r.value, Env()):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_index":
                    stored = True
                if isinstance(n, ast.Call) and ex.callees(f, n) is not None and not _constructs(prog, f, n):
                    continue        # arguments of helpers are followed, not stored
                for k in KEYS:
                    for v in required(n, k):
                        inside = conditions(f, n) - (rc if f is m else set().union(*[conditions(f, x) for x in ex.results(f)] or [set()]))
                        cond = bool(inside) and not none_test(f, n, ex, env)
                        found[k].append((f, v, env, cond))
                        ctx.count("scan_identity_stores")
                        for x in left_out(ex, f, n, env) if f is not m else ():
                            ctx.violation(f"scan:{p.c.name}:{k}:left-out", f"{f.where(x)}: {f.qual} leaves out {k} on this path, so summaries of {p.c.name}.scan may lack it")
                        for x in overriding(ex, f, n, env):
                            ctx.violation(f"scan:{p.c.name}:{k}:override", f"{f.where(x)}: `{ast.unparse(x)[:80]}` adds the attributes stored in the file after {k} was set: an attribute of that name in the file wins")
            key = f"scan:{p.c.name}"
            for k in KEYS:
                if not found[k] and not (stored and k != "path"):
                    ctx.violation(f"{key}:{k}", f"{m.where(r)}: the summaries {p.c.name}.scan returns here carry no {k}")
                elif found[k] and all(c for *_, c in found[k]) and len(found[k]) == 1:
                    f, v, env, _ = found[k][0]
                    ctx.violation(f"{key}:{k}", f"{f.where(v)}: {p.c.name}.scan stores {k} only under a condition")
                for f, v, env, _ in found[k]:
                    terms = ex.terms(f, v, env)
                    for t in terms:
                        why = None
                        if k == "file_version" and t[0] == "const" and not t[1] and (len(terms) > 1 or t[1] in versions):
                            continue
                        if k == "path":
                            why = path_ok(prog, m, t, resname, kind, None)
                            if t == ("const", "") and not _has_other(ex, f, v, env):
                                why = "the empty string"
                        elif k == "file_format":
                            if t[0] == "const" and isinstance(t[1], str) and p.name and t[1].upper() == p.name.upper() or t == ("self", "name"):
                                continue
                            if t == ("const", None) or t[0] == "param" and False:
                                continue
                            why = f"`{ast.unparse(v)}`" + (f" = {t[1]!r}" if t[0] == "const" else "")
                        else:
                            if t[0] == "const" and t[1] is not None and t[1] not in versions or t[0] == "self" and t[1] != "version":
                                why = f"`{ast.unparse(v)}`" + (f" = {t[1]!r}" if t[0] == "const" else "")
                        if why:
                            ctx.violation(f"{key}:{k}", f"{f.where(v)}: {p.c.name} ({p.name}) summaries carry {why} as their {k}")


def asks_given(test, f, env):
    """Does the test only ask whether parameters, which have a value here, were given?"""
    if isinstance(test, ast.BoolOp):
        return all(asks_given(v, f, env) for v in test.values)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return asks_given(test.operand, f, env)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(test.comparators[0], ast.Constant):
        test = test.left
    return isinstance(test, ast.Name) and test.id in f.all_params and test.id in env and not isinstance(env[test.id][1], ast.Constant)


def left_out(ex, f, n, env):
    """Results of a helper which returns the identity keys in a literal, but an empty mapping on another path."""
    rs = ex.results(f)
    if not isinstance(n, ast.Dict) or not any(r.value is n for r in rs):
        return
    for r in rs:
        if isinstance(r.value, ast.Dict) and not r.value.keys or isinstance(r.value, ast.Call) and getattr(r.value.func, "id", "") == "dict" and not r.value.args and not r.value.keywords:
            ifs = [x for x in walk_own(f.node) if isinstance(x, ast.If) and any(y is r for b in x.body + x.orelse for y in ast.walk(b))]
            if not ifs or not all(asks_given(x.test, f, env) for x in ifs):
                yield r


FREE = {"attrs", "_v_attrs", "_v_attrnames", "_f_list"}


def freeform(ex, f, e, env):
    """May a mapping contain keys taken from the attribute names found in the file?"""
    for g, n, ev, _ in ex.explore(f, e, env):
        keys = []
        if isinstance(n, ast.DictComp):
            keys = [n.key]
        elif isinstance(n, ast.Assign):
            keys = [t.slice for t in n.targets if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Constant)]
        elif isinstance(n, ast.Call) and getattr(n.func, "id", "") == "dict" and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr in FREE:
            return True
        for k in keys:
            if any(isinstance(x, ast.Attribute) and x.attr in FREE for _, x, _, _ in ex.explore(g, k, ev)):
                return True
    return False


def overriding(ex, f, n, env):
    """Constructs which add free-form keys to a mapping after an identity key was stored in it."""
    from ..flow import defs_of
    if isinstance(n, ast.Dict):
        seen = False
        for k, v in zip(n.keys, n.values):
            if isinstance(k, ast.Constant) and k.value in KEYS:
                seen = True
            elif k is None and seen and freeform(ex, f, v, env):
                yield v
    d = defs_of(f)
    st = d.stmt_of.get(id(n)) or (n if id(n) in d.order else None)
    name = None
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                name = t.value.id
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and name is None:
        name = st.targets[0].id
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Name):
        name = n.func.value.id
    if name is None or st is None:
        return
    for x in walk_own(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "update" and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.args:
            s2 = d.stmt_of.get(id(x))
            if s2 is not None and s2 is not st and d.order[id(s2)] > d.order[id(st)] and freeform(ex, f, x.args[0], env):
                yield x
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == name and not isinstance(x.targets[0].slice, ast.Constant):
            if d.order[id(x)] > d.order[id(st)] and any(isinstance(y, ast.Attribute) and y.attr in FREE for _, y, _, _ in ex.explore(f, x.targets[0].slice, env)):
                yield x


def _has_other(ex, f, v, env):
    return any(t != ("const", "") for t in ex.terms(f, v, env)) or isinstance(v, ast.Call) and getattr(v.func, "id", "") == "getattr"


def _constructs(prog, f, call):
    q = prog.resolve(f.module, f, call.func)
    return q in prog.classes or isinstance(call.func, ast.Attribute) and call.func.attr in ("update", "from_dict", "assign", "new")


MANAGER = "dascore.io.core._FiberIOManager"


def manager(ctx, prog):
    ex = Explorer(prog, MANAGER)
    f = prog.func(MANAGER + ".register_fiberio", required=True)
    n_store = 0
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript) and ast.unparse(t.value.value) == "self._format_version":
                    n_store += 1
                    ks = {a for x in (t.value.slice,) for nn in _slice(ex, f, x) if isinstance(nn, ast.Attribute) for a in [nn.attr]}
                    vs = {nn.attr for nn in _slice(ex, f, t.slice) if isinstance(nn, ast.Attribute)}
                    if "name" not in ks or "upper" not in ks:
                        ctx.violation("register:name", f"{f.where(n)}: plugins are not stored under their upper-case name")
                    if "version" not in vs:
                        ctx.violation("register:version", f"{f.where(n)}: plugins are not stored under their version")
    ctx.count("registrations", n_store)
    # look-ups
    g = prog.func(MANAGER + "._yield_format_version", required=True)
    src = {nn.attr for nn in walk_own(g.node) if isinstance(nn, ast.Attribute)}
    if "upper" not in src:
        ctx.violation("lookup:upper", f"{g.where()}: the requested format name is not upper-cased like the registered ones")
    # the detection loop answers what the detector said
    d = prog.func(MANAGER + "._get_format", required=True)
    for r in ex.results(d):
        ctx.count("detection_returns")
        calls = [n for f, n, env, ch in ex.explore(d, r.value, Env(), depth=0) if isinstance(n, ast.Call)]
        if not any(_is_detector(ex, d, c) for c in calls):
            ctx.violation("detect:loop", f"{d.where(r)}: the detection loop returns `{ast.unparse(r.value)}`, which is not an answer of the plugin's get_format")
    # loops over several sources do not carry the detected format of one file over to the next
    for f in prog.functions.values():
        if not f.module.name.startswith(("dascore.io", "dascore.clients")):
            continue
        for n in walk_own(f.node):
            if isinstance(n, (ast.For, ast.While)):
                det = [c for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) in ("_get_fiber_io_and_req_type", "get_format", "_get_format", "get_fiberio")]
                if not det:
                    continue
                ctx.count("detection_loops")
                stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for c in det:
                    for k in c.keywords:
                        if k.arg in ("file_format", "file_version", "format", "version"):
                            for x in ast.walk(k.value):
                                if isinstance(x, ast.Name) and x.id in stored and x.id in f.all_params:
                                    ctx.violation(f"carried:{f.qual}:{x.id}", f"{f.where(c)}: `{x.id}` detected for one file is used for the following ones")


def _slice(ex, f, e):
    return [n for _, n, _, _ in ex.explore(f, e, Env(), depth=0)]


def _is_detector(ex, d, c):
    for f, n, env, ch in ex.explore(d, c.func, Env(), depth=0):
        if isinstance(n, ast.Attribute) and n.attr == "get_format":
            return True
    return False


def index_paths(ctx, prog):
    """Summaries taken from a directory index get the directory put back in front of the stored relative path."""
    f = prog.func("dascore.clients.dirspool.DirectorySpool._df_to_dict_list")
    if f is None:
        return
    ex = Explorer(prog, "dascore.clients.dirspool.DirectorySpool")
    hit = False
    for n in walk_own(f.node):
        for v in required(n, "path") if isinstance(n, (ast.Assign, ast.Call, ast.Dict)) else []:
            names = {x.attr for _, x, _, _ in ex.explore(f, v, Env(), depth=2) if isinstance(x, ast.Attribute)}
            strs = {x.value for _, x, _, _ in ex.explore(f, v, Env(), depth=2) if isinstance(x, ast.Constant)}
            if names & {"spool_path", "path", "base_path"} and "path" in strs:
                hit = True
                ctx.count("index_path_restorations")
    if not hit:
        ctx.violation("index:path", f"{f.where()}: the base directory is not put in front of the relative paths of the index")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every file format class has a constant name and version, unique together, and exactly one entry point whose prefix is its upper-case name; every detector answers its own name (constant, self.name or a value "
             "compared with it) and a version that is its own, detected, or compared; every summary a scan returns gets path, file_format and file_version stored on all paths, evaluated symbolically through helpers to the "
             "path of the scanned resource and the plugin's own name and version; the detection loop returns only what a detector answered and nothing detected is carried over to the next file")
    ctx.assumptions += ["h5py/pytables files expose their path as .filename, streams as .name.", "Versions detected from file contents are trusted to be the file's."]
    plugins = [Plugin(prog, c) for c in fiber_classes(prog)]
    registry(ctx, prog, plugins)
    detection(ctx, prog, plugins)
    scans(ctx, prog, plugins)
    manager(ctx, prog)
    index_paths(ctx, prog)
    ctx.require("formats_and_versions", 30)
    ctx.require("entry_points", 30)
    ctx.require("detectors", 30)
    ctx.require("scanners", 30)
    ctx.require("scan_identity_stores", 80)
    ctx.require("registrations", 1)
    ctx.require("detection_returns", 1)
    ctx.require("detection_loops", 1)
