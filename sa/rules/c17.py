"""C17: inverse transforms consume exactly what the forward transforms store."""
from __future__ import annotations

import ast

from ..conds import before, conds, parents
from ..contrib import Env, Explorer
from ..flow import defs_of
from ..model import dotted, walk_own
from .c16 import ANY, Patterns, unify

# stored for people, or superseded by another key
MARKERS = {"_stft_performed", "_dft_padded"}
# options after which the documentation says that the result cannot be inverted
NOT_INVERTIBLE = {"dft": ("output",), "stft": ("detrend",)}
POSITIONS = {"ShortTimeFFT": ("win", "hop", "fs")}
READERS = ("get", "pop", "get_coord", "get_array", "__getitem__", "setdefault")


class Key:
    def __init__(self, mode, pats, f, node, env, chain, value=None, default=None):
        self.mode, self.pats, self.f, self.node, self.env, self.chain = mode, pats, f, node, env, chain
        self.value, self.default = value, default

    @property
    def where(self):
        return self.f.where(self.node)

    def __repr__(self):
        return f"{self.mode}{sorted(self.pats)}@{self.where}"


class Book:
    """Accesses of private keys in everything an operation calls within its package."""

    def __init__(self, prog, entry):
        self.p, self.entry = prog, entry
        self.pt = Patterns(prog)
        self.x = self.pt.x
        self.keys, self.done, self.visits = [], set(), []
        self.visit(entry, Env(), ())

    def private(self, f, e, env):
        if e is None:
            return set()
        es = e.elts if isinstance(e, (ast.Tuple, ast.List, ast.Set)) else [e]
        out = set()
        for x in es:
            out |= {p for p in self.pt.of(f, x, env) if p.startswith("_") and not p.startswith("__") and p != ANY}
        return out

    def visit(self, f, env, chain):
        sig = (f.qual, tuple((id(a), id(b)) for a, b in chain[-1:]))
        if sig in self.done or len(chain) > 6:
            return
        self.done.add(sig)
        self.visits.append((f, env, chain))
        par = parents(f.node)
        for n in walk_own(f.node):
            self.access(f, n, env, chain, par)
            if isinstance(n, ast.Call):
                g = self.x.callees(f, n)
                if g is not None and (g.module is self.entry.module or g.module.name.startswith(self.entry.module.name)):
                    self.visit(g, self.x.bind(f, n, g, env), chain + ((f, n),))

    def add(self, mode, f, n, k, env, chain, value=None, default=None):
        ps = self.private(f, k, env)
        if ps:
            self.keys.append(Key(mode, ps, f, n, env, chain, value, default))

    def access(self, f, n, env, chain, par):
        A = lambda mode, k, value=None, default=None: self.add(mode, f, n, k, env, chain, value, default)
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if k is not None:
                    A("w", k, v)
        elif isinstance(n, ast.DictComp):
            A("w", n.key, n.value)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    A("w", t.slice, n.value)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    A("d", t.slice)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            A("r", n.slice)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            self.tested(f, n, n.left, env, chain)
            self.excluded(f, n, n.comparators[0], isinstance(n.ops[0], ast.NotIn), env, chain, par)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            for side in (n.left, n.comparators[0]):
                self.excluded(f, n, side, isinstance(n.ops[0], ast.NotEq), env, chain, par)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg.startswith("_"):
                    A("w", ast.Constant(k.arg), k.value)
            fn = n.func
            if not isinstance(fn, ast.Attribute):
                if getattr(fn, "id", "") == "getattr" and len(n.args) >= 2:
                    A("r", n.args[1], default=n.args[2] if len(n.args) > 2 else None)
                return
            if fn.attr == "setdefault" and len(n.args) == 2:
                A("w", n.args[0], n.args[1], default=n)
            elif fn.attr in READERS and n.args:
                A("r", n.args[0], default=n.args[1] if len(n.args) > 1 else (ast.Constant(None) if fn.attr == "get" else None))
                if fn.attr == "pop":
                    A("d", n.args[0])
            elif fn.attr in ("drop", "drop_coords", "drop_private", "disassociate_coord"):
                for a in n.args:
                    A("d", a)
            elif fn.attr == "startswith" and n.args:
                ps = self.private(f, n.args[0], env)
                if ps and self.drops(f, n, par):
                    self.keys.append(Key("d", {p.rstrip("*") + "*" for p in ps}, f, n, env, chain))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith("_") and not n.attr.startswith("__"):
            if isinstance(n.value, ast.Attribute) and n.value.attr == "attrs" or isinstance(n.value, ast.Name) and n.value.id.endswith("attrs"):
                self.add("r", f, n, ast.Constant(n.attr), env, chain)

    def tested(self, f, n, k, env, chain):
        ps = self.private(f, k, env)
        if ps:
            self.keys.append(Key("t", ps, f, n, env, chain))

    def excluded(self, f, n, names, neg, env, chain, par):
        """Names left out of a mapping that is rebuilt."""
        if isinstance(names, ast.Name):
            ds = defs_of(f).reaching(names.id, names) or []
            q = self.p.resolve(f.module, f, names)
            m, _, v = (q or "").rpartition(".")
            mod = self.p.modules.get(m)
            if len(ds) == 1 and ds[0][2] == "=":
                names = ds[0][1]
            elif mod and len(mod.variables.get(v, [])) == 1:
                names = mod.variables[v][0]
        if isinstance(names, ast.Call) and getattr(names.func, "id", "") in ("set", "frozenset", "tuple", "list") and names.args:
            names = names.args[0]
        ps = self.private(f, names, env)
        if ps and self.drops(f, n, par, neg):
            self.keys.append(Key("d", ps, f, n, env, chain))

    def drops(self, f, n, par, neg=False):
        """A test on names that excludes the matching ones."""
        p, cur = par.get(id(n)), n
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                neg = not neg
            if isinstance(p, ast.comprehension):
                comp = par.get(id(p))
                # names collected to be dropped, or items kept
                return neg if isinstance(comp, ast.DictComp) else True
            cur, p = p, par.get(id(p))
        if isinstance(p, ast.If):
            body = p.orelse if neg else p.body
            if any(isinstance(x, (ast.Continue, ast.Delete)) or isinstance(x, ast.Call) and getattr(x.func, "attr", "") in ("pop", "drop", "append", "add") for s in body for x in ast.walk(s)):
                return True
            other = p.body if neg else p.orelse
            return bool(other) and not any(isinstance(x, ast.Assign) for s in body for x in ast.walk(s))
        return False


def key_test(t, pats, book, f, env):
    """Does a condition only ask whether the key itself is there?"""
    if t is None:
        return False
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            ps = book.private(f, n.left, env)
            if any(unify(a, b) for a in ps for b in pats):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args:
            ps = book.private(f, n.args[0], env)
            if any(unify(a, b) for a in ps for b in pats):
                return True
        if isinstance(n, ast.Name):
            for _, src, how in defs_of(f).reaching(n.id, n) or []:
                if how == "=" and isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr in ("get", "pop") and src.args:
                    ps = book.private(f, src.args[0], env)
                    if any(unify(a, b) for a in ps for b in pats):
                        return True
    return False


def returns_input(f, s):
    """A leave that hands back the (unchanged) first parameter."""
    rs = [n for n in ast.walk(s) if isinstance(n, ast.Return)]
    ok = bool(rs) and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s))
    for r in rs:
        if not (isinstance(r.value, ast.Name) and f.params and r.value.id == f.params[0]):
            return False
        ds = defs_of(f).reaching(r.value.id, r.value) or []
        if any(d[2] != "entry" for d in ds):
            return False
    return ok


def key_conds(book, k):
    """Everything that decides whether the access happens, along its call chain."""
    out = []
    for f, n in list(k.chain) + [(k.f, k.node)]:
        for t, pol, kind, s in conds(f, n):
            if kind == "leave" and returns_input(f, s) or kind == "if" and s.orelse and any(returns_input(f, b) for b in ((s.orelse if pol else s.body)[-1:])):
                continue
            out.append((f, t, pol, kind, s))
    return out


def tested_names(f, k, par):
    """Is the outcome of a tolerant read examined before it is used?"""
    n = k.node
    p = par.get(id(n))
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, (ast.Compare, ast.BoolOp, ast.NamedExpr)) or isinstance(p, ast.IfExp) and p.test is not n:
            return True
        p = par.get(id(p))
    if isinstance(p, (ast.If, ast.Assert)):
        return True
    if isinstance(p, ast.Assign):
        names = {t.id for t in p.targets if isinstance(t, ast.Name)}
        for x in walk_own(f.node):
            if isinstance(x, (ast.If, ast.IfExp, ast.Assert)) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.test)):
                return True
            if isinstance(x, ast.comprehension) and any(isinstance(y, ast.Name) and y.id in names for t in x.ifs for y in ast.walk(t)):
                return True
    return False


def tolerant(book, k):
    """The read copes with an absent key."""
    par = parents(k.f.node)
    cs = conds(k.f, k.node, par)
    if any(key_test(t, k.pats, book, k.f, k.env) for t, *_ in cs):
        return True
    n = k.node
    p = par.get(id(n))
    while p is not None:
        if isinstance(p, ast.Try) and any(h.type is None or any(x in ("KeyError", "Exception", "CoordError") for d in ast.walk(h.type) for x in (dotted(d) or [])) for h in p.handlers):
            return True
        p = par.get(id(p))
    return k.default is not None and (not isinstance(k.default, ast.Constant) or k.default.value is not None or tested_names(k.f, k, par))


def origin(x, f, e, env, depth=10):
    """Where a coordinate kept for later was taken from: 'input' or the call that changed the patch before."""
    if depth <= 0 or e is None:
        return {"?"}
    if isinstance(e, ast.Attribute):
        return origin(x, f, e.value, env, depth - 1)
    if isinstance(e, ast.Subscript):
        return origin(x, f, e.value, env, depth - 1)
    if isinstance(e, ast.IfExp):
        return origin(x, f, e.body, env, depth - 1) | origin(x, f, e.orelse, env, depth - 1)
    if isinstance(e, ast.Constant):
        return set()
    if isinstance(e, ast.Tuple) and len(e.elts) == 2:
        return origin(x, f, e.elts[1], env, depth - 1)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("get_coord", "get", "get_coord_tuple_map", "copy", "items", "values"):
            return origin(x, f, e.func.value, env, depth - 1)
        g = x.callees(f, e)
        if g is not None and not any((dotted(d) or dotted(getattr(d, "func", d)) or [""])[-1] == "patch_function" for d in g.node.decorator_list):
            e2 = x.bind(f, e, g, env)
            return set().union(*[origin(x, g, r.value, e2, depth - 1) for r in x.results(g)]) if x.results(g) else {"?"}
        return {ast.unparse(e.func)}
    if isinstance(e, ast.Name):
        out = set()
        ds = defs_of(f).reaching(e.id, e) or []
        if e.id not in f.all_params and not [d for d in ds if d[1] is not None] and f.parent is not None:
            hs = [d for d in x.defs(f.parent).get(e.id, []) if d[2] == "="]
            if hs:
                return set().union(*[origin(x, f.parent, s, env, depth - 1) for _, s, _ in hs])
        for s, src, how in ds:
            if how == "entry":
                if e.id in env:
                    g, v, ev = env[e.id]
                    out |= origin(x, g, v, ev, depth - 1)
                else:
                    out.add("input")
            elif how == "=":
                out |= origin(x, f, src, env, depth - 1)
            else:
                out.add("?")
        return out
    return {"?"}


def pairs(prog):
    ops = {}
    for f in prog.all_functions():
        if f.cls is None and f.parent is None and any((dotted(getattr(d, "func", d)) or [""])[-1] == "patch_function" for d in f.node.decorator_list):
            ops.setdefault(f.name, f)
    return [(ops[n], ops["i" + n]) for n in sorted(ops) if "i" + n in ops]


def show(ps):
    return " or ".join(sorted(ps))


def judge(ctx, prog, fw, inv):
    F, I = Book(prog, fw), Book(prog, inv)
    what = f"{fw.name}/{inv.name}"
    writes = [k for k in F.keys if k.mode == "w"]
    # what is written again by the inverse itself (its own scratch) does not count
    reads = [k for k in I.keys if k.mode in "rt"]
    drops = [k for k in I.keys if k.mode == "d"]
    stored = {}
    for k in writes:
        for p in k.pats:
            stored.setdefault(p, []).append(k)
    ctx.count("bookkeeping_keys", len(stored))
    ctx.count("bookkeeping_reads", len(reads))
    ctx.count("bookkeeping_removals", len(drops))
    partial = "dim" in inv.all_params

    # 1. read only what is stored
    for k in reads:
        for p in k.pats:
            if not any(unify(p, w) for w in stored):
                ctx.violation(f"unknown-key:{what}:{p}", f"{k.where} looks up {p!r}, which {fw.name} never stores (it stores {', '.join(sorted(stored))})")
    # 2. everything stored is used and removed
    for w, ks in sorted(stored.items()):
        kinds = {kind_of(k) for k in ks}
        fits = lambda k: kinds != {"coord"} or "coord" in holder(I, k)
        uses = [k for k in reads if any(unify(p, w) for p in k.pats) and not discarded(k) and fits(k)]
        if w not in MARKERS and not uses:
            ctx.violation(f"unused:{what}:{w}", f"{ks[0].where}: {fw.name} stores {w!r} for the inverse, but {inv.name} never uses it")
        ds = [k for k in drops if any(covers(p, w) for p in k.pats) and fits(k)]
        if not ds:
            # a mapping rebuilt without the key
            ctx.violation(f"left-behind:{what}:{w}", f"{ks[0].where}: {w!r} stored by {fw.name} is never removed by {inv.name}; its result still claims to be transformed")
            continue
        bad = None
        for k in ds:
            cs = [c for c in key_conds(I, k) if not removal_cond_ok(I, k, c, w, partial)]
            bad = (k, cs[0]) if cs else None
            if not cs:
                break
        if bad is not None:
            k, c = bad
            ctx.violation(f"maybe-left:{what}:{w}", f"{k.where}: {w!r} is only removed when `{text(c)}`; otherwise the result of {inv.name} still carries it")
        # constant keys of transforms that can be undone dimension by dimension stay until the last one
        if partial and "*" not in w:
            for k in ds:
                if not any(about_dims(I, f, t) for f, t, pol, kind, s in key_conds(I, k)):
                    ctx.violation(f"removed-early:{what}:{w}", f"{k.where} removes {w!r} although other dimensions may still be transformed; inverting those afterwards misses it")
    # 3. stored on every path
    for w, ks in sorted(stored.items()):
        free = False
        why = None
        for k in ks:
            cs = [c for c in key_conds(F, k) if not (key_test(c[1], {w}, F, c[0], k.env))]
            if not cs:
                free = True
            else:
                why = (k, cs[0])
        if free:
            continue
        k, c = why
        if "*" not in w:
            ctx.violation(f"maybe-missing:{what}:{w}", f"{k.where}: {w!r} is stored only when `{text(c)}`; {inv.name} of a result made otherwise misses it")
            continue
        for r in reads:
            if r.mode == "r" and any(unify(p, w) for p in r.pats) and not tolerant(I, r):
                ctx.violation(f"optional-key:{what}:{w}", f"{r.where} requires {w!r}, which {fw.name} stores only when `{text(c)}` ({k.where}); absence must be detected on the key itself")
    # 4. the state before the transform
    pre = []
    for k in writes:
        if k.value is None:
            continue
        ns = list(F.x.explore(k.f, k.value, k.env))
        if any(isinstance(n, ast.Constant) and n.value == "data_type" and not isinstance(n, ast.JoinedStr) or isinstance(n, ast.Attribute) and n.attr == "data_type" for _, n, _, _ in direct(F, k)):
            pre.append(k)
            early_overwrite(ctx, F, k, what)
        if partial and "*" not in next(iter(k.pats)) and any(isinstance(n, ast.Name) and n.id in fw.params[:1] for n in ast.walk(k.value)) or k in pre:
            if partial and k.default is None and not any(key_test(c[1], k.pats, F, c[0], k.env) for c in key_conds(F, k)) and not any(key_test(n, k.pats, F, k.f, k.env) for n in [k.value]):
                ctx.violation(f"overwritten:{what}:{show(k.pats)}", f"{k.where}: a second {fw.name} of another dimension overwrites {show(k.pats)!r}, which records the state before the first one")
        del ns
    ctx.count("recorded_data_types", len(pre))
    if not pre:
        ctx.violation(f"data-type-lost:{what}", f"{fw.where()}: {fw.name} does not record the data type it replaces, so {inv.name} cannot restore it")
    else:
        names = set().union(*[k.pats for k in pre])
        if not restores(I, names):
            ctx.violation(f"data-type-not-restored:{what}", f"{inv.where()}: {inv.name} never sets data_type back to the value stored under {show(names)!r}")
    # 5. coordinates kept for later are those of the input
    for k in writes:
        v = k.value
        if isinstance(v, ast.Tuple) and len(v.elts) == 2 and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_coord" for _, n, _, _ in F.x.explore(k.f, v.elts[1], k.env)) and not any(isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "get_window" for _, n, _, _ in F.x.explore(k.f, v.elts[1], k.env)):
            ctx.count("kept_coordinates")
            o = origin(F.x, k.f, v.elts[1], k.env) - {"?", "input"}
            if o:
                ctx.violation(f"changed-coordinate:{what}:{show(k.pats)}", f"{k.where}: the coordinate kept as {show(k.pats)!r} is taken after `{sorted(o)[0]}` changed the patch, not from the input")
    # 6. the same transformer is built again
    rebuilt(ctx, F, I, writes, what)
    # 7. results that cannot be inverted are refused
    for opt in NOT_INVERTIBLE.get(fw.name, ()):
        if opt not in fw.all_params:
            continue
        ks = [k for k in writes if k.value is not None and any(isinstance(n, ast.Name) and n.id == opt and f is fw for f, n, _, _ in F.x.explore(k.f, k.value, k.env))]
        ctx.count("non_invertible_options")
        if not ks:
            ctx.violation(f"option-not-recorded:{what}:{opt}", f"{fw.where()}: {fw.name} does not record {opt!r}, so {inv.name} cannot tell results that cannot be inverted")
            continue
        names = set().union(*[k.pats for k in ks])
        if not refuses(I, names):
            ctx.violation(f"not-refused:{what}:{opt}", f"{inv.where()}: no path of {inv.name} raises depending on {show(names)!r}: results made with {opt!r} would be inverted silently wrong")


def direct(book, k):
    """The value's own expression and the plain names it is copied from."""
    out, todo, seen = [], [k.value], set()
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        for n in ast.walk(e):
            out.append((k.f, n, k.env, ()))
            if isinstance(n, ast.Name) and n is e:
                todo += [s for _, s, how in defs_of(k.f).reaching(n.id, n) or [] if how == "=" and s is not None]
    return out


def holder(book, k):
    """Which mapping is accessed: {'attr'}, {'coord'} or both when unknown."""
    n = k.node
    e = None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "startswith" or isinstance(n, ast.Compare) and k.mode == "d":
        par = parents(k.f.node)
        p = par.get(id(n))
        while p is not None:
            if isinstance(p, (ast.comprehension, ast.For)):
                e = p.iter
                break
            p = par.get(id(p))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        if n.func.attr in ("get_coord", "get_array", "drop_coords", "disassociate_coord"):
            return {"coord"}
        e = n.func.value
    elif isinstance(n, ast.Call) and n.args:
        e = n.args[0]
    elif isinstance(n, ast.Subscript):
        e = n.value
    elif isinstance(n, ast.Attribute):
        e = n.value
    elif isinstance(n, ast.Compare):
        e = n.comparators[0]
    elif isinstance(n, ast.Delete):
        e = next((t.value for t in n.targets if isinstance(t, ast.Subscript)), None)
    if e is None:
        return {"attr", "coord"}
    # the mapping's own origin: receivers and copies only
    names, todo, seen = set(), [(k.f, e, k.env)], set()
    while todo:
        f, x, env = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, ast.Attribute):
            names.add(x.attr)
            if x.attr not in ("attrs", "coords", "coord_map"):
                todo.append((f, x.value, env))
        elif isinstance(x, ast.Call):
            fn = x.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
            names.add(nm)
            if isinstance(fn, ast.Attribute) and nm not in ("get_coord_tuple_map",):
                todo.append((f, fn.value, env))
            elif nm in ("dict", "list", "tuple", "set", "sorted", "iterate") and x.args:
                todo.append((f, x.args[0], env))
        elif isinstance(x, ast.DictComp):
            todo.append((f, x.generators[0].iter, env))
        elif isinstance(x, ast.Dict):
            todo += [(f, v, env) for key, v in zip(x.keys, x.values) if key is None]
        elif isinstance(x, ast.BinOp):
            todo += [(f, x.left, env), (f, x.right, env)]
        elif isinstance(x, ast.Name):
            names.add(x.id)
            for st, src, how in defs_of(f).reaching(x.id, x) or []:
                if how == "entry" and x.id in env:
                    g, v, ev = env[x.id]
                    todo.append((g, v, ev))
                elif how in ("=", "iter") and src is not None:
                    todo.append((f, src, env))
    out = set()
    if any("attrs" in x or x == "model_dump" for x in names):
        out.add("attr")
    if any("coord" in x or x in ("cm", "get_coord_tuple_map") for x in names):
        out.add("coord")
    return out or {"attr", "coord"}


def kind_of(k):
    v = k.value
    return "coord" if isinstance(v, ast.Tuple) and len(v.elts) == 2 and isinstance(v.elts[0], ast.Constant) and v.elts[0].value is None else None


def discarded(k):
    par = parents(k.f.node)
    return isinstance(par.get(id(k.node)), ast.Expr)


def covers(p, w):
    """Removal of pattern p removes keys of pattern w."""
    if p.endswith("*") and w.startswith(p[:-1]):
        return True
    return unify(p, w) and ("*" not in p or "*" in w)


def text(c):
    f, t, pol, kind, s = c
    return ("" if pol else "not ") + (ast.unparse(t) if t is not None else kind)


def about_dims(book, f, t):
    """The condition depends on which dimensions there are."""
    if t is None:
        return False
    from ..flow import backslice
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and n.attr in ("dims", "coord_map", "dim_map"):
            return True
        if isinstance(n, ast.Name) and "dim" in n.id:
            return True
        if isinstance(n, ast.Name):
            for _, src, how in defs_of(f).reaching(n.id, n) or []:
                around = [src] + ([c[0] for c in conds(f, _)] + enclosing_iters(f, _) if _ is not None else [])
                if any(isinstance(x, ast.Attribute) and x.attr in ("dims", "coord_map", "dim_map") or isinstance(x, ast.Name) and "dim" in x.id for y in around if y is not None for x in ast.walk(y)):
                    return True
    return False


def enclosing_iters(f, node):
    par = parents(f.node)
    out, p = [], par.get(id(node))
    while p is not None:
        if isinstance(p, (ast.For, ast.comprehension)):
            out.append(p.iter)
        p = par.get(id(p))
    return out


def removal_cond_ok(book, k, c, w, partial):
    f, t, pol, kind, s = c
    if kind in ("comp", "if", "leave") and t is not None and any(x is k.node for x in ast.walk(t)):
        return True
    if key_test(t, {w}, book, f, k.env):
        return True
    if partial and "*" not in w and about_dims(book, f, t):
        return True
    if kind in ("if", "leave", "comp", "bool") and t is not None and any(isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "startswith" for n in ast.walk(t)) and any(x is k.node for x in ast.walk(t)):
        return True
    return False


def early_overwrite(ctx, F, k, what):
    roots = {n.func.value.id for n in ast.walk(k.value) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
    roots |= {n.value.id for n in ast.walk(k.value) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)}
    for n in walk_own(k.f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in roots and isinstance(t.slice, ast.Constant) and t.slice.value == "data_type" and before(k.f, n, k.value):
                    ctx.violation(f"recorded-late:{what}:{show(k.pats)}", f"{k.where} records the data type after {k.f.where(n)} already replaced it")


def restores(I, names):
    def reads(f, e, env):
        for g, n, ev, _ in I.x.explore(f, e, env):
            arg = n.args[0] if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args else n.slice if isinstance(n, ast.Subscript) else ast.Constant(n.attr) if isinstance(n, ast.Attribute) else None
            if arg is not None and any(unify(a, b) for a in I.private(g, arg, ev) for b in names):
                return True
        return False
    for f, env, chain in I.visits:
        for n in walk_own(f.node):
            vals = []
            if isinstance(n, ast.Assign):
                vals += [n.value for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "data_type"]
            elif isinstance(n, ast.Call):
                vals += [k.value for k in n.keywords if k.arg == "data_type"]
            elif isinstance(n, ast.Dict):
                vals += [v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and k.value == "data_type"]
            if any(reads(f, v, env) for v in vals):
                return True
    return False


def refuses(I, names):
    """A raise whose condition depends on the keys, not itself skipped on other conditions."""
    for f, env, chain in I.visits:
        for n in walk_own(f.node):
            if not isinstance(n, ast.Raise):
                continue
            for t, pol, kind, s in conds(f, n):
                if t is None or kind == "leave":
                    continue
                for g, m, ev, _ in I.x.explore(f, t, env):
                    arg = m.args[0] if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ("get", "pop") and m.args else m.slice if isinstance(m, ast.Subscript) else ast.Constant(m.attr) if isinstance(m, ast.Attribute) else None
                    if arg is not None and any(unify(a, b) for a in I.private(g, arg, ev) for b in names):
                        up = [c for a, b in chain for c in conds(a, b) if not (c[2] == "leave" and returns_input(a, c[3]))]
                        if not up:
                            return True
    return False


def same(x, f, e, env, depth=12):
    """Identity of a value: the expression with every name replaced by the definitions it reads."""
    if isinstance(e, ast.Name) and depth > 0:
        ds = defs_of(f).reaching(e.id, e) or []
        if f.parent is not None and e.id not in f.all_params and not any(d[1] is not None for d in ds):
            return ("outer", e.id)
        if len(ds) == 1:
            st, src, how = ds[0]
            if how == "entry" and e.id in env:
                g, v, ev = env[e.id]
                return same(x, g, v, ev, depth - 1)
            if how == "=" and src is not None and isinstance(src, (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp)):
                return same(x, f, src, env, depth - 1)
        return ("name", e.id if any(d[2] == "entry" for d in ds) else "", f.qual, frozenset((id(d[0]) if d[0] is not None else 0, id(d[1]) if d[1] is not None else 0) for d in ds))
    if isinstance(e, ast.Constant):
        return ("const", repr(e.value))
    return (type(e).__name__, tuple((k, _same(x, f, v, env, depth)) for k, v in ast.iter_fields(e) if k != "ctx"))


def _same(x, f, v, env, depth):
    if isinstance(v, ast.AST):
        return same(x, f, v, env, depth)
    if isinstance(v, list):
        return tuple(_same(x, f, y, env, depth) for y in v)
    return repr(v)


def rebuilt(ctx, F, I, writes, what):
    def builds(book):
        out = {}
        for f, env, chain in book.visits:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    nm = (dotted(n.func) or [""])[-1]
                    if nm in POSITIONS:
                        args = {POSITIONS[nm][i]: a for i, a in enumerate(n.args[:len(POSITIONS[nm])])} | {k.arg: k.value for k in n.keywords if k.arg}
                        out.setdefault(nm, []).append((f, n, env, args))
        return out
    fb, ib = builds(F), builds(I)
    for nm in sorted(set(fb) | set(ib)):
        if nm not in fb or nm not in ib:
            f, n, *_ = (fb.get(nm) or ib.get(nm))[0]
            ctx.violation(f"transformer:{what}:{nm}", f"{f.where(n)}: only one of the pair builds a {nm}")
            continue
        for f, n, env, args in fb[nm]:
            for g, m, ev, args2 in ib[nm]:
                for a in sorted(set(args) | set(args2)):
                    ctx.count("rebuilt_parameters")
                    if a not in args2:
                        ctx.violation(f"rebuild:{what}:{a}", f"{g.where(m)} rebuilds the {nm} without {a!r}, which {f.where(n)} passes")
                        continue
                    if a not in args:
                        ctx.violation(f"rebuild:{what}:{a}", f"{g.where(m)} rebuilds the {nm} with {a!r}, which {f.where(n)} does not pass")
                        continue
                    keys = set()
                    for h, x, e2, _ in I.x.explore(g, args2[a], ev):
                        arg = x.args[0] if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in READERS and x.args else x.slice if isinstance(x, ast.Subscript) else ast.Constant(x.attr) if isinstance(x, ast.Attribute) else None
                        if arg is not None:
                            keys |= {p for p in I.private(h, arg, e2)}
                    if not keys:
                        if not isinstance(args2[a], ast.Constant) or same(I.x, g, args2[a], ev) != same(F.x, f, args[a], env):
                            ctx.violation(f"rebuild:{what}:{a}", f"{g.where(m)} rebuilds the {nm} with {a}={ast.unparse(args2[a])}, not from anything {F.entry.name} stored")
                        continue
                    want = {same(F.x, f, args[a], env)}
                    got = set()
                    for k in writes:
                        if k.value is not None and any(unify(p, q) for p in k.pats for q in keys):
                            v = k.value.elts[1] if isinstance(k.value, ast.Tuple) and len(k.value.elts) == 2 else k.value
                            got.add(same(F.x, k.f, v, k.env))
                    if got and got != want:
                        ctx.violation(f"rebuild:{what}:{a}", f"{g.where(m)} rebuilds the {nm} with {a} from {show(keys)!r}, but {F.entry.name} stored something else there than the {a} it used at {f.where(n)}")


def run(ctx):
    prog = ctx.prog
    ctx.rule("for every operation with an inverse (dft/idft, stft/istft): private keys looked up by the inverse and its helpers are stored by the forward operation")
    ctx.rule("every stored key is used by the inverse, removed from its result on every path (constant keys of transforms that can be undone dimension by dimension only once no transformed dimension is left)")
    ctx.rule("every constant key is stored on every path; per-dimension keys that are stored conditionally are looked up so that absence is detected on the key itself")
    ctx.rule("the data type before the transform is recorded before it is replaced, not overwritten by a second transform, and restored")
    ctx.rule("coordinates kept for later come from the unmodified input; the inverse rebuilds the transformer from exactly the values the forward one used; non-invertible results are refused")
    ps = pairs(prog)
    ctx.count("transform_pairs", len(ps))
    for fw, inv in ps:
        judge(ctx, prog, fw, inv)
    ctx.assumptions.append("names are compared as string patterns; that the numeric inversion itself is right is not judged here")
    ctx.require("transform_pairs", 2)
    ctx.require("bookkeeping_keys", 10)
    ctx.require("bookkeeping_reads", 6)
