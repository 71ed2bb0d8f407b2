"""C16: what is persisted under a name is read back under the same name."""
from __future__ import annotations

import ast
import itertools
import re

from ..calls import graph
from ..conds import conds
from ..contrib import Env, Explorer
from ..flow import backslice, defs_of
from ..model import dotted, walk_own
from .c11 import parents

DASDAE = "dascore.io.dasdae"
MANAGER = "dascore.utils.hdf5.HDFPatchIndexManager"
WRITE_ONLY = {"__dascore__version__"}  # provenance, for people
ATTR_API = {"get", "keys", "items", "values", "_f_list", "_v_attrnames", "_v_attrnamesuser", "update", "pop", "setdefault", "_v_node", "create", "modify"}
NODE_WRITERS = {"create_group": 1, "create_array": 1, "create_carray": 1, "create_earray": 1, "create_table": 1, "create_vlarray": 1,
                "create_dataset": 0, "require_group": 0, "require_dataset": 0}
STORE_WRITERS = {"put": 0, "append": 0}
NODE_READERS = {"get_node": 0, "iter_nodes": 0, "list_nodes": 0, "walk_nodes": 0, "get_storer": 0, "get": 0, "select": 0}
ANY = "*"


class Patterns:
    """String values of expressions with unknown parts as `*`."""

    def __init__(self, prog, cls=None):
        self.p = prog
        self.x = Explorer(prog, cls)
        self.cls = cls

    def of(self, f, e, env, depth=8):
        if e is None or depth <= 0:
            return {ANY}
        P = lambda x: self.of(f, x, env, depth - 1)
        if isinstance(e, ast.Constant):
            return {e.value} if isinstance(e.value, str) else {ANY}
        if isinstance(e, ast.JoinedStr):
            return self._cat([{v.value} if isinstance(v, ast.Constant) else P(v.value) if v.format_spec is None and v.conversion == -1 else {ANY} for v in e.values])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self._cat([P(e.left), P(e.right)])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return {re.sub(r"%[^a-z]*[a-z]", "*", e.left.value)}
        if isinstance(e, ast.IfExp):
            return P(e.body) | P(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[P(v) for v in e.values])
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == "join" and len(e.args) == 1:
                seps = P(e.func.value)
                a = e.args[0]
                if isinstance(a, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in a.elts):
                    out = set()
                    for sep in seps:
                        parts = []
                        for i, x in enumerate(a.elts):
                            parts += ([{sep}] if i else []) + [P(x)]
                        out |= self._cat(parts)
                    return out
                return {ANY}
            if isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
                return {re.sub(r"\{[^}]*\}", "*", e.func.value.value)}
            if getattr(e.func, "id", "") == "str" and len(e.args) == 1:
                return P(e.args[0])
            g = self.x.callees(f, e)
            if g is not None:
                out = set()
                e2 = self.x.bind(f, e, g, env)
                for r in self.x.results(g):
                    out |= self.of(g, r.value, e2, depth - 1)
                return out or {ANY}
            return {ANY}
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
                cq = self.cls or f.cls.qual
                c, v = self.p.class_attr_expr(cq, e.attr)
                m = self.p.functions.get(self.p.class_member(cq, e.attr) or "")
                if m is not None and any((dotted(d) or [""])[-1] in ("property", "cached_property") for d in m.node.decorator_list):
                    return set().union(*[self.of(m, r.value, Env(), depth - 1) for r in self.x.results(m)]) or {ANY}
                if v is not None:
                    return self.of(f, v, Env(), depth - 1) if isinstance(v, (ast.Constant, ast.JoinedStr, ast.BinOp)) else {ANY}
                return {ANY}
            return self._module(f, e, depth)
        if isinstance(e, ast.Name):
            ds = defs_of(f).reaching(e.id, e) or []
            out = set()
            for s, src, how in ds:
                if s is None:
                    continue
                out |= self.of(f, src, env, depth - 1) if src is not None and how == "=" else self._loop(f, src, how, env, depth)
            if e.id in f.all_params:
                if e.id in env:
                    g, x, ev = env[e.id]
                    out |= self.of(g, x, ev, depth - 1)
                elif all(d[0] is None for d in ds):
                    out.add(ANY)
            if not out and f.parent is not None:
                h = f.parent
                while h is not None and not out:
                    for s, src, how in self.x.defs(h).get(e.id, []):
                        out |= self.of(h, src, Env(), depth - 1) if how == "=" and src is not None else {ANY}
                    h = h.parent
            return out or self._module(f, e, depth)
        return {ANY}

    def _loop(self, f, src, how, env, depth):
        if isinstance(src, (ast.Tuple, ast.List)) and how in ("for", "iter", "item"):
            return set().union(*[self.of(f, x, env, depth - 1) for x in src.elts])
        # names selected by their prefix
        if isinstance(src, ast.Name):
            ds = defs_of(f).reaching(src.id, src) or []
            if len(ds) == 1 and ds[0][1] is not None and ds[0][2] == "=":
                src = ds[0][1]
        if isinstance(src, (ast.ListComp, ast.GeneratorExp)) and len(src.generators) == 1 and isinstance(src.elt, ast.Name):
            for t in src.generators[0].ifs:
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "startswith" and isinstance(t.func.value, ast.Name) and t.func.value.id == src.elt.id and t.args:
                    return {p + ("" if p.endswith("*") else "*") for p in self.of(f, t.args[0], env, depth - 1)}
        return {ANY}

    def _module(self, f, e, depth):
        q = self.p.resolve(f.module, f, e)
        if q and "." in q:
            mod, _, name = q.rpartition(".")
            m = self.p.modules.get(mod)
            v = (m.variables.get(name) or [None])[-1] if m is not None else None
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                return {v.value}
        return {ANY}

    @staticmethod
    def _cat(parts):
        out = {""}
        for p in parts:
            out = {a + b for a, b in itertools.islice(itertools.product(out, p), 64)}
        return {re.sub(r"\*+", "*", x) for x in out}


def unify(a, b):
    """May two patterns denote the same string?"""
    def rx(p):
        return "".join(".*" if c == "*" else re.escape(c) for c in p)
    if re.fullmatch(rx(a), b.replace("*", "")) or re.fullmatch(rx(b), a.replace("*", "")):
        return True
    if "*" in a and "*" in b:
        pa, pb = a.split("*")[0], b.split("*")[0]
        sa, sb = a.split("*")[-1], b.split("*")[-1]
        return (pa.startswith(pb) or pb.startswith(pa)) and (sa.endswith(sb) or sb.endswith(sa))
    return False


def norm(p):
    return p.strip("/") if p.strip("/") else p


class Event:
    def __init__(self, mode, kind, pats, f, node, value=None):
        self.mode, self.kind, self.pats, self.f, self.node, self.value = mode, kind, {norm(p) for p in pats}, f, node, value

    @property
    def where(self):
        return self.f.where(self.node)


class Store:
    """All named accesses of the functions reached from some entries."""

    def __init__(self, prog, within, cls=None):
        self.p, self.within, self.pt = prog, within, Patterns(prog, cls)
        self.events, self.done = [], set()

    def inside(self, g):
        return any(g.module.name == w or g.module.name.startswith(w + ".") or g.qual.startswith(w + ".") for w in self.within)

    def visit(self, f, env=None, depth=8):
        env = Env() if env is None else env
        sig = (f.qual, tuple(sorted((k, tuple(sorted(self.pt.of(v[0], v[1], v[2])))) for k, v in env.items() if not k.startswith("*"))))
        if sig in self.done or depth <= 0:
            return
        self.done.add(sig)
        body = [f.node.body] if isinstance(f.node, ast.Lambda) else f.node.body
        own = [x for s in body for x in [s] + list(walk_own(s))]
        for n in own:
            self.access(f, n, env)
            if isinstance(n, ast.Call):
                g = self.pt.x.callees(f, n)
                if g is not None and self.inside(g):
                    self.visit(g, self.pt.x.bind(f, n, g, env), depth - 1)
                elif g is None:
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        h = self.p.functions.get(self.p.resolve(f.module, f, a) or "") if isinstance(a, (ast.Name, ast.Attribute)) else None
                        if h is not None and self.inside(h):
                            self.visit(h, Env(), depth - 1)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and f.cls is not None:
                m = self.p.functions.get(self.p.class_member(self.pt.cls or f.cls.qual, n.attr) or "")
                if m is not None and self.inside(m) and any((dotted(d) or [""])[-1] in ("property", "cached_property") for d in m.node.decorator_list):
                    self.visit(m, Env(), depth - 1)
        for c in f.children.values():
            self.visit(c, env, depth - 1)

    def attrs_like(self, f, e, depth=4):
        """Is the expression the attribute set of a node?"""
        if isinstance(e, ast.Attribute):
            return e.attr in ("_v_attrs", "attrs")
        if isinstance(e, ast.Name) and depth:
            ds = defs_of(f).reaching(e.id, e) or []
            return any(src is not None and how == "=" and self.attrs_like(f, src, depth - 1) for _, src, how in ds)
        return False

    def add(self, mode, kind, f, node, key, env, value=None):
        self.events.append(Event(mode, kind, self.pt.of(f, key, env), f, node, value))

    def access(self, f, n, env):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and self.attrs_like(f, t.value):
                    self.add("w", "attr", f, n, t.slice, env, n.value)
                elif isinstance(t, ast.Attribute) and self.attrs_like(f, t.value):
                    self.add("w", "attr", f, n, ast.Constant(t.attr), env, n.value)
        elif isinstance(n, ast.Call):
            fn = n.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
            if nm == "setattr" and len(n.args) == 3 and self.attrs_like(f, n.args[0]):
                self.add("w", "attr", f, n, n.args[1], env, n.args[2])
            elif nm == "getattr" and len(n.args) >= 2 and not isinstance(fn, ast.Attribute):
                if self.attrs_like(f, n.args[0]):
                    self.add("r", "attr", f, n, n.args[1], env)
            elif isinstance(fn, ast.Attribute) and nm in NODE_WRITERS:
                k = _arg(n, NODE_WRITERS[nm], "name")
                if k is not None:
                    self.add("w", "node", f, n, k, env)
            elif isinstance(fn, ast.Attribute) and nm in STORE_WRITERS and self._store(f, fn.value):
                k = _arg(n, 0, "key")
                if k is not None:
                    self.add("w", "node", f, n, k, env, _arg(n, 1, "value"))
            elif isinstance(fn, ast.Attribute) and nm == "get" and self.attrs_like(f, fn.value):
                self.add("r", "attr", f, n, _arg(n, 0, "key"), env)
            elif isinstance(fn, ast.Attribute) and nm in NODE_READERS and n.args and (nm not in ("get", "select") or self._store(f, fn.value)):
                self.add("r", "node", f, n, _arg(n, 0, "key"), env)
            elif nm == "read_hdf":
                k = _arg(n, 1, "key")
                if k is not None:
                    self.add("r", "node", f, n, k, env)
            elif isinstance(fn, ast.Attribute) and nm == "startswith" and n.args:
                pats = self.pt.of(f, n.args[0], env)
                self.events.append(Event("r", "prefix", {p + "*" for p in pats if p != ANY}, f, n))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if self.attrs_like(f, n.value):
                self.add("r", "attr", f, n, n.slice, env)
            elif isinstance(n.slice, (ast.Constant, ast.JoinedStr, ast.Name)) and not isinstance(getattr(n.slice, "value", ""), int):
                if self._node_like(f, n.value):
                    self.add("r", "node", f, n, n.slice, env)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and self.attrs_like(f, n.value) and n.attr not in ATTR_API:
            self.events.append(Event("r", "attr", {n.attr}, f, n))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and self._store(f, n.comparators[0]):
            self.add("r", "node", f, n, n.left, env)

    def _store(self, f, e):
        """A pandas store opened here (with ... as store / parameter named store)."""
        if isinstance(e, ast.Name):
            if "store" in e.id:
                return True
            for _, src, how in defs_of(f).reaching(e.id, e) or []:
                if src is not None and any("HDFStore" in x for c in ast.walk(src) for x in dotted(c) or []):
                    return True
        return False

    def _node_like(self, f, e):
        d = dotted(e)
        if not d:
            return False
        if any(x in ("root", "_f_get_child") or x.endswith("group") or x.endswith("node") for x in d):
            return True
        return False


def _arg(c, i, name):
    for k in c.keywords:
        if k.arg == name:
            return k.value
    return c.args[i] if len(c.args) > i and not any(isinstance(a, ast.Starred) for a in c.args[:i + 1]) else None


def agreement(ctx, what, writes, reads, write_only=()):
    wp = {}
    for e in writes:
        for p in e.pats:
            wp.setdefault(p, e)
            ctx.count("written_names")
    known = {p: e for p, e in wp.items() if p.strip("*")}
    for e in reads:
        for p in e.pats:
            if not p.strip("*/") or p.strip("/") == "":
                continue
            ctx.count("read_names")
            if e.kind == "prefix":
                if not any(w.startswith(p[:-1]) or unify(w, p) and w.split("*")[0].startswith(p[:-1]) for w in known) and p.startswith("_"):
                    ctx.violation(f"read:{what}:{p}", f"{e.where} reads names starting with {p[:-1]!r}, which {what} never writes (written: {', '.join(sorted(known))})")
            elif not any(unify(p, w) for w in known):
                ctx.violation(f"read:{what}:{p}", f"{e.where} reads {p!r}, which {what} never writes (written: {', '.join(sorted(known))})")
    for w, e in known.items():
        if w in write_only:
            continue
        ok = False
        for r in reads:
            for p in r.pats:
                if not p.strip("*"):
                    continue
                if r.kind == "prefix" and w.startswith(p[:-1]) or r.kind != "prefix" and unify(p, w):
                    ok = True
        if not ok:
            ctx.violation(f"unread:{what}:{w}", f"{e.where} stores {w!r}, which nothing reads back under that name")
    return known


def sometimes(ctx, what, writes, reads):
    """A fixed attribute which is read whatever the data must be stored whatever the data."""
    def fixed(e):
        return {p for p in e.pats if e.kind == "attr" and p.strip("*") and "*" not in p}

    def choices(e):
        return [t for t, _, kind, _ in conds(e.f, e.node) if kind in ("if", "ifexp", "leave", "match") and t is not None]

    for k in sorted(set().union(*[fixed(r) for r in reads] or [set()])):
        ws = [e for e in writes if any(unify(k, p) for p in e.pats if p.strip("*"))]
        rs = [r for r in reads if k in fixed(r)]
        if not ws:
            continue
        ctx.count("fixed_attributes")
        firm = [r for r in rs if isinstance(r.node, ast.Subscript) and not conds(r.f, r.node) and not _protected(r.f, r.node)]
        if firm and all(choices(e) for e in ws) and all(k in e.pats for e in ws) and len(ws) == 1:
            t = choices(ws[0])[0]
            ctx.violation(f"sometimes:{what}:{k}", f"{ws[0].where} stores {k!r} only depending on `{ast.unparse(t)[:60]}`, but {firm[0].where} reads it in any case")


def _protected(f, node):
    par = parents(f)
    n = node
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, ast.Try) and any(n is s for s in up.body) and up.handlers:
            return True
        if isinstance(up, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in up.items):
            return True
        n = up
    return False


# ---- DASDAE
def dasdae(ctx, prog):
    cls = prog.classes.get(DASDAE + ".core.DASDAEV1")
    if cls is None:
        ctx.violation("dasdae:class", "the native file format DASDAEV1 no longer exists")
        return
    ws, rs = Store(prog, [DASDAE], cls.qual), Store(prog, [DASDAE], cls.qual)
    for name, st in (("write", ws), ("read", rs), ("scan", rs), ("get_format", rs)):
        f = prog.functions.get(prog.class_member(cls.qual, name) or "")
        if f is not None:
            st.visit(f)
    writes = [e for e in ws.events if e.mode == "w"]
    reads = [e for e in rs.events if e.mode == "r"]
    known = agreement(ctx, "the dasdae writer", writes, reads, WRITE_ONLY)
    sometimes(ctx, "the dasdae writer", writes, reads)
    prefixes = {w[:-1] for w in known if w.endswith("*") and w.count("*") == 1}
    # every prefix that is stripped is one that was written
    seen = set()
    fs = {e.f.qual: e.f for e in rs.events}
    for f in fs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("removeprefix", "replace", "split", "partition") and n.args:
                for p in rs.pt.of(f, n.args[0], Env()):
                    if p.startswith("_") and (n.func.attr != "replace" or _empty(n.args[1:])):
                        ctx.count("stripped_prefixes")
                        if p not in prefixes and id(n) not in seen:
                            seen.add(id(n))
                            ctx.violation(f"strip:dasdae:{p}", f"{f.where(n)} strips {p!r} from stored names, but names are written as {', '.join(sorted(x + '*' for x in prefixes))}")
    values(ctx, prog, writes, reads)


def _empty(args):
    return bool(args) and isinstance(args[0], ast.Constant) and args[0].value == ""


def words(f, e):
    """dtype words a value is made of"""
    _, attrs, calls, used = backslice(f, [e], want_exprs=True)
    out = set()
    for a in attrs:
        out |= {w for w in ("datetime64", "timedelta64") if a.split(".")[-1] == w}
    for u in used:
        for n in ast.walk(u):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                out |= {w for w in ("datetime64", "timedelta64") if n.value.startswith(w)}
            elif isinstance(n, ast.Call):
                nm = (dotted(n.func) or [""])[-1]
                out |= {w for w in ("datetime64", "timedelta64") if nm in ("is_" + w, "to_" + w)}
    return out


def flag_words(f, e):
    """dtype words of a written flag, looking only at the definition of the flag itself."""
    if isinstance(e, ast.Name):
        out = set()
        for _, src, how in defs_of(f).reaching(e.id, e) or []:
            if src is not None and how == "=":
                out |= flag_words(f, src)
        return out
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n is not e and isinstance(n.ctx, ast.Load):
            for _, src, how in defs_of(f).reaching(n.id, n) or []:
                if src is not None and how == "=" and isinstance(src, (ast.Call, ast.Compare, ast.BoolOp)) and n.id not in ("data",):
                    out |= flag_words(f, src)
        if isinstance(n, ast.Attribute) and n.attr in ("datetime64", "timedelta64"):
            out.add(n.attr)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out |= {w for w in ("datetime64", "timedelta64") if n.value.startswith(w)} | ({"datetime64"} if n.value == "M" else set()) | ({"timedelta64"} if n.value == "m" else set())
        if isinstance(n, ast.Call):
            nm = (dotted(n.func) or [""])[-1]
            out |= {w for w in ("datetime64", "timedelta64") if nm == "is_" + w}
    return out


def truth(f, e, word, depth=6):
    """What a test is worth when the data's type is `word` (None: cannot be told)."""
    if depth < 0:
        return None
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = truth(f, e.operand, word, depth)
        return None if v is None else not v
    if isinstance(e, (ast.BoolOp, ast.BinOp)) and (isinstance(e, ast.BoolOp) or isinstance(e.op, (ast.BitAnd, ast.BitOr))):
        vs = [truth(f, x, word, depth) for x in (e.values if isinstance(e, ast.BoolOp) else (e.left, e.right))]
        both = isinstance(e.op, (ast.And, ast.BitAnd))
        if (not both) in vs:
            return not both
        return None if None in vs else both
    if isinstance(e, ast.IfExp):
        t = truth(f, e.test, word, depth)
        a, b = truth(f, e.body, word, depth), truth(f, e.orelse, word, depth)
        return a if t is True or a == b else b if t is False else None
    if isinstance(e, ast.Name):
        vs = {truth(f, src, word, depth - 1) if src is not None and how == "=" else None for _, src, how in defs_of(f).reaching(e.id, e) or [(0, None, "")]}
        return vs.pop() if len(vs) == 1 else None
    if isinstance(e, ast.Call) and (dotted(e.func) or [""])[-1] in ("bool", "bool_", "int") and len(e.args) == 1:
        return truth(f, e.args[0], word, depth)
    if isinstance(e, (ast.Call, ast.Compare)):
        w = flag_words(f, e)
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1:
                return None
            for c in ast.walk(e.comparators[0]):
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value and set(c.value) <= set("mM"):
                    w |= {"datetime64"} if "M" in c.value else set()
                    w |= {"timedelta64"} if "m" in c.value else set()
        if not w:
            return None
        return (word in w) != (isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)))
    return None


def narrowed(ctx, f, e, word, key, where):
    """The flag is set for every array of its type, whatever else holds, and on every path."""
    node, hops = e, 0
    while isinstance(node, ast.Name) and hops < 4:
        srcs = [s for _, s, how in defs_of(f).reaching(node.id, node) or [] if s is not None and how == "="]
        if len(srcs) != 1:
            return
        node, hops = srcs[0], hops + 1
    ctx.count("flag_tests")
    got = truth(f, node, word)
    composed = isinstance(node, (ast.BoolOp, ast.IfExp, ast.BinOp))
    if got is False or got is None and composed:
        ctx.violation(f"flag:{key}", f"{where} marks only some data of type {word} under {key!r} (`{ast.unparse(node)[:80]}`): the rest is read back as plain integers")


def values(ctx, prog, writes, reads):
    """Encodings of single values: joined lists and dtype flags."""
    joined, flags = {}, {}
    for e in writes:
        if e.value is None or e.kind != "attr":
            continue
        seps = {n.func.value.value for n in _resolve_nodes(e.f, e.value) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant)}
        for p in e.pats:
            if seps:
                joined[p] = (seps, e)
            w = flag_words(e.f, e.value)
            if len(w) == 1 and p.strip("*"):
                flags[p] = (w, e)
                narrowed(ctx, e.f, e.value, next(iter(w)), p, e.where)
            elif len(w) == 2 and p.strip("*") and isinstance(e.value, (ast.Name, ast.BoolOp)):
                for x in w:
                    if x in p:
                        flags[p] = ({x}, e)
                        narrowed(ctx, e.f, e.value, x, p, e.where)
    for r in reads:
        if r.kind != "attr":
            continue
        for p in r.pats:
            for k, (seps, e) in joined.items():
                if unify(p, k) and p.strip("*"):
                    for c in _uses(r.f, r.node):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("split", "rsplit", "partition") and c.args and isinstance(c.args[0], ast.Constant):
                            ctx.count("separators")
                            if c.args[0].value not in seps:
                                ctx.violation(f"separator:{k}", f"{r.f.where(c)} splits {k!r} at {c.args[0].value!r} but {e.where} joins it with {sorted(seps)[0]!r}")
            for k, (w, e) in flags.items():
                if unify(p, k) and p.strip("*") and k.strip("*"):
                    got, node = _guarded_words(r.f, r.node)
                    if got:
                        ctx.count("dtype_flags")
                        extra = extra_test(r.f, node, r.node, k)
                        if extra is not None:
                            ctx.violation(f"restore:{k}", f"{r.f.where(node)} restores data flagged {k!r} only if also `{ast.unparse(extra)[:60]}`: otherwise it stays integers")
                        if got != w:
                            ctx.violation(f"flag:{k}", f"{r.f.where(node)} turns data flagged {k!r} into {'/'.join(sorted(got))}, but {e.where} sets that flag for {'/'.join(sorted(w))}")
                        else:
                            bad = _bad_unit(r.f, node)
                            if bad:
                                ctx.violation(f"unit:{k}", f"{r.f.where(node)} reads integers stored in nanoseconds as {bad!r}")
    for k, (w, e) in flags.items():
        if not any(unify(p, k) and p.strip("*") and _guarded_words(r.f, r.node)[0] for r in reads if r.kind == "attr" for p in r.pats):
            ctx.violation(f"flag:{k}", f"{e.where} marks data as {'/'.join(sorted(w))} under {k!r}, but no reader restores the type under that flag")


def _resolve_nodes(f, e):
    yield from ast.walk(e)
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for _, src, how in defs_of(f).reaching(n.id, n) or []:
                if src is not None and how == "=":
                    yield from ast.walk(src)


def _uses(f, node):
    """Method calls on a value read (directly, or through the variable it is bound to)."""
    par = parents(f)
    n = node
    while id(n) in par and isinstance(par[id(n)], (ast.Attribute, ast.Call, ast.IfExp, ast.BoolOp)):
        n = par[id(n)]
        yield n
    while id(n) in par and not isinstance(n, ast.stmt):
        n = par[id(n)]
    if isinstance(n, ast.Assign):
        names = {t.id for t in n.targets if isinstance(t, ast.Name)}
        for c in walk_own(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in names:
                yield c


def _guarded_words(f, node):
    """dtype words restored under a condition that is the value read."""
    par = parents(f)
    holders = [node]
    n = node
    while id(n) in par and not isinstance(n, ast.stmt):
        n = par[id(n)]
    if isinstance(n, ast.Assign):
        names = {t.id for t in n.targets if isinstance(t, ast.Name)}
        holders += [x for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
    for h in holders:
        x = h
        while id(x) in par:
            up = par[id(x)]
            if isinstance(up, (ast.If, ast.IfExp)) and x is up.test:
                body = up.body if isinstance(up, ast.If) else [up.body]
                neg = isinstance(up.test, ast.UnaryOp) and isinstance(up.test.op, ast.Not)
                if neg:
                    body = up.orelse if isinstance(up, ast.If) else [up.orelse]
                got = set()
                for b in body:
                    for c in ast.walk(b):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            got |= {w for w in ("datetime64", "timedelta64") if c.value.startswith(w)}
                        elif isinstance(c, ast.Attribute) and c.attr in ("datetime64", "timedelta64"):
                            got.add(c.attr)
                        elif isinstance(c, ast.Call):
                            nm = (dotted(c.func) or [""])[-1]
                            got |= {w for w in ("datetime64", "timedelta64") if nm == "to_" + w}
                return got, up
            if isinstance(up, ast.stmt):
                break
            x = up
    return set(), node


def extra_test(f, node, read, key):
    """A further condition beside the flag under which its type is restored."""
    t = getattr(node, "test", None)
    if not (isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And)):
        return None
    par = parents(f)
    n = read
    while id(n) in par and not isinstance(n, ast.stmt):
        n = par[id(n)]
    names = {x.id for x in n.targets if isinstance(x, ast.Name)} if isinstance(n, ast.Assign) else set()
    for v in t.values:
        inner = list(ast.walk(v))
        if any(x is read or isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value == key for x in inner):
            continue
        if flag_words(f, v):
            continue
        return v
    return None


def _bad_unit(f, node):
    for c in ast.walk(node):
        if isinstance(c, ast.Constant) and isinstance(c.value, str):
            m = re.fullmatch(r"(?:date|time)(?:time|delta)64\[(\w+)\]", c.value)
            if m and m.group(1) != "ns":
                return c.value
    return None


# ---- the directory index
def mapping(prog, cls, name):
    c, v = prog.class_attr_expr(cls, name)
    if v is None:
        return None, None
    d = next((n for n in ast.walk(v) if isinstance(n, ast.Dict)), None)
    if d is not None:
        return c, {k.value: x for k, x in zip(d.keys, d.values) if isinstance(k, ast.Constant)}
    call = next((n for n in ast.walk(v) if isinstance(n, ast.Call) and n.keywords), None)
    return (c, {k.arg: k.value for k in call.keywords if k.arg}) if call is not None else (None, None)


def kind_of(prog, c, e, depth=3):
    """'datetime'/'timedelta' handled by a column function."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute)):
            nm = (dotted(n) or [""])[-1]
            q = prog.resolve(c.module, None, n)
            if "timedelta" in nm:
                out.add("timedelta")
            elif "datetime" in nm:
                out.add("datetime")
            elif q in prog.functions and depth and isinstance(n, ast.Name):
                g = prog.functions[q]
                if nm not in ("to_int",):
                    body = g.node.body if isinstance(g.node.body, list) else [g.node.body]
                    for s in body:
                        if isinstance(s, ast.Return) and s.value is not None:
                            out |= kind_of(prog, g, s.value, depth - 1) if len(body) <= 4 else set()
    return out


def manager(ctx, prog):
    if MANAGER not in prog.classes:
        ctx.violation("index:class", "the index manager HDFPatchIndexManager no longer exists")
        return
    c = prog.classes[MANAGER]
    st = Store(prog, [MANAGER], MANAGER)
    for m in list(c.methods.values()):
        st.visit(m)
    ev = [e for e in st.events if e.kind == "node"]
    agreement(ctx, "the index manager", [e for e in ev if e.mode == "w"], [e for e in ev if e.mode == "r"])
    ec, enc = mapping(prog, MANAGER, "_column_encoders")
    dc_, dec = mapping(prog, MANAGER, "_column_decorders")
    if enc is None or dec is None:
        names = [n for n in c.attrs if "encod" in n or "decod" in n or "decord" in n]
        if len(names) == 2:
            (a, b) = sorted(names, key=lambda n: "dec" in n)
            ec, enc = mapping(prog, MANAGER, a)
            dc_, dec = mapping(prog, MANAGER, b)
    if enc is not None and dec is not None:
        for col, e in enc.items():
            ctx.count("encoded_columns")
            k = kind_of(prog, ec, e)
            integer = any((dotted(n) or [""])[-1] in ("to_int", "int64", "view", "astype") for n in ast.walk(e))
            if k and integer:
                d = dec.get(col)
                got = kind_of(prog, dc_, d) if d is not None else set()
                if d is None:
                    ctx.violation(f"codec:{col}", f"{c.module.relpath}:{e.lineno}: the index column {col!r} is stored as integer {'/'.join(k)} but never decoded on reading")
                elif got and not got <= k:
                    ctx.violation(f"codec:{col}", f"{c.module.relpath}:{d.lineno}: the index column {col!r} is stored as {'/'.join(k)} but read as {'/'.join(got)}")
        for col, d in dec.items():
            ctx.count("decoded_columns")
            if col not in enc or kind_of(prog, dc_, d) and not kind_of(prog, ec, enc[col]):
                ctx.violation(f"codec:{col}", f"{c.module.relpath}:{d.lineno}: the index column {col!r} is decoded on reading but not encoded on writing")
    flow(ctx, prog, c, st)
    queries(ctx, prog, c, enc or {})
    metadata(ctx, prog, c)
    rebase(ctx, prog)


def flow(ctx, prog, c, st):
    """Rows are stored only encoded, and handed out only decoded."""
    x = st.pt.x
    ips = {p for m in [prog.functions.get(prog.class_member(c.qual, "_index_node") or "")] if m for r in x.results(m) for p in st.pt.of(m, r.value, Env())}
    ips = {norm(p) for p in ips}
    for e in st.events:
        if e.kind != "node" or not (e.pats & ips):
            continue
        if e.mode == "w" and e.value is not None:
            ctx.count("index_row_writes")
            names = {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "") for _, n, _, _ in x.explore(e.f, e.value, Env()) if isinstance(n, ast.Call)}
            refs = {n.attr for _, n, _, _ in x.explore(e.f, e.value, Env()) if isinstance(n, ast.Attribute)}
            if not ({"encode_table"} & names or "_column_encoders" in refs):
                ctx.violation("flow:encode", f"{e.where} stores index rows which were not encoded")
            elif "_column_encoders" not in refs:
                ctx.violation("flow:encode", f"{e.where} stores index rows whose columns are not encoded by the table of encoders")
        if e.mode == "r" and isinstance(e.node, ast.Call) and (dotted(e.node.func) or [""])[-1] in ("read_hdf", "select", "get"):
            # who returns it?
            ctx.count("index_row_reads")
            top = e.f
            while top.parent is not None:
                top = top.parent
            for r in x.results(top):
                nodes = [n for _, n, _, _ in x.explore(top, r.value, Env())]
                if any(n is e.node for n in nodes):
                    refs = {n.attr for n in nodes if isinstance(n, ast.Attribute)}
                    if "_column_decorders" not in refs and not any("decod" in a for a in refs):
                        ctx.violation("flow:decode", f"{top.where(r)} returns index rows which were not decoded")
    for m in c.methods.values():
        refs = {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
        if "_column_encoders" in refs or "_column_decorders" in refs:
            # the loop over the table must assign every column it visits
            for n in walk_own(m.node):
                if isinstance(n, ast.For) and any(isinstance(a, ast.Attribute) and a.attr in ("_column_encoders", "_column_decorders") for a in ast.walk(n.iter)):
                    ctx.count("codec_loops")
                    if not any(_stores_call(m, s) for b in n.body for s in [b] + list(walk_own(b))):
                        ctx.violation("flow:apply", f"{m.where(n)}: the loop over the column functions does not store their results")
                    if any(isinstance(s, (ast.Break, ast.Return)) for b in n.body for s in [b] + list(walk_own(b))):
                        ctx.violation("flow:apply", f"{m.where(n)}: the loop over the column functions stops early")


def _stores_call(m, s):
    """A statement keeping the result of a call in a container or table."""
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
        return bool(backslice(m, [s.value])[2])
    return isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("assign", "transform", "insert", "apply", "update", "append")


def queries(ctx, prog, c, enc):
    """Columns named in stored queries are queryable columns."""
    _, q = prog.class_attr_expr(c.qual, "_query_columns")
    cols = {n.value for n in ast.walk(q) if isinstance(n, ast.Constant)} if q is not None else set()
    if not cols:
        return
    for f in prog.functions.values():
        if f.module is not c.module:
            continue
        for r in Explorer.results(f):
            text = ""
            _, _, _, used = backslice(f, [r.value], want_exprs=True)
            for u in used:
                for n in ast.walk(u):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r"\w+\s*[<>]=?\s*$", n.value):
                        text += " " + n.value
            if text and "_min" in text:
                names = set(re.findall(r"([A-Za-z_]\w*)\s*[<>]", text))
                ctx.count("query_columns", len(names))
                for x in names - cols:
                    ctx.violation(f"query:{x}", f"{f.where(r)} queries the stored column {x!r}, which is not among the queryable columns {sorted(cols)}")


def metadata(ctx, prog, c):
    """Keys read from the metadata table are keys it is made with."""
    made, reads = set(), []
    for m in c.methods.values():
        for n in walk_own(m.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] == "dict" and "meta" in m.name:
                made |= {k.arg for k in n.keywords if k.arg}
            elif isinstance(n, ast.Dict) and "meta" in m.name:
                made |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                srcs = [n.value] + [s for x in [n.value] if isinstance(x, ast.Name) for _, s, h in defs_of(m).reaching(x.id, x) or [] if s is not None]
                if any(isinstance(y, ast.Call) and (dotted(y.func) or [""])[-1] == "_read_metadata" for s in srcs for y in ast.walk(s)):
                    reads.append((m, n))
    for m, n in reads:
        ctx.count("metadata_reads")
        if made and n.slice.value not in made:
            ctx.violation(f"meta:{n.slice.value}", f"{m.where(n)} reads {n.slice.value!r} from the index metadata, which holds {sorted(made)}")


def rebase(ctx, prog):
    """Paths are stored relative to the indexed directory and completed with it on reading."""
    ds = prog.classes.get("dascore.clients.dirspool.DirectorySpool")
    enc = prog.functions.get(prog.class_member(MANAGER, "encode_table") or "")
    if ds is None or enc is None:
        return
    x = Explorer(prog, MANAGER)
    strips = any(isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] in ("_remove_base_path", "relative_to", "removeprefix") for r in x.results(enc) for _, n, _, _ in x.explore(enc, r.value, Env()))
    joins = []
    for m in ds.methods.values():
        for n in walk_own(m.node):
            tgt = None
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == "path":
                tgt = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "assign":
                tgt = next((k.value for k in n.keywords if k.arg == "path"), None)
            if tgt is not None:
                _, attrs, _ = backslice(m, [tgt])
                joins.append((m, n, any(a.split(".")[-1] in ("spool_path", "path") for a in attrs)))
    ctx.count("path_rebases", len(joins))
    good = [j for j in joins if j[2]]
    if strips and not good:
        where = joins[0][0].where(joins[0][1]) if joins else ds.module.relpath
        ctx.violation("path:join", f"{where}: index paths are stored relative to the directory but not completed with it when the files are loaded")
    if good and not strips:
        ctx.violation("path:strip", f"{enc.where()}: the directory is put in front of index paths on reading, but not removed when they are stored")


# ---- stripping of affixes anywhere
def affixes(ctx, prog):
    for f in prog.functions.values():
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            a = n.func.attr
            if a == "replace" and len(n.args) >= 2 and _empty(n.args[1:]) and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                ctx.count("deletions")
                v = n.args[0].value
                if len(v) > 2 and (v.startswith("_") or v.endswith("_")):
                    ctx.violation(f"affix:{f.module.name}:{v}", f"{f.where(n)}: `{ast.unparse(n)[:80]}` removes {v!r} anywhere in a name, not only where it was attached")
            elif a == "replace" and len(n.args) >= 2 and _empty(n.args[1:]) and f.module.name.startswith("dascore.utils.pd") and not isinstance(n.args[0], ast.Constant):
                ctx.violation(f"affix:{f.module.name}:{f.name}", f"{f.where(n)}: `{ast.unparse(n)[:80]}` removes a prefix wherever it occurs in a stored path")
            elif a in ("lstrip", "rstrip", "strip") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                v = n.args[0].value
                if len(v) > 2 and "_" in v and re.search("[a-z]{2}", v):
                    ctx.violation(f"affix:{f.module.name}:{v}", f"{f.where(n)}: `{ast.unparse(n)[:80]}` strips any of the characters {v!r}, not the affix")


# ---- seg-y headers
COMPONENTS = {"YearDataRecorded": ("Y", {"year"}), "DayOfYear": ("j", {"day_of_year", "dayofyear", "tm_yday"}), "HourOfDay": ("H", {"hour"}),
              "MinuteOfHour": ("M", {"minute"}), "SecondOfMinute": ("S", {"second"})}


def field(n):
    return n.attr if isinstance(n, ast.Attribute) and (n.attr in COMPONENTS or n.attr.isupper() and "_" in n.attr) else None


def segy(ctx, prog):
    mod = [m for m in prog.modules.values() if m.name.startswith("dascore.io.segy")]
    written, read = {}, {}
    for f in prog.functions.values():
        if f.module not in mod:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and field(t.slice):
                        written[field(t.slice)] = (f, n, n.value)
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if k is not None and field(k):
                        written.setdefault(field(k), (f, n, v))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and field(n.slice):
                d = dotted(n.value) or [""]
                if not d[-1].endswith("dict"):
                    read.setdefault(field(n.slice), (f, n))
    for k, (f, n) in read.items():
        ctx.count("segy_fields_read")
        if k not in written:
            ctx.violation(f"segy:{k}", f"{f.where(n)} reads the trace header field {k}, which the writer never fills")
    for k, (d, attrs) in COMPONENTS.items():
        if k in written:
            f, n, v = written[k]
            _, a, _ = backslice(f, [v])
            got = {x.split(".")[-1] for x in a} & set().union(*[s for _, s in COMPONENTS.values()])
            if got and not got <= attrs:
                ctx.violation(f"segy:{k}", f"{f.where(n)} stores {'/'.join(sorted(got))} in the trace header field {k}")
    # order of the fields in the text that is parsed
    for f in prog.functions.values():
        if f.module not in mod:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.JoinedStr):
                order = []
                for v in n.values:
                    if isinstance(v, ast.FormattedValue):
                        srcs = [v.value] + [s for x in [v.value] if isinstance(x, ast.Name) for _, s, h in defs_of(f).reaching(x.id, x) or [] if s is not None]
                        fs = {field(y) for s in srcs for y in ast.walk(s)} & set(COMPONENTS)
                        order.append(COMPONENTS[fs.pop()][0] if len(fs) == 1 else None)
                fmts = {c.value for c in walk_own(f.node) if isinstance(c, ast.Constant) and isinstance(c.value, str) and "%Y" in c.value}
                if order and None not in order and len(fmts) == 1:
                    ctx.count("segy_time_formats")
                    dirs = re.findall(r"%([A-Za-z])", next(iter(fmts)))
                    if dirs != order:
                        ctx.violation("segy:format", f"{f.where(n)} parses the header time with {next(iter(fmts))!r} but assembles it in the order {' '.join('%' + x for x in order)}")
    # the factor of the sampling interval
    k = "TRACE_SAMPLE_INTERVAL"
    if k in written and k in read:
        def factor(f, e, node):
            out = set()
            for u in backslice(f, [e], want_exprs=True)[3]:
                for x in ast.walk(u):
                    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.Div)):
                        for o, sign in ((x.left, 1), (x.right, -1 if isinstance(x.op, ast.Div) else 1)):
                            if isinstance(o, ast.Constant) and isinstance(o.value, (int, float)) and o.value:
                                out.add(o.value if sign > 0 else 1 / o.value)
            return out
        f, n, v = written[k]
        w = factor(f, v, n)
        g, m = read[k]
        par = parents(g)
        e = m
        while id(e) in par and not isinstance(e, ast.stmt):
            e = par[id(e)]
        r = factor(g, getattr(e, "value", m), m) if isinstance(e, ast.Assign) else set()
        if len(w) == 1 and len(r) == 1:
            ctx.count("segy_scales")
            if abs(w.pop() * r.pop() - 1) > 1e-9:
                ctx.violation("segy:scale", f"{g.where(m)}: the sampling interval is not read with the inverse of the factor {f.where(n)} writes it with")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every group, array and attribute name written by DASDAE's write or by the index manager is evaluated to a string pattern through local variables, helpers and properties; the same for every name read; "
             "each name read must be one written, each name written must be read; a prefix stripped on reading must be the one attached on writing and be stripped at that end only")
    ctx.rule("Joined lists are split at the separator they were joined with; data flagged as datetime/timedelta on writing is restored to that type (ns) under the same flag; every encoded index column has the decoder of its kind, and rows "
             "are stored encoded and handed out decoded; stored paths are made relative and completed again; seg-y header fields read are filled by the writer with the same time component, order and factor")
    dasdae(ctx, prog)
    manager(ctx, prog)
    affixes(ctx, prog)
    segy(ctx, prog)
    ctx.require("written_names", 5)
    ctx.require("read_names", 5)
