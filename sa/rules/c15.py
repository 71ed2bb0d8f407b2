"""C15: an interrupted or concurrent index update never hides files."""
from __future__ import annotations

import ast

from ..calls import graph
from ..conds import conds, parents
from ..contrib import Env
from ..flow import Flow, defs_of, meet
from ..model import dotted, walk_own
from .c16 import Patterns, unify

INDEXER = "dascore.io.indexer.DirectoryIndexer"
MANAGER = "dascore.utils.hdf5.HDFPatchIndexManager"
SCANS = ("scan_to_df", "scan")
CLOCKS = {"time", "time_ns", "now", "utcnow", "today"}
KEEP_ROWS = {"sort_values", "reset_index", "sort_index", "copy", "assign", "rename", "astype", "fillna", "pipe", "reindex", "set_index", "convert_dtypes", "infer_objects"}
STORE = {"put": 0, "append": 0}
FS_REMOVE = {"remove", "unlink", "rmtree", "replace", "rename"}
LISTING = {"rglob", "glob", "iterdir", "scandir", "walk", "listdir", "_iter_filesystem"}


class OrderFlow(Flow):
    """Also runs the finally block in the state of an exception."""

    def s_Try(self, s, st):
        if s.finalbody:
            self.trystack.append([st])
            probe = self.block(s.body, st)
            exc = None
            for x in self.trystack.pop():
                exc = meet(exc, x)
            self.block(s.finalbody, exc)
            del probe
        return super().s_Try(s, st)


class Sim:
    """Runs the must-facts of an update through everything it calls."""

    def __init__(self, ctx, prog, cls):
        self.ctx, self.p, self.g, self.cls = ctx, prog, graph(prog), cls
        self.pt = Patterns(prog, MANAGER)
        self.events = []          # (kind, function, node, state, env, chain)
        self.stack = []
        mods = {INDEXER.rsplit(".", 1)[0], MANAGER.rsplit(".", 1)[0]}
        self.inside = lambda g: g.module.name in mods

    def target(self, f, call):
        r = [g for g in self.g.ref(f, call.func) if self.inside(g)]
        r = [g for g in r if g.name != "__init__"]
        return r[0] if len(r) == 1 else None

    def nodes(self, f, key, env):
        return {p.strip("/").split("/")[-1] for p in self.pt.of(f, key, env)}

    def run(self, f, st, env, chain):
        if f.qual in self.stack or len(self.stack) > 6:
            return st
        self.stack.append(f.qual)
        cur = {}

        def visit(n, state):
            cur["kill"], cur["gen"] = set(), set()
            kind = self.kind(f, n, env)
            if kind:
                self.events.append((kind, f, n, state, env, chain))
                ctx_gen = {"scan": {"scanned"}, "rows": {"rows"}, "clear": {"cleared"}}.get(kind, set())
                cur["gen"] |= ctx_gen
                if kind in ("rows", "stamp-write"):
                    cur["kill"].add("cleared")
                return
            if isinstance(n, ast.Call):
                g = self.target(f, n)
                if g is not None:
                    out = self.run(g, state, self.pt.x.bind(f, n, g, env), chain + ((f, n),))
                    if out is not None:
                        cur["gen"] |= out - state
                        cur["kill"] |= state - out
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = [g for g in self.g.ref(f, n) if self.inside(g) and any((dotted(d) or [""])[-1] in ("property", "cached_property") for d in g.node.decorator_list)]
                if len(r) == 1:
                    self.run(r[0], state, Env(), chain + ((f, n),))
        fl = OrderFlow(f, lambda n: cur.get("gen"), kill=lambda n: cur.get("kill"), visit=visit, init=st)
        self.stack.pop()
        return fl.at_exit()

    def kind(self, f, n, env):
        if isinstance(n, ast.Call):
            nm = (dotted(n.func) or [getattr(n.func, "attr", "")])[-1]
            if nm in SCANS and (q := self.p.external(self.p.resolve(f.module, f, n.func)) or self.p.resolve(f.module, f, n.func)) and "scan" in q.rsplit(".", 1)[-1]:
                return "scan"
            if isinstance(n.func, ast.Attribute) and nm in STORE and (n.args or n.keywords):
                k = next((x.value for x in n.keywords if x.arg == "key"), n.args[0] if n.args else None)
                ns = self.nodes(f, k, env)
                if ns & self.time_nodes:
                    return "stamp-write"
                if ns & self.row_nodes:
                    return "rows"
            if nm == "to_hdf":
                k = next((x.value for x in n.keywords if x.arg == "key"), n.args[1] if len(n.args) > 1 else None)
                ns = self.nodes(f, k, env) if k is not None else set()
                if ns & self.time_nodes:
                    return "stamp-write"
                if ns & self.row_nodes:
                    return "rows"
            if nm == "read_hdf" or isinstance(n.func, ast.Attribute) and nm in ("get", "select"):
                k = n.args[1] if nm == "read_hdf" and len(n.args) > 1 else n.args[0] if nm != "read_hdf" and n.args else next((x.value for x in n.keywords if x.arg == "key"), None)
                if k is not None and self.nodes(f, k, env) & self.time_nodes:
                    return "stamp-read"
            if nm in FS_REMOVE and (isinstance(n.func, ast.Name) or isinstance(n.func, ast.Attribute)):
                who = list(n.args) + ([n.func.value] if isinstance(n.func, ast.Attribute) else [])
                if any(isinstance(x, ast.Attribute) and x.attr in ("index_path", "path") for a in who for x in ast.walk(a)):
                    return "remove"
            if nm == "clear" and isinstance(n.func, ast.Attribute) and self.cache_attr(n.func.value):
                return "clear"
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in self.caches and f.cls is not None and self.p.is_subclass(f.cls.qual, INDEXER):
            return "clear"
        return None

    def cache_attr(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in self.caches


def read_nodes(prog, pt, f):
    """Last parts of the keys a function (and its nested functions) reads from a store."""
    out = set()
    for g in [f] + list(f.children.values()):
        for n in walk_own(g.node):
            if isinstance(n, ast.Call):
                nm = (dotted(n.func) or [""])[-1]
                k = n.args[1] if nm == "read_hdf" and len(n.args) > 1 else next((x.value for x in n.keywords if x.arg == "key"), None) if nm == "read_hdf" else n.args[0] if nm in ("get", "select", "get_node") and n.args else None
                if k is not None:
                    out |= {p.strip("/").split("/")[-1] for p in pt.of(g, k, Env()) if p.strip("*")}
    return {x for x in out if x and "*" not in x}


def cached_attrs(prog, cls):
    """Attributes in which query results are kept between calls."""
    out = set()
    g = graph(prog)
    todo, seen = [m for n in ("get_contents", "__call__") for m in g.methods_of(cls.qual, n)], set()
    while todo:
        m = todo.pop()
        if m.qual in seen or m.name in ("update", "__init__"):
            continue
        seen.add(m.qual)
        for n in walk_own(m.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                r = n.value
                while isinstance(r, (ast.Subscript, ast.Attribute)) and not (isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == "self"):
                    r = r.value
                if isinstance(r, ast.Attribute):
                    out.add(r.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                r = n.func.value
                if n.func.attr in ("append", "setdefault", "update") and isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == "self":
                    if r.attr not in ("_index_table",) and prog.class_member(cls.qual, r.attr) is None:
                        out.add(r.attr)
        todo += [h for _, h in g.edges(m) if h.cls is not None and h.cls.qual == cls.qual]
    return out


# ---- where a recorded time comes from
def clock(prog, f, n):
    if not isinstance(n, ast.Call):
        return False
    d = dotted(n.func) or [getattr(n.func, "attr", "")]
    q = prog.external(prog.resolve(f.module, f, n.func)) or ".".join(d)
    last = d[-1]
    return last in CLOCKS and (q.startswith(("time.", "datetime.", "pandas.", "numpy.")) or last in ("now", "utcnow", "time_ns")) or any(isinstance(a, ast.Constant) and a.value == "now" for a in n.args)


def sources(sim, f, e, env, chain, fallback=False, depth=10):
    """[(function, clock call, fallback?, chain)] and ('missing', ...) for absent parameters."""
    p = sim.p
    if e is None or depth <= 0:
        return []
    if isinstance(e, ast.Constant):
        return [("none", f, e, fallback, chain)] if e.value is None else []
    if clock(p, f, e):
        return [("clock", f, e, fallback, chain)]
    if isinstance(e, ast.BoolOp):
        return [x for i, v in enumerate(e.values) for x in sources(sim, f, v, env, chain, fallback or i > 0 and isinstance(e.op, ast.Or), depth - 1)]
    if isinstance(e, ast.IfExp):
        tested = {n.id for n in ast.walk(e.test) if isinstance(n, ast.Name)} if none_test(e.test) else set()
        opt = lambda b: fallback or bool(tested) and not any(isinstance(n, ast.Name) and n.id in tested for n in ast.walk(b))
        return sources(sim, f, e.body, env, chain, opt(e.body), depth - 1) + sources(sim, f, e.orelse, env, chain, opt(e.orelse), depth - 1)
    if isinstance(e, ast.Name):
        out = []
        for st, src, how in defs_of(f).reaching(e.id, e) or []:
            if how == "entry":
                if e.id in env:
                    g, v, ev = env[e.id]
                    out += sources(sim, g, v, ev, chain[:-1] if chain else (), fallback, depth - 1)
            elif src is not None and isinstance(how, str):
                fb = fallback or any(none_test(t) for t, *_ in conds(f, st) if t is not None)
                out += sources(sim, f, src, env, chain, fb, depth - 1)
        return out
    if isinstance(e, ast.Call):
        g = sim.target(f, e)
        if g is not None:
            e2 = sim.pt.x.bind(f, e, g, env)
            return [x for r in sim.pt.x.results(g) for x in sources(sim, g, r.value, e2, chain + ((f, e),), fallback, depth - 1)]
        return [x for a in list(e.args) + [k.value for k in e.keywords] for x in sources(sim, f, a, env, chain, fallback, depth - 1)] + (sources(sim, f, e.func.value, env, chain, fallback, depth - 1) if isinstance(e.func, ast.Attribute) else [])
    if isinstance(e, ast.Attribute):
        return sources(sim, f, e.value, env, chain, fallback, depth - 1)
    return [x for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr) for x in sources(sim, f, c, env, chain, fallback, depth - 1)]


def none_test(t):
    return any(isinstance(n, ast.Constant) and n.value is None for n in ast.walk(t)) or isinstance(t, ast.Name) or isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name)


# ---- rows reach the index unfiltered
def rows_chain(sim, f, e, env, depth=14):
    """Yield (function, node, why) of steps between the scan and the index that may drop rows."""
    if depth <= 0 or e is None:
        return
    if isinstance(e, ast.Name):
        for st, src, how in defs_of(f).reaching(e.id, e) or []:
            if how == "entry" and e.id in env:
                g, v, ev = env[e.id]
                yield from rows_chain(sim, g, v, ev, depth - 1)
            elif src is not None and how == "=":
                yield from rows_chain(sim, f, src, env, depth - 1)
        return
    if isinstance(e, ast.IfExp):
        yield from rows_chain(sim, f, e.body, env, depth - 1)
        yield from rows_chain(sim, f, e.orelse, env, depth - 1)
        return
    if isinstance(e, ast.Call):
        if sim.kind(f, e, env) == "scan":
            return
        g = sim.target(f, e)
        if g is not None:
            e2 = sim.pt.x.bind(f, e, g, env)
            for r in sim.pt.x.results(g):
                yield from rows_chain(sim, g, r.value, e2, depth - 1)
            return
        if isinstance(e.func, ast.Attribute):
            if e.func.attr not in KEEP_ROWS:
                q = sim.p.resolve(f.module, f, e.func)
                if q in sim.p.functions or sim.p.external(q) and q.split(".")[0] in ("pandas",):
                    for a in e.args[:1]:
                        yield from rows_chain(sim, f, a, env, depth - 1)
                    return
                yield f, e, f"`.{e.func.attr}(...)`"
            yield from rows_chain(sim, f, e.func.value, env, depth - 1)
            return
        for a in e.args[:1]:
            yield from rows_chain(sim, f, a, env, depth - 1)
        return
    if isinstance(e, ast.Subscript):
        v = e.value
        sl = e.slice
        if isinstance(v, ast.Attribute) and v.attr in ("loc", "iloc"):
            if isinstance(sl, ast.Tuple) and isinstance(sl.elts[0], ast.Slice) and sl.elts[0].lower is None and sl.elts[0].upper is None:
                yield from rows_chain(sim, f, v.value, env, depth - 1)
                return
            if isinstance(sl, ast.Call) and getattr(sl.func, "attr", "") == "argsort":
                yield from rows_chain(sim, f, v.value, env, depth - 1)
                return
            yield f, e, f"`{ast.unparse(e)}`"
            return
        if isinstance(sl, (ast.List, ast.ListComp)) or isinstance(sl, ast.Call) and getattr(sl.func, "id", "") in ("list", "sorted"):
            yield from rows_chain(sim, f, v, env, depth - 1)
            return
        yield f, e, f"`{ast.unparse(e)}`"
        return


def empty_test(t):
    return any(isinstance(n, ast.Attribute) and n.attr in ("empty", "size", "shape") or isinstance(n, ast.Call) and getattr(n.func, "id", "") == "len" for n in ast.walk(t))


def dependence(sim, f, e, env, depth=8):
    """Public parameters a value depends on."""
    out = set()
    if depth <= 0 or e is None:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            g = sim.target(f, n)
            if g is not None:
                e2 = sim.pt.x.bind(f, n, g, env)
                for r in sim.pt.x.results(g):
                    out |= dependence(sim, g, r.value, e2, depth - 1)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for st, src, how in defs_of(f).reaching(n.id, n) or []:
                if how == "entry":
                    if n.id in env:
                        g, v, ev = env[n.id]
                        out |= dependence(sim, g, v, ev, depth - 1)
                    elif n.id not in ("self", "cls"):
                        out.add(n.id)
                elif src is not None:
                    out |= dependence(sim, f, src, env, depth - 1)
    return out


def update_rules(ctx, prog, cls):
    sim = Sim(ctx, prog, cls)
    mgr = prog.classes.get(MANAGER)
    stamp = prog.functions.get(prog.class_member(MANAGER, "last_updated_timestamp") or "") if mgr else None
    geti = prog.functions.get(prog.class_member(MANAGER, "get_index") or "") if mgr else None
    if stamp is None or geti is None:
        ctx.violation("manager", "the index manager no longer offers last_updated_timestamp/get_index")
        return
    sim.time_nodes, sim.row_nodes = read_nodes(prog, sim.pt, stamp), read_nodes(prog, sim.pt, geti)
    sim.caches = cached_attrs(prog, cls)
    ctx.count("cache_attributes", len(sim.caches))
    up = prog.functions.get(prog.class_member(cls.qual, "update") or "")
    if up is None:
        ctx.violation("update", f"{cls.qual} has no update method")
        return
    # the time stamp is never answered from memory
    for d in stamp.node.decorator_list:
        nm = (dotted(getattr(d, "func", d)) or [""])[-1]
        if "cache" in nm:
            ctx.violation("stamp-cached", f"{stamp.where()} is memoised with {nm}: an update by another process (or this one) is not seen, and the files it covered are judged by the old time")
    exit_state = sim.run(up, frozenset(), Env(), ())
    ev = sim.events
    scans = [x for x in ev if x[0] == "scan"]
    rows = [x for x in ev if x[0] == "rows"]
    stamps = [x for x in ev if x[0] == "stamp-write"]
    ctx.count("scan_calls", len(scans))
    ctx.count("row_stores", len(rows))
    ctx.count("time_stores", len(stamps))
    ctx.count("index_removals", len([x for x in ev if x[0] == "remove"]))
    if not scans or not rows or not stamps:
        ctx.violation("shape", f"{up.where()}: an update must scan, store rows and record its time (scans {len(scans)}, row stores {len(rows)}, time stores {len(stamps)})")
        return
    first_scan = min(ev.index(x) for x in scans)
    # the order of the steps
    for k, f, n, st, env, chain in stamps:
        where = f.where(n)
        ctx.count("ordered_time_stores")
        if "rows" not in st:
            ctx.violation(f"time-before-rows:{f.name}", f"{where} records the update time on a path where the rows were not stored yet: a crash there hides the files of this scan for ever (path: {via(chain)})")
        if "scanned" not in st:
            ctx.violation(f"time-before-scan:{f.name}", f"{where} records the update time on a path where the scan has not completed (path: {via(chain)})")
        # the recorded time
        val = stored_value(n)
        srcs = sources(sim, f, val, env, chain)
        for kind, g, c, fb, ch in srcs:
            if kind != "clock":
                continue
            ctx.count("clock_readings")
            pos = order_of(sim, ev, g, c, ch, up)
            if fb:
                # only used when no time was handed over
                if not any(k2 == "clock" and not fb2 and order_of(sim, ev, g2, c2, ch2, up) < first_scan_key(sim, scans, up) for k2, g2, c2, fb2, ch2 in srcs):
                    ctx.violation(f"time-at-write:{f.name}", f"{where} records the time {g.where(c)} reads when storing, as no earlier time is handed over: files that changed during the scan are never looked at again")
                continue
            if pos >= first_scan_key(sim, scans, up):
                ctx.violation(f"time-after-scan:{g.name}", f"{g.where(c)} takes the update time after the scan at {scans[0][1].where(scans[0][2])} began: files that changed during the scan are never looked at again")
        if not any(k2 == "clock" for k2, *_ in srcs):
            ctx.violation(f"no-time:{f.name}", f"{where}: the recorded time is not read from a clock before the scan")
    for k, f, n, st, env, chain in rows:
        if "scanned" not in st:
            ctx.violation(f"rows-before-scan:{f.name}", f"{f.where(n)} stores rows on a path where the scan has not completed")
        val = stored_value(n)
        for g, m, why in rows_chain(sim, f, val, env):
            ctx.violation(f"rows-dropped:{g.name}:{why[:40]}", f"{g.where(m)}: {why} may drop scanned rows before they are stored, while the update time covers them")
        for a, b in list(chain) + [(f, n)]:
            for t, pol, kind, s in conds(a, b):
                if t is None or kind == "handler" or empty_test(t) or mode_test(t):
                    continue
                if not all_paths_store(sim, a, s):
                    ctx.violation(f"rows-skipped:{a.name}:{ast.unparse(t)[:40]}", f"{a.where(b)}: rows are stored only when `{'' if pol else 'not '}{ast.unparse(t)}`")
    # a removed index takes its time stamp with it
    seen_read = None
    for x in ev:
        if x[0] == "stamp-read":
            seen_read = x
        elif x[0] == "remove" and seen_read is not None and x[5][:1] != seen_read[5][:1]:
            ctx.violation(f"stale-stamp:{x[1].name}", f"{x[1].where(x[2])} removes the index after its time stamp was read at {seen_read[1].where(seen_read[2])}: the new index skips every older file")
    # cached contents
    if exit_state is not None and "cleared" not in exit_state and sim.caches:
        ctx.violation("cache-kept", f"{up.where()}: update can return without dropping the cached contents ({', '.join(sorted(sim.caches))}): files indexed meanwhile by another process stay hidden")
    # the time of the scan
    for k, f, n, st, env, chain in scans:
        ts = next((x.value for x in n.keywords if x.arg in ("timestamp", "mtime")), None)
        if ts is None:
            continue
        ctx.count("scan_time_limits")
        check_stamp(ctx, sim, f, ts, env)
        pth = next((x.value for x in n.keywords if x.arg in ("path", "paths")), n.args[0] if n.args else None)
        deps = dependence(sim, f, pth, env)
        for d in sorted(deps & set(up.all_params)):
            ctx.violation(f"restricted:{up.name}:{d}", f"{f.where(n)}: with `{d}` only a part of the directory is scanned, but the recorded update time covers all of it: older files elsewhere are never indexed")
        ext = next((x.value for x in n.keywords if x.arg == "ext"), None)
        for d in sorted(dependence(sim, f, ext, env) & set(up.all_params)) if ext is not None else []:
            ctx.violation(f"restricted:{up.name}:{d}", f"{f.where(n)}: with `{d}` only files of one extension are scanned, but the recorded update time covers all of them")


def mode_test(t):
    return False


def all_paths_store(sim, f, s):
    """Both branches of a choice store the rows."""
    if not isinstance(s, ast.If) or not s.orelse:
        return False

    def stores(b):
        for x in b:
            for n in ast.walk(x):
                if isinstance(n, ast.Call):
                    if sim.kind(f, n, Env()) == "rows":
                        return True
                    g = sim.target(f, n)
                    if g is not None and any(isinstance(m, ast.Call) and sim.kind(g, m, Env()) == "rows" for m in walk_own(g.node)):
                        return True
        return False
    return stores(s.body) and stores(s.orelse)


def stored_value(n):
    nm = n.func.attr
    if nm == "to_hdf":
        return n.func.value
    return next((x.value for x in n.keywords if x.arg == "value"), n.args[1] if len(n.args) > 1 else None)


def via(chain):
    return " <- ".join(f.name for f, _ in reversed(chain)) or "update"


def key_in(f, n):
    from ..conds import evaluation
    for i, x in enumerate(evaluation(f.node)):
        if x is n:
            return i
    return -1


def order_of(sim, ev, g, c, chain, up):
    """Position in the update at which a clock is read."""
    if g is up:
        return key_in(up, c)
    for f, n in chain:
        if f is up:
            return key_in(up, n)
    return 10**9


def first_scan_key(sim, scans, up):
    out = []
    for k, f, n, st, env, chain in scans:
        if f is up:
            out.append(key_in(up, n))
        else:
            out += [key_in(up, b) for a, b in chain if a is up][:1]
    return min(out or [10**9])


def check_stamp(ctx, sim, f, e, env, depth=8):
    """The limit handed to the scan is the stored time, possibly minus something."""
    if depth <= 0 or e is None:
        return
    if isinstance(e, ast.Constant):
        if e.value is not None and e.value != 0:
            ctx.violation(f"limit:{f.name}", f"{f.where(e)}: the scan is limited by a fixed time")
        return
    if isinstance(e, ast.Name):
        for st, src, how in defs_of(f).reaching(e.id, e) or []:
            if how == "entry" and e.id in env:
                g, v, ev = env[e.id]
                check_stamp(ctx, sim, g, v, ev, depth - 1)
            elif src is not None and how in ("=", "aug"):
                if how == "aug" and isinstance(st, ast.AugAssign):
                    judge_arith(ctx, sim, f, st, st.op, st.target, st.value, env, depth)
                else:
                    check_stamp(ctx, sim, f, src, env, depth - 1)
        return
    if isinstance(e, ast.BinOp):
        judge_arith(ctx, sim, f, e, e.op, e.left, e.right, env, depth)
        return
    if isinstance(e, (ast.IfExp,)):
        check_stamp(ctx, sim, f, e.body, env, depth - 1)
        check_stamp(ctx, sim, f, e.orelse, env, depth - 1)
        return
    if isinstance(e, ast.Call):
        if clock(sim.p, f, e):
            ctx.violation(f"limit:{f.name}", f"{f.where(e)}: the scan is limited by the current time, not by the recorded update time")
            return
        g = sim.target(f, e)
        if g is not None:
            e2 = sim.pt.x.bind(f, e, g, env)
            for r in sim.pt.x.results(g):
                check_stamp(ctx, sim, g, r.value, e2, depth - 1)
            return
        nm = (dotted(e.func) or [""])[-1]
        if nm in ("max",):
            ctx.violation(f"limit:{f.name}", f"{f.where(e)}: the scan's time limit is the larger of several times")
        for a in e.args:
            check_stamp(ctx, sim, f, a, env, depth - 1)


def judge_arith(ctx, sim, f, node, op, left, right, env, depth):
    c = right.value if isinstance(right, ast.Constant) else None
    if c is None and isinstance(right, ast.UnaryOp) and isinstance(right.op, ast.USub) and isinstance(right.operand, ast.Constant):
        c = -right.operand.value
    if c is None:
        q = sim.p.resolve(f.module, f, right) if isinstance(right, (ast.Name, ast.Attribute)) else None
        m, _, v = (q or "").rpartition(".")
        mod = sim.p.modules.get(m)
        x = (mod.variables.get(v) or [None])[-1] if mod else None
        c = x.value if isinstance(x, ast.Constant) else None
    if isinstance(op, ast.Add) and not (c is not None and c < 0) or isinstance(op, ast.Sub) and c is not None and c < 0 or isinstance(op, (ast.Mult, ast.Pow)):
        ctx.violation(f"limit:{f.name}", f"{f.where(node)}: the scan's time limit lies after the recorded update time, files changed in between are skipped")
    check_stamp(ctx, sim, f, left, env, depth - 1)


# ---- the comparison of file times
def comparisons(ctx, prog):
    g = graph(prog)
    roots = [f for f in prog.all_functions() if f.module.name == "dascore.io.core" and f.cls is None and f.name == "scan" and f.parent is None]
    roots += [f for f in prog.all_functions() if f.cls is not None and f.name == "scan" and f.module.name.startswith("dascore.io.")]
    seen = g.reach(roots, stop=lambda f: not f.module.name.startswith("dascore"))
    for q, (f, *_ ) in sorted(seen.items()):
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Compare) and len(n.ops) == 1):
                continue
            l, r = mtime(f, n.left), mtime(f, n.comparators[0])
            if l == r:
                continue
            other = n.comparators[0] if l else n.left
            if not timelike(f, other):
                continue
            ctx.count("mtime_comparisons")
            kind = l or r
            if kind not in ("st_mtime", "getmtime", "st_mtime_ns"):
                ctx.violation(f"mtime:{f.name}", f"{f.where(n)} compares {kind} instead of the modification time with the update time")
            op = type(n.ops[0])
            if r:
                op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op, op)
            keeps = polarity(f, n)
            newer = op in (ast.Gt, ast.GtE)
            if op not in (ast.Gt, ast.GtE, ast.Lt, ast.LtE) or keeps is not None and keeps != newer:
                ctx.violation(f"mtime:{f.name}", f"{f.where(n)}: `{ast.unparse(n)}` keeps files older than the update time instead of newer ones")
    # directories which are one resource: their own time does not tell that a file in them changed
    for q, (f, *_) in sorted(seen.items()):
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            hs = [h for h in g.ref(f, n.func) if any(isinstance(x, ast.Compare) and (mtime(h, x.left) or mtime(h, x.comparators[0])) for x in walk_own(h.node))]
            if not hs or not any(t is not None and directory_test(t, pol) for t, pol, kind, s in conds(f, n)):
                continue
            for h in hs:
                ctx.count("directory_comparisons")
                lists = listed(h)
                if not lists:
                    ctx.violation(f"directory-mtime:{h.name}", f"{h.where()} judges a directory by its own modification time (called at {f.where(n)}): a file inside it that is rewritten does not change that, and stays hidden")


def listed(h):
    """A listing of the directory takes part in the comparison of times."""
    par = parents(h.node)
    todo, done = [], set()
    for x in walk_own(h.node):
        if isinstance(x, ast.Compare) and (mtime(h, x.left) or mtime(h, x.comparators[0])):
            cur = x
            while cur is not None and cur is not h.node:
                if isinstance(cur, ast.For):
                    todo.append(cur.iter)
                elif isinstance(cur, ast.stmt):
                    if not isinstance(cur, (ast.If, ast.With, ast.Try, ast.While)):
                        todo.append(cur)
                elif isinstance(par.get(id(cur)), ast.If):
                    todo.append(cur)
                cur = par.get(id(cur))
    while todo:
        e = todo.pop()
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and (dotted(x.func) or [getattr(x.func, "attr", "")])[-1] in LISTING:
                return True
            if isinstance(x, ast.Name) and x.id not in done:
                done.add(x.id)
                for y in walk_own(h.node):
                    if isinstance(y, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and y.value is not None and any(isinstance(z, ast.Name) and z.id == x.id and isinstance(z.ctx, ast.Store) for t in (y.targets if isinstance(y, ast.Assign) else [y.target]) for z in ast.walk(t)):
                        todo.append(y.value)
                    elif isinstance(y, ast.For) and any(isinstance(z, ast.Name) and z.id == x.id for z in ast.walk(y.target)):
                        todo.append(y.iter)
                    elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == x.id and y.func.attr in ("append", "extend", "add", "update", "insert"):
                        todo.extend(y.args)
                    elif isinstance(y, ast.NamedExpr) and y.target.id == x.id:
                        todo.append(y.value)
    return False


def directory_test(t, pol):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return directory_test(t.operand, not pol)
    if isinstance(t, ast.BoolOp):
        return any(directory_test(v, pol) for v in t.values)
    if isinstance(t, ast.Compare) and any(isinstance(x, ast.Constant) and x.value == "directory" for x in ast.walk(t)):
        return pol == isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is))
    return False


def mtime(f, e, depth=4):
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and n.attr in ("st_mtime", "st_mtime_ns", "st_ctime", "st_atime", "st_birthtime", "st_ctime_ns"):
            return n.attr
        if isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] in ("getmtime", "getctime", "getatime"):
            return dotted(n.func)[-1]
    if isinstance(e, ast.Name) and depth:
        for st, src, how in defs_of(f).reaching(e.id, e) or []:
            if how == "=" and src is not None and (m := mtime(f, src, depth - 1)):
                return m
    return ""


def timelike(f, e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.BinOp, ast.Call)) and not isinstance(e, ast.Constant)


def polarity(f, n):
    """True when the file is kept if the comparison holds, False when it is left out, None when unknown."""
    par = parents(f.node)
    pol, cur, p = True, n, par.get(id(n))
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            pol = not pol
        if isinstance(p, ast.comprehension) or isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.Lambda)):
            return pol
        if isinstance(p, ast.IfExp) and cur is p.test:
            return None
        cur, p = p, par.get(id(p))
    if isinstance(p, ast.Return):
        return pol
    if isinstance(p, ast.If):
        b = p.body
        last = b[-1]
        neg = isinstance(last, (ast.Continue, ast.Break)) or isinstance(last, ast.Return) and (last.value is None or isinstance(last.value, ast.Constant) and not last.value.value)
        keep = any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and getattr(x.func, "attr", "") in ("append", "add") or isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for s in b for x in ast.walk(s))
        if neg and not keep:
            return not pol
        if keep:
            return pol
    return None


def run(ctx):
    prog = ctx.prog
    ctx.rule("on every path of an index update: the update time is read from the clock before the scan begins; the time is stored only after the scan completed and all its rows were stored (exceptional paths through finally included)")
    ctx.rule("rows are handed from the scan to the index without a step that may drop some, and are skipped only when there are none")
    ctx.rule("the time limit of a scan is the stored update time or earlier, read afresh and after the index was possibly removed; files are compared by modification time and newer ones kept; a directory that is one resource is judged by its contents")
    ctx.rule("an update never returns with query results cached before it; an update that scans a part of the directory does not record a time for all of it")
    cls = prog.classes.get(INDEXER)
    if cls is None:
        ctx.violation("indexer", "the directory indexer no longer exists")
        return
    update_rules(ctx, prog, cls)
    comparisons(ctx, prog)
    ctx.assumptions.append("modification times of files are monotone with respect to the clock of the indexing machine; files moved into the directory with an old modification time and files whose scan failed before they changed again are outside; HDF5's own crash safety is trusted")
    ctx.require("scan_calls", 1)
    ctx.require("row_stores", 1)
    ctx.require("time_stores", 1)
    ctx.require("clock_readings", 1)
    ctx.require("mtime_comparisons", 2)
