"""C14: one unreadable file or failing plugin never breaks work on the others."""
from __future__ import annotations

import ast

from ..contrib import Env, Explorer
from ..flow import defs_of
from ..model import AnalysisError, dotted, walk_own
from .c11 import parents

CORE = "dascore.io.core"
WARN = {"warn", "warn_or_raise", "warning", "exception"}
INTERRUPT = {"BaseException", "KeyboardInterrupt", "GeneratorExit", "SystemExit"}
STEPS = ("scan", "get_format", "get_resource", "get_handle")
ENTRY = {CORE + ".scan", CORE + ".read", CORE + ".write"}
SPECIFIC_RAISE = {"FileNotFoundError", "KeyboardInterrupt"}


def exc_names(t):
    if t is None:
        return {"BaseException"}
    return {(dotted(x) or ["?"])[-1] for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])}


class Isolation:
    def __init__(self, prog):
        self.p = prog
        self.x = {}

    def explorer(self, f):
        k = f.cls.qual if f.cls else None
        if k not in self.x:
            self.x[k] = Explorer(self.p, k)
        return self.x[k]

    # ---- calls which may fail because of one file or plugin
    def origins(self, f, e, env, depth=5):
        """Expressions a callee expression stands for (local aliases and parameters followed)."""
        if not isinstance(e, ast.Name) or depth <= 0:
            return [(f, e)]
        out = []
        ds = defs_of(f).reaching(e.id, e) or []
        for s, src, how in ds:
            if src is not None and how == "=":
                out += self.origins(f, src, env, depth - 1)
            elif src is not None:
                out.append((f, (s, src, how)))
        if e.id in f.all_params and e.id in env:
            g, x, ev = env[e.id]
            out += self.origins(g, x, ev, depth - 1)
        return out or [(f, e)]

    def step(self, f, c, env):
        """Name of the plugin/file step a call performs directly, else None."""
        for g, o in self.origins(f, c.func, env):
            if isinstance(o, tuple):
                if any(isinstance(n, ast.Attribute) and n.attr == "_eps" for n in ast.walk(o[1])):
                    return "load"
                continue
            if isinstance(o, ast.Attribute):
                q = self.p.resolve(g.module, g, o)
                if o.attr in STEPS and q not in self.p.functions:
                    return o.attr
                if o.attr == "from_dict" and (q or "").endswith("PatchAttrs.from_dict"):
                    return o.attr
                if o.attr == "register_fiberio":
                    return o.attr
            if isinstance(o, ast.Call) and o is c.func:
                r = self.step(f, o, env)
                if r == "load":
                    return r
        return None

    def steps(self, f, nodes, env=None, chain=(), depth=6, top=None):
        """Yield (chain of (function, call, enclosing top node), step name) of every step below some nodes."""
        env = Env() if env is None else env
        for c in nodes:
            if not isinstance(c, ast.Call):
                continue
            link = chain + ((f, c, top),)
            r = self.step(f, c, env)
            if r:
                yield link, r
                continue
            x = self.explorer(f)
            g = x.callees(f, c)
            if g is None or depth <= 0 or g.module.name != CORE or any(g is l[0] for l in link) or g.qual in ENTRY:
                continue
            yield from self.steps(g, list(walk_own(g.node)), x.bind(f, c, g, env), link, depth - 1, g.node)

    def isolated(self, chain):
        """(protected?, function, handler) / (False, None, reason) of a chain below a loop."""
        why = None
        for f, c, top in reversed(chain):
            ok, h = self.protected(f, c, top)
            if ok:
                return True, f, h
            why = h if why is None or not h.startswith("no handler") else why
        return False, None, why

    # ---- protection
    def protected(self, f, node, top):
        """(is an arbitrary exception of the node caught and left behind before `top`?, reason/handler)."""
        par = parents(f)
        n = node
        while id(n) in par and n is not top:
            up = par[id(n)]
            if isinstance(up, ast.Try) and any(n is s for s in up.body):
                for h in up.handlers:
                    names = exc_names(h.type)
                    why = self.leaves(f, h)
                    if names & {"Exception", "BaseException"}:
                        if why:
                            return False, f"the handler at line {h.lineno} {why}"
                        return True, h
                    if why and not names <= INTERRUPT:
                        return False, f"the handler for {sorted(names)} at line {h.lineno} {why}"
            n = up
        return False, "no handler for arbitrary exceptions surrounds it"

    def leaves(self, f, h):
        """Does a handler stop the work on the other files?"""
        par = parents(f)
        for s in h.body:
            for n in [s] + list(ast.walk(s)):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(n, ast.Break) and not _inner_loop(par, n, h):
                    return "ends the loop"
                if isinstance(n, ast.Return) and self._in_loop(par, h):
                    return "returns from the whole call"
                if isinstance(n, ast.Raise) and not self._narrow(par, n, h):
                    return "raises"
        return None

    def _in_loop(self, par, h):
        n = h
        while id(n) in par:
            n = par[id(n)]
            if isinstance(n, (ast.For, ast.While)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return False
        return False

    def _narrow(self, par, n, h):
        """raise under a test that the exception is of a specific, documented type"""
        x = n
        while x is not h and id(x) in par:
            up = par[id(x)]
            if isinstance(up, ast.If) and any(x is b for b in up.body):
                tests = up.test.values if isinstance(up.test, ast.BoolOp) and isinstance(up.test.op, ast.And) else [up.test]
                for t in tests:
                    if isinstance(t, ast.Call) and getattr(t.func, "id", "") == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id == h.name:
                        if {(dotted(y) or ["?"])[-1] for y in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])} <= SPECIFIC_RAISE:
                            return True
            x = up
        return False


def _inner_loop(par, n, h):
    while n is not h and id(n) in par:
        n = par[id(n)]
        if isinstance(n, (ast.For, ast.While)):
            return True
    return False


def warns(prog, f, h, depth=2):
    """Does a handler warn, itself, in a helper, or by a note it leaves for a later warning?"""
    for s in h.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and _warn_call(prog, f, n, depth):
                return True
    noted = {n.id for s in h.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    noted |= {n.func.value.id for s in h.body for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "add")}
    if noted:
        par = parents(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and _warn_call(prog, f, n, depth):
                while id(n) in par:
                    n = par[id(n)]
                    if isinstance(n, (ast.If, ast.For)) and noted & {x.id for x in ast.walk(n.test if isinstance(n, ast.If) else n.iter) if isinstance(x, ast.Name)}:
                        return True
    return False


def _warn_call(prog, f, n, depth):
    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
    if nm in WARN:
        return True
    g = prog.functions.get(prog.resolve(f.module, f, n.func) or "")
    return g is not None and depth > 0 and any(isinstance(x, ast.Call) and _warn_call(prog, g, x, depth - 1) for x in ast.walk(g.node))


def _own(s):
    yield s
    yield from walk_own(s)


def loops(prog, iso, name):
    """(function, loop, step chains) of the loops which perform a step in each iteration."""
    for f in prog.functions.values():
        if f.module.name != CORE:
            continue
        for n in walk_own(f.node):
            if isinstance(n, (ast.For, ast.While)):
                st = list(iso.steps(f, [x for b in n.body for x in _own(b)], top=n))
                if any(r == name for _, r in st):
                    yield f, n, st


def place(chain):
    f, c, _ = chain[-1]
    return f.where(c) + (f" (from {chain[0][0].where(chain[0][1])})" if len(chain) > 1 else "")


def scan_loop(ctx, prog, iso):
    found = 0
    for f, loop, st in loops(prog, iso, "scan"):
        found += 1
        ctx.count("scan_loops")
        for n in [x for b in loop.body for x in _own(b)]:
            if isinstance(n, (ast.Return, ast.Break)) and not _nested(f, n, loop):
                ctx.violation(f"scan:leave:{f.qual}", f"{f.where(n)}: the loop over the files ends before all were scanned")
        for chain, step in st:
            if step not in ("scan", "from_dict", "get_resource", "get_format"):
                continue
            ctx.count("steps_per_file")
            ok, hf, h = iso.isolated(chain)
            if not ok:
                ctx.violation(f"scan:{f.qual}:{step}", f"{place(chain)}: `{ast.unparse(chain[-1][1])[:70]}` may raise for one file ({step}) and stop the scan of the others: {h}")
                continue
            if step != "get_format" and not warns(prog, hf, h) and not _in_detection(iso, chain):
                ctx.violation(f"scan:silent:{f.qual}:{step}", f"{hf.where(h)}: a file that cannot be handled by `{ast.unparse(chain[-1][1])[:50]}` is skipped without a warning")
            lazy(ctx, chain, hf, h, step)
        # results of the other files are kept
        kept = {x.value.id for x in ast.walk(loop) if isinstance(x, ast.Attribute) and x.attr in ("extend", "append") and isinstance(x.value, ast.Name)}
        for h in [x for x in ast.walk(loop) if isinstance(x, ast.ExceptHandler)]:
            for n in ast.walk(h):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in kept for t in n.targets) and any(_outlives(f, t.id, loop) for t in n.targets if isinstance(t, ast.Name)) \
                        or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and isinstance(n.func.value, ast.Name) and n.func.value.id in kept:
                    ctx.violation(f"scan:drop:{f.qual}", f"{f.where(n)}: results already collected for other files are dropped when one fails")
    if not found:
        raise AnalysisError("the loop over the scanned files was not found")


def _outlives(f, name, loop):
    """Is a name bound before the loop (and so carries the results of other files)?"""
    inside = {id(x) for x in ast.walk(loop)}
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) not in inside for n in walk_own(f.node))


def _in_detection(iso, chain):
    """Does the step belong to trying out the detectors (a file no detector accepts is not a failure)?"""
    for f, c, top in chain[1:]:
        par = parents(f)
        n = c
        while id(n) in par and n is not top:
            n = par[id(n)]
            if isinstance(n, (ast.For, ast.While)):
                return True
    return False


def _nested(f, n, loop):
    par = parents(f)
    while id(n) in par:
        n = par[id(n)]
        if n is loop:
            return False
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            return True
    return True


def lazy(ctx, chain, hf, h, step):
    """The outcome of a plugin's scan must be consumed where its exceptions are caught."""
    if step not in ("scan", "from_dict"):
        return
    for f, c, top in reversed(chain):
        par = parents(f)
        n = c
        while id(n) in par and not (f is hf and isinstance(par[id(n)], ast.Try) and h in par[id(n)].handlers) and n is not top:
            up = par[id(n)]
            if isinstance(up, ast.GeneratorExp):
                outer = par.get(id(up))
                if not (isinstance(outer, ast.Call) and getattr(outer.func, "id", getattr(outer.func, "attr", "")) in ("list", "tuple", "extend", "sorted", "update", "set")):
                    ctx.violation(f"scan:lazy:{f.qual}", f"{f.where(c)}: evaluated lazily, outside the handler which isolates the file")
            n = up
        if f is hf:
            break
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node)):
            ctx.violation(f"scan:lazy:{f.qual}", f"{f.where(c)}: the generator runs outside the handler which isolates the file")
    tr = par.get(id(n))
    # the result of scan itself (possibly a generator) leaves the handler unconsumed
    if step == "scan" and isinstance(tr, ast.Try) and len(chain) and chain[-1][0] is hf:
        st = defs_of(hf).stmt_of.get(id(c))
        if isinstance(st, ast.Assign) and st.value is chain[-1][1]:
            names = {t.id for t in st.targets if isinstance(t, ast.Name)}
            inside = {id(x) for b in tr.body for x in ast.walk(b)}
            for x in walk_own(hf.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and id(x) not in inside and any(d[1] is chain[-1][1] for d in defs_of(hf).reaching(x.id, x)):
                    ctx.violation(f"scan:lazy:{hf.qual}", f"{hf.where(x)}: the plugin's scan result `{x.id}` is consumed outside the handler which isolates the file")
        elif isinstance(st, ast.Return) and st.value is chain[-1][1]:
            ctx.violation(f"scan:lazy:{hf.qual}", f"{hf.where(st)}: the plugin's scan result is consumed outside the handler which isolates the file")


def detection_loop(ctx, prog, iso):
    found = 0
    for f, loop, st in loops(prog, iso, "get_format"):
        if any(r == "scan" for _, r in st):
            continue
        found += 1
        ctx.count("detection_loops")
        for chain, step in st:
            if step not in ("get_format", "get_resource"):
                continue
            ctx.count("steps_per_plugin")
            ok, _, h = iso.isolated(chain)
            if not ok:
                ctx.violation(f"detect:{f.qual}:{step}", f"{place(chain)}: an exception of `{ast.unparse(chain[-1][1])[:60]}` does not only rule out the plugin: {h}")
        for n in [x for b in loop.body for x in _own(b)]:
            if isinstance(n, ast.Break) and not _nested(f, n, loop) and not _decided(f, n, loop):
                ctx.violation(f"detect:leave:{f.qual}", f"{f.where(n)}: the loop over the plugins ends before all were tried")
    if not found:
        raise AnalysisError("the loop over the detectors was not found")


def _decided(f, n, loop):
    """break once an answer was found: under a test, outside any handler"""
    par = parents(f)
    cond = False
    while id(n) in par and n is not loop:
        n = par[id(n)]
        if isinstance(n, ast.ExceptHandler):
            return False
        cond |= isinstance(n, ast.If)
    return cond


def plugin_loop(ctx, prog, iso):
    found = 0
    for f, loop, st in loops(prog, iso, "register_fiberio"):
        if not any(r == "load" for _, r in st):
            continue
        if any(n is not loop and isinstance(n, (ast.For, ast.While)) and any(x is c for x in ast.walk(n)) for n in ast.walk(loop) for ch, r in st[:1] for c in [ch[0][1]]):
            continue      # an outer loop: judged at the inner one
        found += 1
        for chain, step in st:
            if step not in ("load", "register_fiberio"):
                continue
            ctx.count("plugin_loads")
            ok, hf, h = iso.isolated(chain)
            if not ok:
                ctx.violation("load", f"{place(chain)}: a plugin that cannot be loaded stops the loading of the others: {h}")
            elif not warns(prog, hf, h):
                ctx.violation("load:silent", f"{hf.where(h)}: a plugin that cannot be loaded is skipped without a warning")
    if not found:
        raise AnalysisError("the loop over the plugins' entry points was not found")


def _innermost(f, n):
    par = parents(f)
    while id(n) in par:
        n = par[id(n)]
        if isinstance(n, (ast.For, ast.While)):
            return n
    return f.node


def reraises(prog, f, h):
    """Does a handler certainly leave by raising (or end the process)?"""
    from ..guards import ends_raise
    return ends_raise(h.body)


def _loop_inside(tr, x):
    return any(isinstance(l, (ast.For, ast.While)) and any(y is x for y in ast.walk(l)) for s in tr.finalbody for l in ast.walk(s))


def interrupts(ctx, prog):
    for m in prog.modules.values():
        owner = {}
        for f in prog.functions.values():
            if f.module is m:
                for n in walk_own(f.node):
                    owner[id(n)] = f
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ExceptHandler):
                ctx.count("exception_handlers")
                names = exc_names(n.type)
                if names & INTERRUPT and not names <= {"GeneratorExit", "SystemExit"}:
                    f = owner.get(id(n))
                    if not reraises(prog, f, n):
                        ctx.violation(f"interrupt:{m.name}:{f.name if f else ''}", f"{m.relpath}:{n.lineno} {'in ' + f.qual if f else ''}: `except {ast.unparse(n.type) if n.type else ''}` may swallow a user interrupt")
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "suppress":
                if any((dotted(a) or ["?"])[-1] in ("BaseException", "KeyboardInterrupt") for a in n.args):
                    ctx.violation(f"interrupt:{m.name}:suppress", f"{m.relpath}:{n.lineno}: suppresses user interrupts")
            elif isinstance(n, ast.Try) and n.finalbody:
                for s in n.finalbody:
                    for x in [s] + list(walk_own(s)):
                        if isinstance(x, ast.Return) or isinstance(x, (ast.Continue, ast.Break)) and not _loop_inside(n, x):
                            ctx.violation(f"interrupt:{m.name}:finally", f"{m.relpath}:{x.lineno}: `{ast.unparse(x)}` inside finally swallows every exception, interrupts included")
            elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__aexit__"):
                for x in walk_own(n):
                    if isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True:
                        ctx.violation(f"interrupt:{m.name}:exit", f"{m.relpath}:{x.lineno}: __exit__ always swallows exceptions, interrupts included")


def run(ctx):
    prog = ctx.prog
    ctx.rule("Inside the loops over files (scan), detectors (format detection) and entry points (plugin loading) every call that opens a file or runs plugin code is covered, before the loop, by a handler for Exception that "
             "neither raises (save for a specific documented type), returns nor breaks, and warns when a file or plugin is skipped; plugin results are consumed inside it; no handler, suppress, __exit__ or finally in the "
             "package swallows a user interrupt")
    ctx.assumptions += ["Walking the directory tree itself succeeds.", "Constructing the resource manager and asking for its source does not raise."]
    iso = Isolation(prog)
    scan_loop(ctx, prog, iso)
    detection_loop(ctx, prog, iso)
    plugin_loop(ctx, prog, iso)
    interrupts(ctx, prog)
    ctx.require("scan_loops", 1)
    ctx.require("steps_per_file", 1)
    ctx.require("detection_loops", 1)
    ctx.require("steps_per_plugin", 1)
    ctx.require("plugin_loads", 1)
    ctx.require("exception_handlers", 40)
