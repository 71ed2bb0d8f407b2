"""C08: a request naming several dimensions (or coordinates) is applied to all of them."""
from __future__ import annotations

import ast

from ..flow import defs_of
from ..model import walk_own
from .c05 import is_name

SCOPE = ("dascore.proc", "dascore.transform", "dascore.core.coordmanager", "dascore.core.patch", "dascore.utils.patch", "dascore.utils.array",
         "dascore.core.spool", "dascore.clients", "dascore.utils.coordmanager", "dascore.utils.pd", "dascore.core.coords", "dascore.core.attrs")
GROW = {"append", "extend", "add", "update", "insert", "setdefault", "appendleft", "pop", "remove", "discard", "popitem"}


def inside(body, node):
    return any(x is node for b in body for x in ast.walk(b))


def stmts_in(body):
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            v = getattr(s, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                yield from stmts_in(v)
        for h in getattr(s, "handlers", []) or []:
            yield from stmts_in(h.body)


WHERE = {"axis", "axes", "dim", "dims", "axs"}


def data_walk(e):
    """The nodes of an expression which contribute content (not the arguments naming where to work)."""
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("get_axis", "index"):
                continue
            todo.append(n.func)
            todo.extend(n.args)
            todo.extend(k.value for k in n.keywords if k.arg not in WHERE)
        else:
            todo.extend(ast.iter_child_nodes(n))


class LoopInfo:
    def __init__(self, f, loop):
        self.f, self.loop, self.d = f, loop, defs_of(f)
        self.body = loop.body
        self.targets = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        self.stmts = list(stmts_in(self.body))

    def slice(self, e, seen=None, data_only=False, loops=True):
        """Names (with their node) feeding an expression through definitions inside the loop body."""
        seen = {} if seen is None else seen
        if e is None or id(e) in seen:
            return seen
        seen[id(e)] = e
        for n in (data_walk(e) if data_only else ast.walk(e)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for s, src, how in self.d.reaching(n.id, n):
                    if s is not None and s is not self.loop and inside(self.body, s) and src is not None and (loops or not isinstance(s, ast.For)):
                        self.slice(src, seen, data_only, loops)
        # the control conditions of the value are not followed: they do not carry data
        return seen

    def fills(self, name, s):
        """Values stored into slots of the object bound to name at s."""
        out = []
        for x in self.stmts:
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Subscript) and is_name(t.value, {name}) and any(d[0] is s for d in self.d.reaching(name, t.value)):
                        out += [x.value, t.slice]
        return out

    def carried(self, name, s, e):
        """Does the value assigned at s use the value assigned in an earlier round?"""
        sl = self.slice(e, data_only=True)
        for v in self.fills(name, s):
            sl = self.slice(v, sl, data_only=True)
        for x in sl.values():
            for n in data_walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == name:
                    us = self.d.stmt_of.get(id(n))
                    if us is not None and us is not s and self.d.order[id(us)] > self.d.order[id(s)]:
                        continue  # reads what this round stored
                    if any(d[0] is s for d in self.d.reaching(name, n)) or any(
                            d[0] is not None and inside(self.body, d[0]) and d[0] is not self.loop for d in self.d.reaching(name, n)):
                        return True
        return False

    def depends_on_target(self, e):
        for x in self.slice(e).values():
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in self.targets and isinstance(n.ctx, ast.Load):
                    return True
        return False

    def live_after(self, name, s):
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and not inside(self.body, n):
                if any(d[0] is s for d in self.d.reaching(name, n)):
                    # must come after the loop
                    us = self.d.stmt_of.get(id(n))
                    if us is not None and self.d.order[id(us)] > self.d.order[id(self.loop)]:
                        return n
        return None

    def conditional(self, s):
        """Innermost if of the loop body that guards s, or None when s runs every round."""
        def find(body, guard):
            for x in body:
                if x is s:
                    return (guard,)
                if isinstance(x, ast.If):
                    r = find(x.body, x) or find(x.orelse, x)
                    if r:
                        return r
                elif isinstance(x, (ast.For, ast.While, ast.With, ast.Try)):
                    for f in ("body", "orelse", "finalbody"):
                        r = find(getattr(x, f, []) or [], guard)
                        if r:
                            return r
                    for h in getattr(x, "handlers", []) or []:
                        r = find(h.body, x)
                        if r:
                            return r
            return None
        r = find(self.body, None)
        return r[0] if r else None

    def skipped_before(self, s):
        """A round may be given up before s is reached."""
        def leaves(body):
            return any(isinstance(x, ast.Continue) or isinstance(x, (ast.If, ast.With, ast.Try)) and any(leaves(getattr(x, k, None) or []) for k in ("body", "orelse", "finalbody")) for x in body)

        def find(body):
            for i, x in enumerate(body):
                if any(y is s for y in ast.walk(x)):
                    if leaves(body[:i]):
                        return True
                    return any(find(getattr(x, k, None) or []) for k in ("body", "orelse", "finalbody"))
            return False
        return find(self.body)

    def assigned_on_all_sides(self, name, guard):
        def asg(body):
            return any(isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, ast.Store) for b in body for t in ast.walk(b))
        return isinstance(guard, ast.If) and guard.orelse and asg(guard.body) and asg(guard.orelse)


def first_time(g, name, s):
    """`if x is None: x = first  else: x = combined`: the assignment cannot overwrite anything."""
    for t, pol, body in ((g.test, True, g.body), (g.test, False, g.orelse)) if isinstance(g, ast.If) else ():
        if not any(x is s for b in body for x in ast.walk(b)):
            continue
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, pol = t.operand, not pol
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and is_name(t.left, {name}) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return pol == isinstance(t.ops[0], (ast.Is, ast.Eq))
        if is_name(t, {name}):
            return not pol
    return False


def check_lost_updates(ctx, prog, f):
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        li = LoopInfo(f, loop)
        ctx.count("loops")
        has_break = any(isinstance(s, (ast.Break, ast.Return)) for s in li.stmts)
        for s in li.stmts:
            if not isinstance(s, (ast.Assign, ast.AnnAssign)):
                continue
            names = []
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.append(x.id)
            for name in names:
                use = li.live_after(name, s)
                if use is None or has_break:
                    continue
                ctx.count("loop_results")
                g = li.conditional(s)
                if g is not None and (not li.assigned_on_all_sides(name, g) or first_time(g, name, s)):
                    continue
                if g is None and li.skipped_before(s):
                    continue
                if not any(li.depends_on_target(v) for v in [s.value] + li.fills(name, s)):
                    continue
                if not li.carried(name, s, s.value):
                    yield loop, s, name


def full_slice(f, e):
    """All expressions feeding a value (flow-sensitive, inside the function)."""
    from .c06 import fslice
    return fslice(f, e).values()


def request_like(prog, f, e):
    """Does the expression come from a multi-entry request of the caller?"""
    if e is None:
        return False
    a = f.node.args
    req = {x for x in (a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None) if x}
    req |= {p for p in f.all_params if p in ("kwargs", "dims", "dim", "coords", "axes")}
    for x in full_slice(f, e):
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id in req and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Call):
                q = prog.resolve(f.module, f, n.func) or ""
                if q.endswith((".get_dim_axis_value", "._get_dx_or_spacing_and_axes")):
                    return True
    return False


def check_leaves(ctx, prog, f):
    """A loop over requested entries which always leaves in its first round."""
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        if any(isinstance(s, (ast.Return, ast.Break)) for s in loop.body) and request_like(prog, f, loop.iter):
            if not any(isinstance(s, ast.Continue) for s in stmts_in(loop.body)):
                yield loop


def check_sliced(ctx, prog, f):
    iters = [n.iter for n in walk_own(f.node) if isinstance(n, (ast.For, ast.comprehension))]
    for it in iters:
        for n in ast.walk(it):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and (n.slice.lower is not None or n.slice.upper is not None) and request_like(prog, f, n.value):
                ctx.count("sliced_requests")
                yield n
            if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) == "islice" and n.args and request_like(prog, f, n.args[0]):
                yield n


def _single(f, name, node):
    """Is the number of entries of the named request tested before the node?"""
    d = defs_of(f)
    us = d.stmt_of.get(id(node))
    if us is None:
        return False
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "len" and n.args and any(is_name(x, {name}) for x in ast.walk(n.args[0])):
            s = d.stmt_of.get(id(n))
            if s is not None and d.order[id(s)] <= d.order[id(us)] and isinstance(s, (ast.If, ast.Assert, ast.Assign)):
                return True
        # an earlier call which accepts exactly one entry
        if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("get_dim_axis_value", "check_filter_kwargs", "get_dim_value_from_kwargs"):
            s = d.stmt_of.get(id(n))
            if s is not None and d.order[id(s)] <= d.order[id(us)] and any(is_name(x, {name}) for x in ast.walk(n)) and not _multi(n):
                return True
    return False


def _multi(c):
    return any(k.arg == "allow_multiple" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in c.keywords)


def check_picks(ctx, prog, f):
    """One entry is taken from a request that may hold several."""
    a = f.node.args
    kw = a.kwarg.arg if a.kwarg else None
    names = {x for x in (kw, "kwargs" if "kwargs" in f.all_params else None) if x}
    for n in walk_own(f.node):
        root = None
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "next" and n.args:
            inner = [x for x in ast.walk(n.args[0]) if is_name(x, names)]
            if inner and not any(isinstance(x, (ast.GeneratorExp,)) for x in ast.walk(n.args[0])):
                root = inner[0].id
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "popitem":
            inner = [x for x in ast.walk(n.func.value) if is_name(x, names)]
            root = inner[0].id if inner else None
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Constant, ast.UnaryOp)) and isinstance(n.value, ast.Call) and \
                getattr(n.value.func, "id", "") in ("list", "tuple", "sorted") and n.value.args:
            arg = n.value.args[0]
            arg = arg.func.value if isinstance(arg, ast.Call) and isinstance(arg.func, ast.Attribute) and arg.func.attr in ("items", "keys", "values") else arg
            root = arg.id if is_name(arg, names) else None
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Constant, ast.UnaryOp)) and not (isinstance(n.slice, ast.Constant) and not isinstance(n.slice.value, int)):
            calls = [n.value] if isinstance(n.value, ast.Call) else [s for _, s, h in defs_of(f).reaching(n.value.id, n.value) if h == "="] if isinstance(n.value, ast.Name) else []
            for c in calls:
                if isinstance(c, ast.Call) and (prog.resolve(f.module, f, c.func) or "").endswith(".get_dim_axis_value"):
                    ctx.count("single_requests")
                    if _multi(c):
                        ln = n.value.id if isinstance(n.value, ast.Name) else None
                        if ln is None or not _single(f, ln, n):
                            yield n, "the dimensions of the request"
        if root is not None:
            ctx.count("single_requests")
            if not _single(f, root, n):
                yield n, root


MULTI = ("._get_dx_or_spacing_and_axes", "._create_size_and_axes")


def request_lists(prog):
    """Names holding one entry per requested dimension: results of the request helpers and the parameters they are passed to."""
    out = {}
    for f in prog.functions.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                q = prog.resolve(f.module, f, n.value.func) or ""
                if q.endswith(MULTI) and not any(isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 1 for a in n.value.args):
                    out.setdefault(f.qual, set()).update(x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name))
    out = {q: {x for x in v if x != "size" and not x.startswith("_")} for q, v in out.items()}
    for _ in range(4):
        for q in list(out):
            f = prog.functions[q]
            for c in walk_own(f.node):
                if isinstance(c, ast.Call):
                    t = prog.func(prog.resolve(f.module, f, c.func) or "", required=False)
                    if t is None:
                        continue
                    for p, a in list(zip(t.params, c.args)) + [(k.arg, k.value) for k in c.keywords]:
                        if p and is_name(a, out[q]):
                            out.setdefault(t.qual, set()).add(p)
    return out


def check_list_picks(ctx, prog, lists):
    for q, names in lists.items():
        f = prog.functions[q]
        for n in walk_own(f.node):
            if isinstance(n, ast.Subscript) and is_name(n.value, names) and isinstance(n.slice, (ast.Constant, ast.UnaryOp)):
                ctx.count("list_picks")
                req = {x.id for c in walk_own(f.node) if isinstance(c, ast.Call) and (prog.resolve(f.module, f, c.func) or "").endswith(MULTI)
                       for a in c.args[1:] + [k.value for k in c.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                if not any(_single(f, x, n) for x in names | req):
                    yield f, n


def check_const_stores(ctx, prog, f):
    """Stores in a loop to a slot which does not depend on the round."""
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        if not request_like(prog, f, loop.iter):
            continue
        li = LoopInfo(f, loop)
        for s in li.stmts:
            if not isinstance(s, ast.Assign) or any(isinstance(x, (ast.Break, ast.Return)) for x in li.stmts):
                continue
            for t in s.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
                    continue
                name = t.value.id
                # the container lives outside of the loop
                if any(d[0] is not None and d[0] is not s and inside(loop.body, d[0]) for d in li.d.defs.get(name, [])) or name in li.targets:
                    continue
                ctx.count("loop_stores")
                inner = [x for x in li.stmts if isinstance(x, ast.For) and inside(x.body, s)]
                if any(is_name(y, li.targets) for x in li.slice(t.slice, data_only=False, loops=False).values() for y in ast.walk(x)):
                    continue
                own = {z.id for x in inner for z in ast.walk(x.target) if isinstance(z, ast.Name)}
                if any(is_name(y, own) for y in ast.walk(t.slice)) and not (
                        any(li.depends_on_target(x.iter) for x in inner) and any(is_name(y, own) for x in li.slice(s.value).values() for y in ast.walk(x))):
                    continue
                if li.conditional(s) is not None or not li.depends_on_target(s.value):
                    continue
                if any(is_name(y, {name}) for x in li.slice(s.value).values() for y in ast.walk(x)):
                    continue
                yield loop, s, t


CUTS = {"removesuffix", "removeprefix", "split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "lower", "upper", "casefold", "replace"}


def check_cut_stores(ctx, prog, f):
    """Stores to a slot named by a shortened name of the round: several names of the request share the slot, so its earlier content has to be kept."""
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        if not request_like(prog, f, loop.iter):
            continue
        li = LoopInfo(f, loop)
        for s in li.stmts:
            if not isinstance(s, ast.Assign):
                continue
            for t in s.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
                    continue
                name = t.value.id
                if any(d[0] is not None and d[0] is not s and inside(loop.body, d[0]) for d in li.d.defs.get(name, [])) or name in li.targets:
                    continue
                key = list(li.slice(t.slice).values())
                cut = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in CUTS and any(is_name(y, li.targets) for y in ast.walk(c.func.value))
                          for x in key for c in ast.walk(x)) or any(isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Slice) and is_name(c.value, li.targets) for x in key for c in ast.walk(x))
                if not cut or not li.depends_on_target(s.value):
                    continue
                ctx.count("shared_slots")
                if any(is_name(y, {name}) for x in li.slice(s.value).values() for y in ast.walk(x)):
                    continue
                if any(isinstance(c, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops) and any(is_name(y, {name}) for y in ast.walk(c)) for x in li.stmts for c in ast.walk(x)):
                    continue
                yield loop, s, t


def _copy_of(f, name, node):
    """Dotted source of `name = dict(S)` / {**S} / S.copy()."""
    out = []
    for _, src, how in defs_of(f).reaching(name, node):
        e = src
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") == "dict" and len(e.args) == 1:
            out.append(ast.unparse(e.args[0]))
        elif isinstance(e, ast.Dict) and e.keys and e.keys[0] is None:
            out.append(ast.unparse(e.values[0]))
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
            out.append(ast.unparse(e.func.value))
    return out


def check_stale(ctx, prog, f):
    """In a loop, the entry of a working copy is rebuilt from the original container."""
    top = f
    while top.parent is not None:
        top = top.parent
    # names of nested functions called inside loops, and what their parameters are copies of
    for g in [f] + ([] if f.parent is None else []):
        in_loop_call, bases = False, {}
        if g.parent is not None:
            for h in [g.parent] + list(g.parent.children.values()):
                for loop in [n for n in walk_own(h.node) if isinstance(n, (ast.For, ast.While))]:
                    for c in ast.walk(loop):
                        if isinstance(c, ast.Call) and getattr(c.func, "id", "") == g.name:
                            in_loop_call = True
                            for p, a in zip(g.params, c.args):
                                if isinstance(a, ast.Name):
                                    for b in _copy_of(h, a.id, a):
                                        bases.setdefault(p, set()).add(b)
        for s in [n for n in walk_own(g.node) if isinstance(n, ast.Assign)]:
            for t in s.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
                    continue
                loops = [n for n in walk_own(g.node) if isinstance(n, ast.For) and inside(n.body, s)]
                src = set(_copy_of(g, t.value.id, t.value)) | bases.get(t.value.id, set())
                if not src or not (loops or in_loop_call):
                    continue
                key = ast.unparse(t.slice)
                # each key handled once: the loop variable itself, loop not nested in another
                if isinstance(t.slice, ast.Name) and len(loops) == 1 and not in_loop_call and any(is_name(x, {t.slice.id}) for x in ast.walk(loops[0].target)):
                    continue
                ctx.count("working_copies")
                feeds = [n for x in full_slice(g, s.value) for n in ast.walk(x)]
                if any(is_name(n, {t.value.id}) for n in feeds):
                    continue
                for n in feeds:
                    if isinstance(n, ast.Subscript) and ast.unparse(n.value) in src and ast.unparse(n.slice) == key:
                        yield g, s, t


def check_groups(ctx, prog, f):
    """zip(*groups.values()) stops at the shortest group."""
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "zip" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
            v = n.args[0].value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "values" and isinstance(v.func.value, ast.Name):
                for _, src, how in defs_of(f).reaching(v.func.value.id, v):
                    if isinstance(src, ast.Call) and getattr(src.func, "id", getattr(src.func, "attr", "")) == "defaultdict":
                        if not any(k.arg == "strict" for k in n.keywords):
                            yield n


def check_chains(ctx, prog, f):
    """Renaming one after another inside one container: a name which is both old and new is hit twice."""
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        if not (isinstance(loop.target, ast.Tuple) and len(loop.target.elts) == 2 and all(isinstance(x, ast.Name) for x in loop.target.elts)) or not request_like(prog, f, loop.iter):
            continue
        old, new = (x.id for x in loop.target.elts)
        li = LoopInfo(f, loop)
        ctx.count("pair_loops")
        for s in li.stmts:
            if not isinstance(s, ast.Assign):
                continue
            for t in s.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
                    continue
                name = t.value.id
                if any(d[0] is not None and inside(loop.body, d[0]) and d[0] is not s for d in li.d.defs.get(name, [])):
                    continue
                key, val = li.slice(t.slice), li.slice(s.value)
                if not any(is_name(y, {new}) for e in (key, val) for x in e.values() for y in ast.walk(x)):
                    continue
                for n in [y for e in (key, val) for x in e.values() for y in ast.walk(x)]:
                    r = None
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                        r, k = n.value, n.slice
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "index", "get") and n.args:
                        r, k = n.func.value, n.args[0]
                    # the entry stored under the new name is found again under the old name of a later round
                    if r is not None and is_name(r, {name}) and is_name(k, {old}):
                        stored_by_name = is_name(t.slice, {new}) or is_name(s.value, {new})
                        if stored_by_name:
                            yield loop, s, n


def run(ctx):
    prog = ctx.prog
    ctx.rule("Loops over requested dimensions/coordinates: every result variable used after the loop must be computed from its own previous value (or accumulated); stores must go to a slot of the "
             "round; no unconditional return/break in the first round; no slicing of the request; one entry of a request is only taken after its length was checked or by a lookup rejecting several; "
             "entries of a working copy are rebuilt from the working copy, groups of different length are not zipped to the shortest")
    ctx.assumptions += ["Conditionally assigned results are treated as searches and not judged.", "Skipping single entries by an explicit condition inside the loop is not judged."]
    for f, n in check_list_picks(ctx, prog, request_lists(prog)):
        ctx.violation(f"pick-one:{f.qual}", f"{f.where(n)}: takes one entry of the requested dimensions without testing that there is only one: `{ast.unparse(n)}`")
    for f in list(prog.functions.values()):
        if not f.module.name.startswith(SCOPE):
            continue
        ctx.count("functions")
        for loop, s, name in check_lost_updates(ctx, prog, f):
            ctx.violation(f"lost-update:{f.qual}:{name}", f"{f.where(s)}: `{name}` is overwritten in every round of the loop over `{ast.unparse(loop.iter)}` and used afterwards: only the last entry takes effect")
        for loop in check_leaves(ctx, prog, f):
            ctx.violation(f"first-only:{f.qual}", f"{f.where(loop)}: the loop over `{ast.unparse(loop.iter)}` always leaves in its first round")
        for n in check_sliced(ctx, prog, f):
            ctx.violation(f"sliced:{f.qual}", f"{f.where(n)}: only part of the request is processed: `{ast.unparse(n)}`")
        for n, what in check_picks(ctx, prog, f):
            ctx.violation(f"pick-one:{f.qual}", f"{f.where(n)}: takes one entry of {what} although the request may hold several: `{ast.unparse(n)}`")
        for loop, s, t in check_const_stores(ctx, prog, f):
            ctx.violation(f"lost-store:{f.qual}", f"{f.where(s)}: every round of the loop over `{ast.unparse(loop.iter)}` overwrites `{ast.unparse(t)}`")
        for loop, s, t in check_cut_stores(ctx, prog, f):
            ctx.violation(f"shared-slot:{f.qual}", f"{f.where(s)}: `{ast.unparse(t)}` is set anew for every name of `{ast.unparse(loop.iter)}` which shortens to the same key: what an earlier one stored is lost")
        for g, s, t in check_stale(ctx, prog, f):
            ctx.violation(f"stale-base:{g.qual}", f"{g.where(s)}: `{ast.unparse(t)}` is rebuilt from the original entry, undoing what an earlier round stored")
        for loop, s, n in check_chains(ctx, prog, f):
            ctx.violation(f"chained:{f.qual}:{ast.unparse(n)}", f"{f.where(s)}: `{ast.unparse(n)}` looks an old name up in what earlier rounds over `{ast.unparse(loop.iter)}` already renamed: names which are both old and new are lost")
        for n in check_groups(ctx, prog, f):
            ctx.violation(f"truncated:{f.qual}", f"{f.where(n)}: groups of different length are zipped to the shortest one")
    ctx.require("loops", 60)
    ctx.require("loop_results", 10)
