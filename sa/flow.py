"""Structured must/may flow analyses over one function body.

`flow(fi, gen, ...)` runs a forward must-analysis: a state is the set of facts
established on *every* path to a point.  Facts are produced by `gen(node)` for
each expression node in evaluation order; operands that may not be evaluated
(right side of and/or, branches of conditional expressions, comprehension
bodies, lambdas) do not contribute.
"""
from __future__ import annotations

import ast


def eval_order(node):
    """Nodes certainly evaluated with `node`, children first."""
    if node is None:
        return
    if isinstance(node, ast.BoolOp):
        yield from eval_order(node.values[0])
        yield node
        return
    if isinstance(node, ast.IfExp):
        yield from eval_order(node.test)
        yield node
        return
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        yield from eval_order(node.generators[0].iter)
        yield node
        return
    if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        yield node
        return
    if isinstance(node, ast.Call):
        # receiver and arguments before the call itself
        for c in [node.func] + node.args + [k.value for k in node.keywords]:
            yield from eval_order(c)
        yield node
        return
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            continue
        yield from eval_order(c)
    yield node


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a & b


class Flow:
    def __init__(self, fi, gen, kill=None, visit=None, init=frozenset(), refine=None, noreturn=None):
        self.fi, self.gen, self.kill, self.visit = fi, gen, kill, visit
        self.refine = refine          # (test, polarity, state) -> state
        self.noreturn = noreturn      # call node -> bool
        self.exits = []               # (kind, node, state) normal exits: return / fallthrough
        self.raises = []
        self.loops = []
        self.trystack = []
        end = self.block(fi.body, frozenset(init))
        if end is not None:
            self.exits.append(("end", fi.node, end))

    def expr(self, node, st):
        if st is None or node is None:
            return st
        for n in eval_order(node):
            if self.visit:
                self.visit(n, st)
            if self.kill:
                k = self.kill(n)
                if k:
                    st = frozenset(x for x in st if not k(x)) if callable(k) else st - frozenset(k)
            g = self.gen(n)
            if g:
                st = st | frozenset(g)
            if isinstance(n, ast.Call) and self.noreturn and self.noreturn(n):
                return None
        return st

    def may_raise(self, st):
        for t in self.trystack:
            t.append(st)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def cond(self, test, st):
        """(state if true, state if false)"""
        if st is None:
            return None, None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, st)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, fs = st, None
                for v in test.values:
                    t, f = self.cond(v, cur)
                    fs = meet(fs, f)
                    cur = t
                return cur, fs
            cur, ts = st, None
            for v in test.values:
                t, f = self.cond(v, cur)
                ts = meet(ts, t)
                cur = f
            return ts, cur
        if isinstance(test, ast.Name) and self.refine:
            # a condition computed beforehand: judge the expression it was computed from
            ds = defs_of(self.fi).reaching(test.id, test)
            if len(ds) == 1 and ds[0][2] == "=" and isinstance(ds[0][1], (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                t, f = self.cond(ds[0][1], st)
                return (self.refine(test, True, t) if t is not None else None), (self.refine(test, False, f) if f is not None else None)
        st = self.expr(test, st)
        if isinstance(test, ast.Constant):
            return (st, None) if test.value else (None, st)
        if self.refine:
            return self.refine(test, True, st), self.refine(test, False, st)
        return st, st

    def stmt(self, s, st):
        if self.trystack:
            self.may_raise(st)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            out = m(s, st)
        else:
            out = self.expr(s, st)
        if self.trystack and out is not None:
            self.may_raise(out)
        return out

    def s_FunctionDef(self, s, st):
        return self.expr(s, st)

    s_AsyncFunctionDef = s_FunctionDef
    s_ClassDef = s_FunctionDef

    def s_Assign(self, s, st):
        st = self.expr(s.value, st)
        for t in s.targets:
            st = self.expr(t, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            st = self.expr(s.value, st)
            st = self.expr(s.target, st)
        return st

    def s_AugAssign(self, s, st):
        st = self.expr(s.value, st)
        return self.expr(s.target, st)

    def s_Return(self, s, st):
        st = self.expr(s.value, st)
        if st is not None:
            self.exits.append(("return", s, st))
        return None

    def s_Raise(self, s, st):
        st = self.expr(s.exc, st)
        if st is not None:
            self.raises.append((s, st))
        return None

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        return meet(self.block(s.body, t) if t is not None else None,
                    self.block(s.orelse, f) if f is not None else None)

    def s_Assert(self, s, st):
        t, _ = self.cond(s.test, st)
        return t

    def _loop(self, s, st, entry, body_entry):
        self.loops.append(([], []))
        after = self.block(s.body, body_entry)
        brk, cont = self.loops.pop()
        exit_ = entry
        # falling out of the loop: zero iterations possible, so facts = entry
        if s.orelse:
            exit_ = self.block(s.orelse, exit_)
        for b in brk:
            exit_ = meet(exit_, b)
        return exit_

    def s_For(self, s, st):
        st = self.expr(s.iter, st)
        if st is None:
            return None
        b = self.expr(s.target, st)
        return self._loop(s, st, st, b)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        t, f = self.cond(s.test, st)
        return self._loop(s, st, f, t)

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1][1].append(st)
        return None

    def s_With(self, s, st):
        suppress = False
        for i in s.items:
            st = self.expr(i.context_expr, st)
            if i.optional_vars is not None:
                st = self.expr(i.optional_vars, st)
            c = i.context_expr
            f = c.func if isinstance(c, ast.Call) else c
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            suppress |= nm == "suppress"
        if st is None:
            return None
        if suppress:
            self.trystack.append([])
            out = self.block(s.body, st)
            for x in self.trystack.pop():
                out = meet(out, x)
            return out
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        self.trystack.append([st])
        out = self.block(s.body, st)
        seen = self.trystack.pop()
        exc = None
        for x in seen:
            exc = meet(exc, x)
        if out is not None:
            out = self.block(s.orelse, out)
        for h in s.handlers:
            hs = self.expr(h.type, exc) if h.type else exc
            out = meet(out, self.block(h.body, hs))
        if s.finalbody:
            # run the finally once for the normal path (its facts also hold on exceptional exits)
            if out is None:
                self.block(s.finalbody, exc)
            else:
                out = self.block(s.finalbody, out)
        return out

    s_TryStar = s_Try

    def s_Match(self, s, st):
        st = self.expr(s.subject, st)
        out, wild = None, False
        for c in s.cases:
            out = meet(out, self.block(c.body, st))
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                wild = True
        return out if wild else meet(out, st)

    def at_exit(self):
        """Facts holding at every normal exit (None when it never exits normally)."""
        out = None
        for _, _, st in self.exits:
            out = meet(out, st)
        return out


class MustCall:
    """Does a function certainly call something satisfying pred before returning?

    Follows calls to functions of the program (helpers) up to a depth."""

    def __init__(self, prog, pred, depth=4):
        self.p, self.pred, self.depth, self.memo = prog, pred, depth, {}

    def hits(self, fi, call, depth=None):
        depth = self.depth if depth is None else depth
        r = self.pred(fi, call)
        if r:
            return True
        if depth <= 0:
            return False
        q = self.p.resolve(fi.module, fi, call.func)
        g = self.p.functions.get(q) if q else None
        if g is None:
            g = self.p.method_target(fi, call)
        if g is None:
            return False
        return self.must(g, depth - 1)

    def must(self, fi, depth=None):
        depth = self.depth if depth is None else depth
        key = (fi.qual, depth)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        fl = Flow(fi, lambda n: {"hit"} if isinstance(n, ast.Call) and self.hits(fi, n, depth) else ())
        ex = fl.at_exit()
        out = ex is None or "hit" in ex
        self.memo[key] = out
        return out


def backslice(fi, exprs, want_exprs=False):
    """Flow-insensitive backward slice inside one function.

    Returns (names, attrs, calls): every identifier, dotted attribute path and
    call node that may influence the given expressions through local
    assignments, loop targets, with-targets and mutating stores."""
    defs = {}

    def add(t, src):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                add(e, src)
        elif isinstance(t, ast.Starred):
            add(t.value, src)
        elif isinstance(t, ast.Name):
            defs.setdefault(t.id, []).append(src)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = t
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name):
                defs.setdefault(r.id, []).append(src)
                if isinstance(t, ast.Subscript):
                    defs[r.id].append(t.slice)

    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        add(a, b)
                else:
                    add(t, n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            add(n.target, n.value)
        elif isinstance(n, ast.NamedExpr):
            add(n.target, n.value)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
            add(n.target, n.iter)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    add(i.optional_vars, i.context_expr)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
            c = n.value
            if c.func.attr in ("append", "extend", "insert", "update", "add", "setdefault"):
                for a in list(c.args) + [k.value for k in c.keywords]:
                    add(c.func.value, a)
    names, attrs, calls, used = set(), set(), [], []
    todo, seen = list(exprs), set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        used.append(e)
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if n.id not in names:
                    names.add(n.id)
                    todo.extend(defs.get(n.id, []))
            elif isinstance(n, ast.Attribute):
                d = _dot(n)
                attrs.add(d if d else "?." + n.attr)
            elif isinstance(n, ast.Call):
                calls.append(n)
    if want_exprs:
        return names, attrs, calls, used
    return names, attrs, calls


def _dot(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return ".".join([n.id] + parts[::-1])
    return None


# ------------------------------------------------------------ reaching definitions

def _blocks(body, path, out):
    for i, s in enumerate(body):
        out[id(s)] = path + [(id(body), i)]
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                _blocks(sub, out[id(s)], out)
        for h in getattr(s, "handlers", []) or []:
            _blocks(h.body, out[id(s)], out)
        for c in getattr(s, "cases", []) or []:
            _blocks(c.body, out[id(s)], out)


def _flat(body):
    for s in body:
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                yield from _flat(sub)
        for h in getattr(s, "handlers", []) or []:
            yield from _flat(h.body)
        for c in getattr(s, "cases", []) or []:
            yield from _flat(c.body)


class Defs:
    """Syntactic reaching definitions of local names inside one function."""

    def __init__(self, fi):
        self.fi = fi
        self.pos, self.order, self.stmt_of, self.loops = {}, {}, {}, {}
        _blocks(fi.body, [], self.pos)
        stack = []
        for k, s in enumerate(_flat(fi.body)):
            self.order[id(s)] = k
            hdr = [s] if not hasattr(s, "body") or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else self._header(s)
            for h in hdr:
                for n in ast.walk(h):
                    self.stmt_of.setdefault(id(n), s)
        self.stmts = list(_flat(fi.body))
        self.defs = {}
        for s in self.stmts:
            for name, src, how in self._targets(s):
                self.defs.setdefault(name, []).append((s, src, how))

    @staticmethod
    def _header(s):
        out = []
        for f in ("test", "iter", "target", "subject"):
            v = getattr(s, f, None)
            if v is not None:
                out.append(v)
        for i in getattr(s, "items", []) or []:
            out.append(i.context_expr)
            if i.optional_vars is not None:
                out.append(i.optional_vars)
        for h in getattr(s, "handlers", []) or []:
            if h.type is not None:
                out.append(h.type)
        return out

    def _targets(self, s):
        def tgt(t, src, how="="):
            if isinstance(t, ast.Name):
                yield t.id, src, how
            elif isinstance(t, ast.Starred):
                yield from tgt(t.value, src, "*")
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + src.elts):
                    for a, b in zip(t.elts, src.elts):
                        yield from tgt(a, b, how)
                else:
                    for i, a in enumerate(t.elts):
                        yield from tgt(a, src, ("item", i) if how == "=" else how)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                yield from tgt(t, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            yield from tgt(s.target, s.value)
        elif isinstance(s, ast.AugAssign):
            yield from tgt(s.target, s.value, "aug")
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            yield from tgt(s.target, s.iter, "iter")
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if i.optional_vars is not None:
                    yield from tgt(i.optional_vars, i.context_expr, "with")
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                if h.name:
                    yield h.name, h.type, "except"
        for h in ([s] if not hasattr(s, "body") else self._header(s)):
            if isinstance(h, (ast.FunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(h):
                if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    yield n.target.id, n.value, "="

    def reaching(self, name, use):
        """[(stmt, source expression, how)] that may reach the use node; a None
        stmt entry stands for the value at function entry (parameter)."""
        us = self.stmt_of.get(id(use)) or (use if id(use) in self.pos else None)
        ds = self.defs.get(name, [])
        if us is None:
            return ds or [(None, None, "entry")]
        up, uo = self.pos[id(us)], self.order[id(us)]
        blocks = dict(up)
        out, killer = [], None
        for d in ds:
            s = d[0]
            o = self.order[id(s)]
            compound = hasattr(s, "body")
            dominated = self.pos[id(s)][-1][0] in blocks and (not compound or d[2] in ("with", "iter") and any(id(b) == x for b in [s.body] for x in blocks) or d[2] == "with" or (compound and d[2] == "="))
            if o < uo and dominated and d[2] not in ("aug",) and (not (d[2] == "iter") or any(id(s.body) == x for x in blocks)):
                killer = d
        ko = self.order[id(killer[0])] if killer else -1
        ul = self._loops(us)
        for d in ds:
            o = self.order[id(d[0])]
            if d is killer or (ko < o < uo and not self._exclusive(d[0], us)):
                if not self._overwritten(d, ds, o, uo):
                    out.append(d)
            elif o >= uo and (d[0] is not us or d[2] == "aug"):
                # carried around a common loop, unless killed inside that loop before the use
                common = [l for l in ul if l in self._loops(d[0])]
                if common and not (killer and any(l in self._loops(killer[0]) for l in common)):
                    out.append(d)
            elif d[0] is us and ul and not (killer and any(l in self._loops(killer[0]) for l in ul)):
                out.append(d)
        if killer is None and (name in self.fi.all_params or not ds):
            out.append((None, None, "entry"))
        return out

    def _overwritten(self, d, ds, o, uo):
        """Is the definition followed, in an enclosing block, by another one before the use?"""
        blocks = [b for b, _ in self.pos[id(d[0])]]
        for e in ds:
            if e is not d and e[0] is not d[0] and not hasattr(e[0], "body") and e[2] != "aug" and o < self.order[id(e[0])] < uo:
                if self.pos[id(e[0])][-1][0] in blocks and self._loops(e[0]) == self._loops(d[0]):
                    return True
        return False

    def _loops(self, s):
        """ids of loop bodies enclosing the statement"""
        if not self.loops:
            for x in self.stmts:
                if isinstance(x, (ast.For, ast.While, ast.AsyncFor)):
                    self.loops[id(x.body)] = x
        return [b for b, _ in self.pos[id(s)] if b in self.loops]

    def _exclusive(self, a, b):
        """On different branches of the same if?"""
        pa, pb = self.pos[id(a)], self.pos[id(b)]
        for i in range(min(len(pa), len(pb))):
            if pa[i][0] != pb[i][0]:
                # same parent statement, different blocks
                par = None
                if i:
                    blk, idx = pa[i - 1]
                    if pb[i - 1] == (blk, idx):
                        par = next((s for s in self.stmts if self.pos[id(s)] == pa[:i]), None)
                return isinstance(par, ast.If)
            if pa[i][1] != pb[i][1]:
                return False
        return False


_DEFS = {}


def defs_of(fi):
    k = id(fi.node)
    if k not in _DEFS or _DEFS[k][0] is not fi.node:
        _DEFS[k] = (fi.node, Defs(fi))
    return _DEFS[k][1]
