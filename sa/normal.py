"""Procedure integration: source is brought into the shape the rules were written for.

Functions, local temporaries and constants which the reviewed tree (vocabulary.json) does not know
are integrated where they are used, as a compiler would: a helper's body replaces its calls, a
temporary its single use, a constant its name.  Every step keeps the meaning of the program, so it
may be applied to some names and not to others; where a step is not known to be safe the source is
left as it is and the rules follow the call themselves.
"""
from __future__ import annotations

import ast
import copy
import json
from pathlib import Path

VOCAB = Path(__file__).with_name("vocabulary.json")
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.ClassDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MAX_STMTS = 60
ROUNDS = 6


def vocabulary():
    return json.loads(VOCAB.read_text()) if VOCAB.exists() else None


def own(body):
    """Nodes of a body without those of nested definitions (their headers excluded too)."""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, SCOPES):
            continue
        st.extend(ast.iter_child_nodes(n))


def walk_all(body):
    for b in body:
        yield from ast.walk(b)


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]


def comp_targets(body):
    out = {}
    for n in walk_all(body):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out[id(x)] = x.id
    return out


def stored(body):
    """Local names bound in a body (comprehension variables excluded)."""
    ct = comp_targets(body)
    out = set()
    for n in own(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in ct:
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, FN + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {x.asname or x.name.split(".")[0] for x in n.names}
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


def make_vocabulary(trees):
    out = {}
    for name, tree in trees.items():
        v = out[name] = {"funcs": {}, "names": [], "attrs": {}, "fors": {}}

        def go(body, prefix, top):
            for s in flat(body):
                if isinstance(s, FN):
                    v["funcs"].setdefault(prefix + s.name, [])
                    v["funcs"][prefix + s.name] = sorted(set(v["funcs"][prefix + s.name]) | stored(s.body))
                    fors = sorted({for_text(n) for n in own(s.body) if isinstance(n, ast.For)})
                    if fors:
                        v["fors"][prefix + s.name] = fors
                    go(s.body, prefix + s.name + ".", False)
                elif isinstance(s, ast.ClassDef):
                    v["attrs"][prefix + s.name] = sorted(class_names(s))
                    go(s.body, prefix + s.name + ".", False)
        go(tree.body, "", True)
        v["names"] = sorted(stored(tree.body))
    return out


def for_text(n):
    return f"{ast.unparse(n.target)} in {ast.unparse(n.iter)}"


def class_names(c):
    return {t.id for s in flat(c.body) for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []) if isinstance(t, ast.Name)}


def flat(body):
    for s in body:
        yield s
        if isinstance(s, SCOPES):
            continue
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(getattr(s, fld, None), list):
                yield from flat(getattr(s, fld))
        for h in getattr(s, "handlers", None) or []:
            yield from flat(h.body)
        for c in getattr(s, "cases", None) or []:
            yield from flat(c.body)


def N(x, at=None):
    n = ast.Name(x, ast.Load())
    return ast.copy_location(n, at) if at is not None else n


def assign(name, value, at):
    a = ast.Assign([ast.Name(name, ast.Store())], value)
    ast.copy_location(a, at)
    ast.copy_location(a.targets[0], at)
    return a


def chain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e if isinstance(e, ast.Name) else None


def plain(e):
    return isinstance(e, (ast.Constant, ast.Name)) or chain(e) is not None


def only_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def has(body, kinds):
    return any(isinstance(n, kinds) for n in own(body))


class Subst(ast.NodeTransformer):
    """Replaces loaded names by expressions and renames stored ones."""

    def __init__(self, exprs, names):
        self.e, self.n = exprs, names
        self.hidden = []

    def visit_Name(self, n):
        if any(n.id in h for h in self.hidden):
            return n
        if n.id in self.n:
            return ast.copy_location(ast.Name(self.n[n.id], n.ctx), n)
        if isinstance(n.ctx, ast.Load) and n.id in self.e:
            return copy.deepcopy(self.e[n.id])
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.n:
            n.name = self.n[n.name]
        return self.generic_visit(n)

    def visit_Import(self, n):
        for x in n.names:
            b = x.asname or x.name.split(".")[0]
            if b in self.n:
                x.asname = self.n[b]
        return n
    visit_ImportFrom = visit_Import

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        self.hidden.append(set(params(n)))
        n.body = self.visit(n.body)
        self.hidden.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [x and self.visit(x) for x in n.args.kw_defaults]
        if n.name in self.n:
            n.name = self.n[n.name]
        self.hidden.append(set(params(n)) | stored(n.body))
        n.body = [self.visit(x) for x in n.body]
        self.hidden.pop()
        return n

    def _comp(self, n):
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        n.generators[0].iter = self.visit(n.generators[0].iter)
        self.hidden.append(bound)
        for i, g in enumerate(n.generators):
            if i:
                g.iter = self.visit(g.iter)
            g.ifs = [self.visit(x) for x in g.ifs]
        for fld in ("elt", "key", "value"):
            if hasattr(n, fld):
                setattr(n, fld, self.visit(getattr(n, fld)))
        self.hidden.pop()
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class Fail(Exception):
    pass


def terminates(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and terminates(s.body) and terminates(s.orelse)
    return False


def convert(block, target, at, budget):
    """Turn the returns of a body into assignments of `target` (a function of the value)."""
    out = []
    for i, s in enumerate(block):
        budget[0] -= 1
        if budget[0] < 0:
            raise Fail
        if isinstance(s, ast.Return):
            out += target(s.value, s)
            return out
        rest = block[i + 1:]
        if not has([s], (ast.Return,)):
            out.append(s)
            if isinstance(s, ast.Raise):
                return out
            continue
        if isinstance(s, ast.If):
            b = s.body if terminates(s.body) else s.body + copy.deepcopy(rest)
            o = s.orelse if terminates(s.orelse) else s.orelse + rest
            n = ast.If(s.test, convert(b, target, at, budget), convert(o, target, at, budget))
            if not n.body:
                n.body = [ast.copy_location(ast.Pass(), s)]
            out.append(ast.copy_location(n, s))
            return out
        if isinstance(s, ast.With) and not rest:
            n = ast.With(s.items, convert(s.body, target, at, budget))
            out.append(ast.copy_location(n, s))
            return out
        if isinstance(s, ast.Try) and not s.finalbody and not has(s.finalbody, (ast.Return,)):
            if rest and not (terminates(s.orelse or s.body) and all(terminates(h.body) for h in s.handlers)):
                # handlers which leave, and a body which falls through to the rest
                if not has(s.body, (ast.Return,)) and all(terminates(h.body) for h in s.handlers):
                    n = ast.Try(s.body, [ast.copy_location(ast.ExceptHandler(h.type, h.name, convert(h.body, target, at, budget)), h) for h in s.handlers], convert(s.orelse + rest, target, at, budget), [])
                    out.append(ast.copy_location(n, s))
                    return out
                raise Fail
            n = ast.Try(convert(s.body, target, at, budget) if not s.orelse else s.body,
                        [ast.copy_location(ast.ExceptHandler(h.type, h.name, convert(h.body, target, at, budget)), h) for h in s.handlers],
                        convert(s.orelse, target, at, budget) if s.orelse else [], [])
            out.append(ast.copy_location(n, s))
            return out
        raise Fail
    out += target(None, at)
    return out


class Helper:
    def __init__(self, node, cls, kind):
        self.node, self.cls, self.kind = node, cls, kind   # kind: function | method | class | static | nested
        self.body = only_doc(node.body)

    @property
    def usable(self):
        a = self.node.args
        return not (has(self.body, (ast.Global, ast.Nonlocal)) or len(list(flat(self.body))) > MAX_STMTS
                    or any(isinstance(n, ast.Name) and n.id in ("super", "locals", "vars", "__class__") for n in walk_all(self.body))
                    or any(isinstance(n, ast.Call) and calls_name(n) == self.node.name for n in walk_all(self.body)))


def calls_name(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


class ModuleNormal:
    def __init__(self, tree, vocab):
        self.tree, self.v = tree, vocab
        self.k = 0
        self.helpers = {}         # name -> Helper (module level)
        self.methods = {}         # class name -> {name: Helper}
        self.bases = {}
        self.collect()

    # -- what is new
    def collect(self):
        known = self.v["funcs"]
        for s in self.tree.body:
            if isinstance(s, FN) and s.name not in known and not s.decorator_list and isinstance(s, ast.FunctionDef):
                h = Helper(s, None, "function")
                if h.usable:
                    self.helpers[s.name] = h
            elif isinstance(s, ast.ClassDef):
                self.bases[s.name] = [b.id for b in s.bases if isinstance(b, ast.Name)]
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and f"{s.name}.{m.name}" not in known and s.name in self.v["attrs"] and not (m.name.startswith("__") and m.name.endswith("__")):
                        deco = [d.id for d in m.decorator_list if isinstance(d, ast.Name)]
                        if len(deco) != len(m.decorator_list) or deco not in ([], ["staticmethod"], ["classmethod"]):
                            continue
                        h = Helper(m, s.name, {(): "method", ("staticmethod",): "static", ("classmethod",): "class"}[tuple(deco)])
                        if h.usable:
                            self.methods.setdefault(s.name, {})[m.name] = h

    def constants(self):
        """New module or class constants, by name."""
        out, cls = {}, {}

        def const(e):
            if isinstance(e, ast.Constant):
                return True
            if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
                return all(const(x) for x in e.elts)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "frozenset" and len(e.args) == 1:
                return const(e.args[0])
            return isinstance(e, ast.UnaryOp) and const(e.operand)
        counts = {}
        for n in own(self.tree.body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                counts[n.id] = counts.get(n.id, 0) + 1
        for s in self.tree.body:
            t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
            if isinstance(t, ast.Name) and t.id not in self.v["names"] and counts.get(t.id) == 1 and const(s.value) and not any(isinstance(n, ast.Global) and t.id in n.names for n in ast.walk(self.tree)):
                out[t.id] = s.value
        for c in self.tree.body:
            if isinstance(c, ast.ClassDef) and c.name in self.v["attrs"]:
                for s in c.body:
                    t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None
                    if isinstance(t, ast.Name) and t.id not in self.v["attrs"][c.name] and const(s.value):
                        cls.setdefault(c.name, {})[t.id] = s.value
        return out, cls

    def put_constants(self):
        consts, cls = self.constants()
        if not consts and not cls:
            return
        me = self

        class T(ast.NodeTransformer):
            def __init__(self):
                self.hide = []
                self.cls = []

            def visit_ClassDef(self, n):
                self.cls.append(n.name)
                self.generic_visit(n)
                self.cls.pop()
                return n

            def visit_FunctionDef(self, n):
                self.hide.append(set(params(n)) | stored(n.body))
                self.generic_visit(n)
                self.hide.pop()
                return n

            def visit_Lambda(self, n):
                self.hide.append(set(params(n)))
                self.generic_visit(n)
                self.hide.pop()
                return n

            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Load) and n.id in consts and not any(n.id in h for h in self.hide):
                    return fix(copy.deepcopy(consts[n.id]), n)
                return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                if self.cls and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", self.cls[-1]):
                    e = cls.get(self.cls[-1], {}).get(n.attr)
                    if e is not None:
                        return fix(copy.deepcopy(e), n)
                return n
        new = []
        for s in self.tree.body:
            new.append(T().visit(s) if isinstance(s, SCOPES) or isinstance(s, (ast.Assign, ast.AnnAssign)) and not any(s.value is v for v in consts.values()) else s)
        self.tree.body = new

    # -- integration of helpers
    def run(self):
        self.put_constants()
        if True:
            for _ in range(ROUNDS):
                self.changed = False
                for s in list(self.tree.body):
                    if isinstance(s, FN):
                        self.function(s, None, s.name)
                    elif isinstance(s, ast.ClassDef):
                        for m in s.body:
                            if isinstance(m, FN):
                                self.function(m, s.name, f"{s.name}.{m.name}")
                if not self.changed:
                    break
        self.drop()
        self.temps()
        ast.fix_missing_locations(self.tree)

    def fresh(self, base):
        self.k += 1
        return f"{base}__h{self.k}"

    def function(self, f, cls, qual, outer=()):
        nested = {}
        if qual in self.v["funcs"]:
            for s in flat(f.body):
                if isinstance(s, ast.FunctionDef) and f"{qual}.{s.name}" not in self.v["funcs"] and not s.decorator_list:
                    h = Helper(s, None, "nested")
                    if h.usable and s is not f and s in f.body:
                        nested[s.name] = h
        ctx = Context(self, f, cls, qual, nested, outer)
        f.body = ctx.block(f.body)
        if ctx.changed:
            self.changed = True
            # nested helpers nobody refers to any more
            for n, h in nested.items():
                refs = [x for x in walk_all([b for b in f.body if b is not h.node]) if isinstance(x, ast.Name) and x.id == n]
                if not refs:
                    f.body = [b for b in f.body if b is not h.node] or [ast.copy_location(ast.Pass(), f)]
        for s in list(flat(f.body)):
            if isinstance(s, FN):
                self.function(s, cls, f"{qual}.{s.name}", outer + (f,))

    def drop(self):
        """Remove integrated helpers nobody refers to any more."""
        while True:
            gone = False
            for n, h in list(self.helpers.items()):
                if not n.startswith("_"):
                    continue
                refs = [x for s in self.tree.body if s is not h.node for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == n or isinstance(x, ast.Constant) and x.value == n]
                if not refs and h.node in self.tree.body and n not in self.external:
                    self.tree.body.remove(h.node)
                    del self.helpers[n]
                    gone = True
            for c in self.tree.body:
                if not isinstance(c, ast.ClassDef):
                    continue
                for n, h in list(self.methods.get(c.name, {}).items()):
                    if not n.startswith("_"):
                        continue
                    refs = [x for s in self.tree.body for x in self._walk_but(s, h.node) if isinstance(x, ast.Attribute) and x.attr == n or isinstance(x, ast.Constant) and x.value == n]
                    if not refs and h.node in c.body and n not in self.external:
                        c.body.remove(h.node)
                        if not c.body:
                            c.body.append(ast.copy_location(ast.Pass(), c))
                        del self.methods[c.name][n]
                        gone = True
            if not gone:
                return

    external = frozenset()

    @staticmethod
    def _walk_but(n, skip):
        st = [n]
        while st:
            x = st.pop()
            if x is skip:
                continue
            yield x
            st.extend(ast.iter_child_nodes(x))

    # -- temporaries
    def temps(self):
        def go(body, prefix):
            for s in flat(body):
                if isinstance(s, FN):
                    q = prefix + s.name
                    go(s.body, q + ".")
                    known = self.v["funcs"].get(q)
                    if known is not None:
                        Temps(s, set(known), set(self.v.get("fors", {}).get(q, []))).run()
                elif isinstance(s, ast.ClassDef):
                    go(s.body, prefix + s.name + ".")
        go(self.tree.body, "")


def fix(e, at):
    for n in ast.walk(e):
        if hasattr(n, "lineno"):
            n.lineno, n.end_lineno = at.lineno, getattr(at, "end_lineno", at.lineno)
            n.col_offset, n.end_col_offset = at.col_offset, getattr(at, "end_col_offset", at.col_offset)
    return e


class Context:
    """Integrates helper calls in one function."""

    def __init__(self, m, f, cls, qual, nested, outer):
        self.m, self.f, self.cls, self.qual, self.nested = m, f, cls, qual, nested
        self.outer = outer
        self.changed = False
        self.done = []        # bodies integrated but not yet part of the function

    def used(self):
        out = set(params(self.f)) | {n.id for b in self.done for n in ast.walk(b) if isinstance(n, ast.Name)}
        for n in walk_all(self.f.body):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, FN):
                out.add(n.name)
                out |= set(params(n))
            elif isinstance(n, ast.Lambda):
                out |= set(params(n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {x.asname or x.name.split(".")[0] for x in n.names}
        for g in self.outer:
            out |= set(params(g)) | stored(g.body)
        return out

    def find(self, c):
        """(helper, receiver) of a call."""
        fn = c.func
        if isinstance(fn, ast.Name):
            h = self.nested.get(fn.id)
            if h is not None:
                return h, None
            h = self.m.helpers.get(fn.id)
            if h is not None and fn.id not in stored(self.f.body) and fn.id not in params(self.f) and h.node is not self.f and not any(fn.id in stored(g.body) for g in self.outer):
                return h, None
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            todo, seen = [], set()
            if fn.value.id in ("self", "cls") and self.cls:
                todo = [self.cls]
            elif fn.value.id in self.m.methods or fn.value.id in self.m.bases:
                todo = [fn.value.id]
            while todo:
                k = todo.pop(0)
                if k in seen:
                    continue
                seen.add(k)
                h = self.m.methods.get(k, {}).get(fn.attr)
                if h is not None and h.node is not self.f:
                    # an override in a subclass makes the target unclear
                    if any(fn.attr in d for c2, d in self.m.methods.items() if c2 != k and (self.below(c2, k) or self.below(k, c2))):
                        return None, None
                    if h.kind == "method" and fn.value.id not in ("self",):
                        return None, None
                    return h, fn.value
                todo += self.m.bases.get(k, [])
        return None, None

    def below(self, c, top):
        """Does a class of the module inherit from the other one?"""
        todo, seen = [c], set()
        while todo:
            k = todo.pop()
            if k == top:
                return True
            if k not in seen:
                seen.add(k)
                todo += self.m.bases.get(k, [])
        return False

    def block(self, body):
        out = []
        for s in body:
            out.extend(self.stmt(s))
        return out

    def stmt(self, s):
        if isinstance(s, SCOPES):
            return [s]
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(getattr(s, fld, None), list):
                setattr(s, fld, self.block(getattr(s, fld)))
        for h in getattr(s, "handlers", None) or []:
            h.body = self.block(h.body)
        for c in getattr(s, "cases", None) or []:
            c.body = self.block(c.body)
        # whole-statement calls
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign)) and isinstance(v, ast.Call):
            h, recv = self.find(v)
            if h is not None:
                r = self.whole(s, v, h, recv)
                if r is not None:
                    self.changed = True
                    return r
        if isinstance(s, ast.Expr) and isinstance(v, ast.YieldFrom) and isinstance(v.value, ast.Call):
            h, recv = self.find(v.value)
            if h is not None and has(h.body, (ast.Yield, ast.YieldFrom)) and not has(h.body, (ast.Return,)):
                r = self.expand(v.value, h, recv, s)
                if r is not None:
                    self.changed = True
                    return r[0] + r[1]
        # calls inside the header of the statement
        pre = self.header(s)
        return pre + [s]

    # header expressions of a statement
    def header(self, s):
        pre = []
        fields = {ast.If: ["test"], ast.While: ["test"], ast.For: ["iter"], ast.Return: ["value"], ast.Assign: ["value", "targets"], ast.AnnAssign: ["value"],
                  ast.AugAssign: ["value"], ast.Expr: ["value"], ast.Raise: ["exc", "cause"], ast.Assert: ["test", "msg"], ast.With: ["items"], ast.Match: ["subject"], ast.Delete: ["targets"]}.get(type(s), [])
        uncond = not isinstance(s, (ast.While, ast.Assert))
        for fld in fields:
            v = getattr(s, fld)
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.withitem):
                        x.context_expr = self.expr(x.context_expr, s, pre, uncond and i == 0)
                    else:
                        v[i] = self.expr(x, s, pre, uncond)
            elif v is not None:
                setattr(s, fld, self.expr(v, s, pre, uncond))
        return pre

    def expr(self, e, s, pre, uncond):
        """Integrate calls below e; statements may be put in front where evaluation is unconditional."""
        if isinstance(e, ast.Lambda):
            e.body = self.expr(e.body, s, pre, False)
            return e
        if isinstance(e, COMP):
            for i, g in enumerate(e.generators):
                g.iter = self.expr(g.iter, s, pre, uncond and i == 0)
                g.ifs = [self.expr(x, s, pre, False) for x in g.ifs]
            for fld in ("elt", "key", "value"):
                if getattr(e, fld, None) is not None:
                    setattr(e, fld, self.expr(getattr(e, fld), s, pre, False))
            return e
        if isinstance(e, ast.BoolOp):
            e.values = [self.expr(x, s, pre, uncond and i == 0) for i, x in enumerate(e.values)]
            return e
        if isinstance(e, ast.IfExp):
            e.test = self.expr(e.test, s, pre, uncond)
            e.body = self.expr(e.body, s, pre, False)
            e.orelse = self.expr(e.orelse, s, pre, False)
            return e
        for fld, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                setattr(e, fld, self.expr(v, s, pre, uncond))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.expr):
                        v[i] = self.expr(x, s, pre, uncond)
                    elif isinstance(x, ast.keyword):
                        x.value = self.expr(x.value, s, pre, uncond)
        if isinstance(e, ast.Call):
            h, recv = self.find(e)
            if h is not None and not has(h.body, (ast.Yield, ast.YieldFrom)):
                if len(h.body) == 1 and isinstance(h.body[0], ast.Return) and h.body[0].value is not None:
                    r = self.expand(e, h, recv, s, hoist=uncond)
                    if r is not None:
                        self.changed = True
                        pre.extend(r[0])
                        return fix(r[1][0].value, e)
                elif uncond:
                    r = self.expand(e, h, recv, s)
                    if r is not None:
                        try:
                            t = self.m.fresh("ret")
                            body = convert(r[1], lambda v, at: [assign(t, v or ast.copy_location(ast.Constant(None), at), at)], s, [3 * MAX_STMTS])
                        except Fail:
                            return e
                        self.changed = True
                        if len(body) >= 1 and isinstance(body[-1], ast.Assign) and body[-1].targets[0].id == t and sum(isinstance(x, ast.Name) and x.id == t for x in walk_all(body)) == 1:
                            pre.extend(r[0] + body[:-1])
                            return body[-1].value
                        pre.extend(r[0] + body)
                        return N(t, e)
        return e

    def whole(self, s, call, h, recv):
        gen = has(h.body, (ast.Yield, ast.YieldFrom))
        if gen:
            return None
        for a in call.args + [k.value for k in call.keywords]:
            if any(isinstance(n, ast.Call) and self.find(n)[0] is not None for n in ast.walk(a)):
                return None
        if len(h.body) == 1 and isinstance(h.body[0], ast.Return) and h.body[0].value is not None:
            return None     # header() does it
        same = set()
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            rets = [n for n in own(h.body) if isinstance(n, ast.Return)]
            if isinstance(t, ast.Name) and all(isinstance(r.value, ast.Name) and r.value.id == t.id for r in rets):
                same = {t.id}
            elif isinstance(t, (ast.Tuple, ast.List)) and rets and all(isinstance(x, ast.Name) for x in t.elts) and all(isinstance(r.value, ast.Tuple) and len(r.value.elts) == len(t.elts) for r in rets):
                same = {x.id for i, x in enumerate(t.elts) if all(isinstance(r.value.elts[i], ast.Name) and r.value.elts[i].id == x.id for r in rets)}
        r = self.expand(call, h, recv, s, same=same, tail=isinstance(s, ast.Return))
        if r is None:
            return None
        pre, body = r
        try:
            if isinstance(s, ast.Return):
                if not terminates(body):
                    body = body + [ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s)]
                return pre + body
            if isinstance(s, ast.Expr):
                out = convert(body, lambda v, at: [ast.copy_location(ast.Expr(v), at)] if v is not None and not isinstance(v, (ast.Constant, ast.Name)) else [], s, [3 * MAX_STMTS])
                return pre + (out or [ast.copy_location(ast.Pass(), s)])

            def target(v, at):
                v = v if v is not None else ast.copy_location(ast.Constant(None), at)
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = s.targets[0]
                    if isinstance(t, ast.Name) and isinstance(v, ast.Name) and v.id == t.id:
                        return []
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + v.elts):
                        tn = [x.id if isinstance(x, ast.Name) else None for x in t.elts]
                        pairs = [(a, b) for a, b in zip(t.elts, v.elts) if not (isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id == b.id)]
                        later = [{n.id for n in ast.walk(b) if isinstance(n, ast.Name)} for _, b in pairs]
                        if None not in tn and not any(pairs[i][0].id in later[j] for i in range(len(pairs)) for j in range(i + 1, len(pairs))):
                            return [ast.copy_location(ast.Assign([copy.deepcopy(a)], b), at) for a, b in pairs]
                if isinstance(s, ast.AnnAssign):
                    return [ast.copy_location(ast.AnnAssign(copy.deepcopy(s.target), s.annotation, v, s.simple), at)]
                return [ast.copy_location(ast.Assign(copy.deepcopy(s.targets), v), at)]
            return (pre + convert(body, target, s, [3 * MAX_STMTS])) or [ast.copy_location(ast.Pass(), s)]
        except Fail:
            return None

    def expand(self, call, h, recv, s, hoist=True, same=frozenset(), tail=False):
        """(statements binding arguments, body of the helper with its names replaced)"""
        a = h.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bind = {}
        if h.kind in ("method", "class"):
            if not names:
                return None
            bind[names[0]] = recv if h.kind == "method" or recv.id == "cls" else (ast.copy_location(ast.Call(N("type", recv), [recv], []), recv) if recv.id == "self" else recv)
            if h.kind == "class" and recv.id == "self":
                bind[names[0]] = recv
            names = names[1:]
        pos = list(call.args)
        if any(isinstance(x, ast.Starred) for x in pos):
            if a.vararg and len(pos) and isinstance(pos[-1], ast.Starred) and not any(isinstance(x, ast.Starred) for x in pos[:-1]) and len(pos) - 1 == len(names):
                bind[a.vararg.arg] = pos[-1].value
                pos = pos[:-1]
            else:
                return None
        elif a.vararg:
            bind[a.vararg.arg] = fix(ast.Tuple(pos[len(names):], ast.Load()), call) if len(pos) > len(names) else fix(ast.Tuple([], ast.Load()), call)
            pos = pos[:len(names)]
        if len(pos) > len(names):
            return None
        for n, v in zip(names, pos):
            bind[n] = v
        extra = []
        for k in call.keywords:
            if k.arg is None or k.arg not in names + kwonly:
                extra.append(k)
            elif k.arg in bind:
                return None
            else:
                bind[k.arg] = k.value
        if a.kwarg:
            if len(extra) == 1 and extra[0].arg is None:
                bind[a.kwarg.arg] = extra[0].value
            else:
                bind[a.kwarg.arg] = fix(ast.Dict([ast.Constant(k.arg) if k.arg else None for k in extra], [k.value for k in extra]), call)
        elif extra:
            if len(extra) == 1 and extra[0].arg is None and all(n in bind for n in names + kwonly) is False:
                return None
            return None
        dfl = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1])) | {x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        for n in names + kwonly:
            if n not in bind:
                if n not in dfl:
                    return None
                bind[n] = copy.deepcopy(dfl[n])
        body = copy.deepcopy(h.body)
        local = stored(body)
        used = self.used()
        free = {n.id for n in walk_all(body) if isinstance(n, ast.Name)} - local - set(bind)
        ct = set(comp_targets(body).values())
        if h.kind != "nested":
            # names of the module the caller hides
            hid = set(params(self.f)) | stored(self.f.body) | stored(self.done) | set().union(*[set(params(g)) | stored(g.body) for g in self.outer])
            if (free - ct) & hid:
                return None
        # functions of the helper keep its variables: the caller must not reuse them
        inner = [x for b in body for x in ast.walk(b) if isinstance(x, FN + (ast.Lambda,))]
        if inner:
            seen = {y.id for x in inner for y in ast.walk(x) if isinstance(y, ast.Name)}
            if any(isinstance(x, (ast.For, ast.While)) for x in walk_all(self.f.body)) and seen & (set(bind) | local):
                return None
            re = stored(self.f.body) | stored(self.done)
            if any(n in seen and {y.id for y in ast.walk(v) if isinstance(y, ast.Name)} & re for n, v in bind.items()):
                return None
        pre, exprs, ren = [], {}, {}
        counts, deep = {}, {}
        for n in walk_all(body):
            if isinstance(n, ast.Name):
                counts[n.id] = counts.get(n.id, 0) + 1
        argn = {x.id for v in bind.values() for x in ast.walk(v) if isinstance(x, ast.Name)}
        for n, v in bind.items():
            if n in local:      # the helper rebinds its parameter
                if isinstance(v, ast.Name) and v.id == n and (tail or n in same):
                    continue
                if not hoist:
                    return None
                t = n if n not in used and n not in argn else self.m.fresh(n)
                ren[n] = t
                pre.append(assign(t, copy.deepcopy(v), s))
            elif plain(v) or counts.get(n, 0) <= 1 or not hoist:
                exprs[n] = v
            else:
                t = n if n not in used and n not in argn else self.m.fresh(n)
                ren[n] = t
                pre.append(assign(t, copy.deepcopy(v), s))
        for n in local - set(bind):
            if n in same or h.kind == "nested" and False:
                if n in argn and not tail:
                    ren[n] = self.m.fresh(n)
                continue
            if n in used and not (tail and n not in argn and n not in self.live_closures()):
                ren[n] = self.m.fresh(n)
            elif n in argn:
                ren[n] = self.m.fresh(n)
        # comprehension variables of the helper must not capture names of the arguments
        if ct & argn and any(v.id in ct for e in exprs.values() for v in ast.walk(e) if isinstance(v, ast.Name)):
            clash = {v.id for e in exprs.values() for v in ast.walk(e) if isinstance(v, ast.Name)} & ct
            body = [RenameComp(clash, self.m).visit(b) for b in body]
        sub = Subst(exprs, ren)
        body = [sub.visit(b) for b in body]
        for b in body:
            ast.fix_missing_locations(b)
        self.done += pre + body
        return pre, body

    def live_closures(self):
        return {n.id for g in flat(self.f.body) if isinstance(g, FN) for n in ast.walk(g) if isinstance(n, ast.Name)}


class RenameComp(ast.NodeTransformer):
    def __init__(self, names, m):
        self.names, self.m = names, m

    def _comp(self, n):
        self.generic_visit(n)
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)} & self.names
        ren = {b: self.m.fresh(b) for b in bound}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class Temps:
    """Forward substitution of temporaries the reviewed tree does not have."""

    def __init__(self, f, known, fors=frozenset()):
        self.f, self.fors = f, fors
        self.known = known | set(params(f))

    def run(self):
        self.sink()
        for _ in range(8):
            self.changed = False
            self.stats()
            self.f.body = self.block(self.f.body)
            if not self.changed:
                break

    def sink(self):
        """A result variable set in branches and returned at the end: return in the branches."""
        b = self.f.body
        if len(b) < 2 or not isinstance(b[-1], ast.Return) or not isinstance(b[-1].value, ast.Name) or b[-1].value.id in self.known:
            return
        r, at = b[-1].value.id, b[-1]
        if sum(isinstance(n, ast.Name) and n.id == r and isinstance(n.ctx, ast.Load) for n in walk_all(b)) != 1 or not isinstance(b[-2], (ast.If, ast.With, ast.Try)):
            return

        def go(block):
            if not block:
                return [ast.copy_location(ast.Return(N(r, at)), at)]
            s, pre = block[-1], block[:-1]
            if isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                return block
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == r:
                v = None if isinstance(s.value, ast.Constant) and s.value.value is None else s.value
                return pre + [ast.copy_location(ast.Return(s.value if v is not None else ast.copy_location(ast.Constant(None), s)), s)]
            if isinstance(s, ast.If):
                s.body = go(s.body)
                rest = go(s.orelse)
                if terminates(s.body) and not (len(rest) == 1 and isinstance(rest[0], ast.If) and False):
                    s.orelse = []
                    return pre + [s] + rest
                s.orelse = rest
                return block
            if isinstance(s, ast.With):
                s.body = go(s.body)
                return block
            if isinstance(s, ast.Try) and not s.finalbody:
                if s.orelse:
                    s.orelse = go(s.orelse)
                else:
                    s.body = go(s.body)
                for h in s.handlers:
                    h.body = go(h.body)
                return block
            return block + [ast.copy_location(ast.Return(N(r, at)), at)]
        self.f.body = go(b[:-1])

    def stats(self):
        self.nstore, self.nload, self.inner = {}, {}, set()
        ct = comp_targets(self.f.body)
        for n in walk_all(self.f.body):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    self.nload[n.id] = self.nload.get(n.id, 0) + 1
                elif id(n) in ct:
                    self.nstore[n.id] = self.nstore.get(n.id, 0) + 2
                else:
                    self.nstore[n.id] = self.nstore.get(n.id, 0) + 1
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.nstore[n.name] = self.nstore.get(n.name, 0) + 2
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    self.nstore[x] = 9
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.nstore[n.target.id] = 9
            elif isinstance(n, SCOPES) and n is not self.f:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        self.inner.add(x.id)

    def cand(self, s):
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
        if not isinstance(t, ast.Name) or t.id in self.known or self.nstore.get(t.id) != 1 or t.id in self.inner:
            return None
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(s.value)):
            return None
        return t.id

    def block(self, body):
        for s in list(body):
            if isinstance(s, SCOPES):
                continue
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list):
                    setattr(s, fld, self.block(getattr(s, fld)))
            for h in getattr(s, "handlers", None) or []:
                h.body = self.block(h.body)
            for c in getattr(s, "cases", None) or []:
                c.body = self.block(c.body)
        i = len(body) - 2
        while i >= 0:
            self.collected(body, i)
            if i > len(body) - 2:
                i -= 1
                continue
            s = body[i]
            name = self.cand(s)
            if name is not None and self.nload.get(name, 0) == 0 and isinstance(s.value, (ast.Constant, ast.Name)):
                del body[i]
                self.changed = True
                self.stats()
            elif name is not None and self.nload.get(name) == 1:
                nxt = body[i + 1]
                if self.put(nxt, name, s.value):
                    del body[i]
                    self.changed = True
                    self.stats()
            elif name is not None and self.nload.get(name, 0) > 1 and self.stable(s.value):
                loads = [n for b in body[i + 1:] for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name]
                if len(loads) == self.nload[name]:
                    sub = Subst({name: s.value}, {})
                    body[i + 1:] = [sub.visit(b) for b in body[i + 1:]]
                    del body[i]
                    self.changed = True
                    self.stats()
            i -= 1
        return body

    def collected(self, body, i):
        """x = []; for t in it: x.append(e)  is  x = [e for t in it]  (likewise for dicts and sets)."""
        s, lp = body[i], body[i + 1]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(lp, ast.For) and not lp.orelse) or for_text(lp) in self.fors:
            return
        name, v = s.targets[0].id, s.value
        empty = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords and v.func.id
        ifs, cur = [], lp.body
        while len(cur) == 1 and isinstance(cur[0], ast.If) and not cur[0].orelse:
            ifs.append(cur[0].test)
            cur = cur[0].body
        # if not wanted: continue
        while len(cur) == 2 and isinstance(cur[0], ast.If) and not cur[0].orelse and len(cur[0].body) == 1 and isinstance(cur[0].body[0], ast.Continue):
            t = cur[0].test
            ifs.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t))
            cur = cur[1:]
        if len(cur) != 1:
            return
        c, gen, new = cur[0], [ast.comprehension(lp.target, lp.iter, ifs, 0)], None
        me = lambda e: isinstance(e, ast.Name) and e.id == name
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute) and me(c.value.func.value) and len(c.value.args) == 1 and not c.value.keywords:
            if c.value.func.attr == "append" and (isinstance(v, ast.List) and not v.elts or empty == "list"):
                new = ast.ListComp(c.value.args[0], gen)
            elif c.value.func.attr == "add" and empty == "set":
                new = ast.SetComp(c.value.args[0], gen)
        elif isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Subscript) and me(c.targets[0].value) and (isinstance(v, ast.Dict) and not v.keys or empty == "dict"):
            new = ast.DictComp(c.targets[0].slice, c.value, gen)
        if new is None or any(me(n) for n in ast.walk(new)) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(new)):
            return
        tn = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
        inner = {id(x) for x in ast.walk(lp)}
        if any(isinstance(x, ast.Name) and x.id in tn and isinstance(x.ctx, ast.Load) and id(x) not in inner for x in walk_all(self.f.body) if not isinstance(x, ast.comprehension)) and tn - {"_"} and self._live(tn, inner):
            return
        body[i] = ast.copy_location(ast.Assign(s.targets, ast.copy_location(new, lp)), s)
        del body[i + 1]
        self.changed = True
        self.stats()

    def _live(self, tn, inner):
        """Loop variables used outside of the loop, other than in loops or comprehensions of their own."""
        own_scope = set()
        for n in walk_all(self.f.body):
            if isinstance(n, COMP) or isinstance(n, ast.For):
                t = {x.id for g in (n.generators if isinstance(n, COMP) else [n]) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if t & tn:
                    own_scope |= {id(x) for x in ast.walk(n)}
        return any(isinstance(x, ast.Name) and x.id in tn and isinstance(x.ctx, ast.Load) and id(x) not in inner and id(x) not in own_scope for x in walk_all(self.f.body))

    def stable(self, e):
        """An attribute chain or constant whose parts are not rebound in the function."""
        if isinstance(e, ast.Constant):
            return True
        r = chain(e)
        if r is None:
            return False
        n = self.nstore.get(r.id, 0)
        if n > 1 or n == 1 and r.id in params(self.f):
            return False
        attrs = set()
        while isinstance(e, ast.Attribute):
            attrs.add(e.attr)
            e = e.value
        for x in walk_all(self.f.body):
            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr in attrs:
                return False
        return True

    def put(self, s, name, value):
        """Substitute the only use of name in the header of s."""
        if isinstance(s, SCOPES):
            return False
        headers = {ast.If: ["test"], ast.For: ["iter"], ast.Return: ["value"], ast.Assign: ["value", "targets"], ast.AnnAssign: ["value"],
                   ast.AugAssign: ["value"], ast.Expr: ["value"], ast.Raise: ["exc", "cause"], ast.Assert: ["test"], ast.With: ["items"], ast.Match: ["subject"], ast.Delete: ["targets"]}.get(type(s), [])
        for fld in headers:
            v = getattr(s, fld)
            for x in (v if isinstance(v, list) else [v]):
                if x is None:
                    continue
                if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x)):
                    holder = x.context_expr if isinstance(x, ast.withitem) else x
                    if not self.immediate(holder, name):
                        return False
                    new = Subst({name: value}, {}).visit(holder)
                    if isinstance(x, ast.withitem):
                        x.context_expr = new
                    elif isinstance(v, list):
                        v[v.index(x)] = new
                    else:
                        setattr(s, fld, new)
                    flatten(s)
                    return True
        return False

    def immediate(self, e, name):
        """The use is not inside a lambda or the repeated part of a comprehension."""
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                return False
            if isinstance(n, COMP):
                parts = [n.generators[0].iter]
                whole = sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))
                first = sum(isinstance(x, ast.Name) and x.id == name for p in parts for x in ast.walk(p))
                if whole != first:
                    return False
        return True


def flatten(s):
    """f(**dict(a=1)) and f(**{'a': 1}) are f(a=1); f(*(a, b)) is f(a, b)."""
    for c in ast.walk(s):
        if isinstance(c, ast.Call):
            kw = []
            for k in c.keywords:
                d = k.value
                if k.arg is None and isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "dict" and not d.args:
                    kw += d.keywords
                elif k.arg is None and isinstance(d, ast.Dict) and all(x is None or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in d.keys):
                    kw += [ast.copy_location(ast.keyword(x.value if x is not None else None, v), v) for x, v in zip(d.keys, d.values)]
                else:
                    kw.append(k)
            c.keywords = kw
            args = []
            for a in c.args:
                if isinstance(a, ast.Starred) and isinstance(a.value, (ast.Tuple, ast.List)):
                    args += a.value.elts
                else:
                    args.append(a)
            c.args = args


def own_calls(tree):
    """`self.x` in a class which defines x itself: no use of a method of the same name elsewhere."""
    out = set()
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            names = {m.name for m in c.body if isinstance(m, FN)}
            out |= {id(n) for n in ast.walk(c) if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")}
    return out


def normalise(trees, vocab=None):
    """Normalise all modules in place; trees: {module name: ast.Module}."""
    vocab = vocab or vocabulary()
    if not vocab:
        return 0
    imported = set()
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom):
                imported |= {a.name for a in n.names}
    used = {}
    for name, t in trees.items():
        mine = own_calls(t)
        used[name] = {n.attr if isinstance(n, ast.Attribute) else n.value for n in ast.walk(t)
                      if isinstance(n, ast.Attribute) and id(n) not in mine or isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()}
    times = {}
    for u in used.values():
        for x in u:
            times[x] = times.get(x, 0) + 1
    n = 0
    for name, t in trees.items():
        v = vocab.get(name)
        if v is None:
            continue
        m = ModuleNormal(t, v)
        m.external = imported | {x for x, k in times.items() if k > (x in used[name])}
        m.run()
        n += m.k
    return n
