"""Conditions under which a node is reached, read off the syntax tree."""
from __future__ import annotations

import ast

from .guards import ends_raise

LEAVE = (ast.Return, ast.Continue, ast.Break)


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def leaves(body):
    """Statements by which a block may leave early (own loops keep their break/continue)."""
    out = []

    def go(b, loop):
        for s in b:
            if isinstance(s, ast.Return):
                out.append(s)
            elif isinstance(s, (ast.Break, ast.Continue)):
                if not loop:
                    out.append(s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            else:
                inner = loop or isinstance(s, (ast.For, ast.While, ast.AsyncFor))
                for fld in ("body", "orelse", "finalbody"):
                    x = getattr(s, fld, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                        go(x, inner)
                for h in getattr(s, "handlers", []) or []:
                    go(h.body, inner)
                for c in getattr(s, "cases", []) or []:
                    go(c.body, inner)
    go(body, False)
    return out


def conds(f, node, par=None):
    """[(test or None, polarity, kind, statement)]: what decides whether `node` runs on a path that
    reaches the normal end of the function.  Kinds: if, ifexp, bool, while, comp, handler, leave, match."""
    par = par or parents(f.node)
    out = []
    cur, p = node, par.get(id(node))
    while p is not None:
        if isinstance(p, ast.If):
            # a branch next to one that always raises is no choice
            if any(cur is s for s in p.body):
                if not ends_raise(p.orelse):
                    out.append((p.test, True, "if", p))
            elif any(cur is s for s in p.orelse):
                if not ends_raise(p.body):
                    out.append((p.test, False, "if", p))
        elif isinstance(p, ast.IfExp) and cur is not p.test:
            out.append((p.test, cur is p.body, "ifexp", p))
        elif isinstance(p, ast.BoolOp) and cur is not p.values[0]:
            for v in p.values[:[i for i, v in enumerate(p.values) if v is cur][0]]:
                out.append((v, isinstance(p.op, ast.And), "bool", p))
        elif isinstance(p, ast.While) and any(cur is s for s in p.body):
            out.append((p.test, True, "while", p))
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and not isinstance(cur, ast.comprehension):
            for g in p.generators:
                out += [(t, True, "comp", p) for t in g.ifs]
        elif isinstance(p, ast.ExceptHandler):
            out.append((p.type, True, "handler", p))
        elif isinstance(p, ast.match_case):
            out.append((p.guard, True, "match", p))
        # statements before it that may leave
        if isinstance(cur, ast.stmt):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and any(cur is s for s in b):
                    for s in b:
                        if s is cur:
                            break
                        ls = leaves([s])
                        if ls and isinstance(s, ast.If):
                            inb, ino = leaves(s.body), leaves(s.orelse)
                            if inb:
                                out.append((s.test, False, "leave", s))
                            if ino:
                                out.append((s.test, True, "leave", s))
                        elif ls:
                            out.append((None, False, "leave", s))
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if p is f.node:
                break
        cur, p = p, par.get(id(p))
    return out


def stmt_of(par, node):
    while node is not None and not isinstance(node, ast.stmt):
        node = par.get(id(node))
    return node


def before(f, a, b, par=None):
    """May statement/expression a run before b within one run of the body (loops ignored)?"""
    order = {id(n): i for i, n in enumerate(evaluation(f.node))}
    return order.get(id(a), -1) < order.get(id(b), -1)


def evaluation(node):
    """Nodes in evaluation order (values before their targets, operands before operators)."""
    body = [node.body] if isinstance(node, ast.Lambda) else node.body

    def go(n):
        if isinstance(n, ast.Assign):
            yield from go(n.value)
            for t in n.targets:
                yield from go(t)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            if n.value is not None:
                yield from go(n.value)
            yield from go(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            yield from go(n.iter)
            yield from go(n.target)
            for s in n.body + n.orelse:
                yield from go(s)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            for g in n.generators:
                yield from go(g)
            yield from go(n.elt)
        elif isinstance(n, ast.DictComp):
            for g in n.generators:
                yield from go(g)
            yield from go(n.key)
            yield from go(n.value)
        elif isinstance(n, ast.IfExp):
            for x in (n.test, n.body, n.orelse):
                yield from go(x)
        else:
            for c in ast.iter_child_nodes(n):
                yield from go(c)
        yield n
    for s in body:
        yield from go(s)
