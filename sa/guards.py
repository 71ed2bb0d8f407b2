"""Raising guards: comparisons whose failing side raises."""
from __future__ import annotations

import ast

from .flow import Flow, backslice
from .model import FunctionInfo


def ends_raise(body):
    """Does the block certainly leave by raising?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends_raise(s.body) and ends_raise(s.orelse):
            return True
        if isinstance(s, (ast.With,)) and ends_raise(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def guard_tests(node):
    """Test expressions that can lead to a raise: If tests with a raising side
    (or followed by a raise when the other side leaves), and asserts."""
    out = []

    def leaves(body):
        return any(isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for s in body)

    def scan(body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Assert):
                out.append((s.test, s))
            if isinstance(s, ast.If):
                if ends_raise(s.body) or ends_raise(s.orelse) or (leaves(s.body) and ends_raise(body[i + 1:])):
                    out.append((s.test, s))
            for sub in ("body", "orelse", "finalbody"):
                v = getattr(s, sub, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    scan(v)
            for h in getattr(s, "handlers", []) or []:
                scan(h.body)

    scan(node.body)
    return out


def loop_pseudo(fi: FunctionInfo, loop):
    """A pseudo function whose body is a loop body."""
    n = ast.FunctionDef(name=fi.name + "$loop", args=fi.node.args, body=loop.body, decorator_list=[], returns=None, type_comment=None)
    n.lineno, n.col_offset = loop.lineno, loop.col_offset
    f = FunctionInfo(fi.qual + "$loop", fi.name, n, fi.module, fi.cls, fi.parent)
    return f


class LoopFlow(Flow):
    """Flow over one loop body; continue/fallthrough are exits."""

    def s_Continue(self, s, st):
        if not self.loops:
            self.exits.append(("continue", s, st))
            return None
        return super().s_Continue(s, st)

    def s_Break(self, s, st):
        if not self.loops:
            self.exits.append(("break", s, st))
            return None
        return super().s_Break(s, st)
