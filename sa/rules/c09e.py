"""C09, second part: the entry of each of several coordinates is computed from that coordinate."""
from __future__ import annotations

import ast

from ..model import walk_own
from .c08 import LoopInfo, SCOPE, data_walk

TABLES = {"coord_map": "values", "dim_map": "dimensions", "_coord_map": "values"}
GETTERS = {"get_coord": "values", "get_array": "values"}


def lookups(e):
    """(kind, index expression, node) of every lookup of a coordinate by name."""
    for n in data_walk(e):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr in TABLES:
            yield TABLES[n.value.attr], n.slice, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in GETTERS and n.args:
                yield GETTERS[n.func.attr], n.args[0], n
            elif n.func.attr == "get" and n.args and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in TABLES:
                yield TABLES[n.func.value.attr], n.args[0], n


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def judge(vals, own):
    """Kinds looked up only under names which are not the round's, with one such lookup."""
    by = {}
    for v in vals:
        for kind, ind, n in lookups(v):
            by.setdefault(kind, []).append((own(ind), n))
    return [(k, next(n for o, n in xs)) for k, xs in by.items() if not any(o for o, _ in xs)]


def stores(f):
    """(round, key, whether an expression depends on the round, values) for stores keyed by the round's name."""
    for loop in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        li = LoopInfo(f, loop)
        for s in li.stmts:
            if not isinstance(s, ast.Assign):
                continue
            for t in s.targets:
                if isinstance(t, ast.Subscript) and names(t.slice) & li.targets:
                    yield loop.iter, t, li.depends_on_target, list(li.slice(s.value, data_only=True).values())
    for c in [n for n in walk_own(f.node) if isinstance(n, ast.DictComp)]:
        own = {x for g in c.generators for x in names(g.target)}
        if names(c.key) & own:
            yield c.generators[0].iter, c.key, lambda e, own=own: bool(names(e) & own), [c.value]


def check_entries(ctx, prog):
    for f in list(prog.functions.values()):
        if not f.module.name.startswith(SCOPE):
            continue
        for it, key, own, vals in stores(f):
            if not any(True for v in vals for _ in lookups(v)):
                continue
            ctx.count("entries_by_name")
            for kind, n in judge(vals, own):
                ctx.violation(f"foreign:{f.qual}:{kind}", f"{f.where(n)}: the {kind} of the entry `{ast.unparse(key)}` are taken from `{ast.unparse(n)}` in every round over `{ast.unparse(it)}`: "
                              "each coordinate must be carried over from itself")
