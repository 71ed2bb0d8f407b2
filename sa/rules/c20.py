"""C20: library calls leave process-wide state alone."""
from __future__ import annotations

import ast
import re

from ..flow import defs_of
from ..model import dotted, walk_own
from .c11 import parents
from .c19 import import_time, module_parents, owner

# family -> (pattern of the qualified names which change the state, scoping context managers)
FAMILIES = {
    "warning filters": (r"warnings\.(filterwarnings|simplefilter|resetwarnings)", {"catch_warnings"}),
    "random generator": (r"numpy\.random\.(?!RandomState$|default_rng$|Generator$|SeedSequence$|BitGenerator$|PCG64\w*$|MT19937$|Philox$|SFC64$|get_state$|mtrand$|bit_generator$)[a-z_]\w*"
                         r"|numpy\.random\.mtrand\.(?!RandomState$)\w+|random\.(?!Random$|SystemRandom$|getstate$)[a-z_]\w*|secrets_unused", set()),
    "floating point error handling": (r"numpy\.(seterr|seterrcall|setbufsize|seterrobj)", {"errstate"}),
    "array printing": (r"numpy\.(set_printoptions|set_string_function)", {"printoptions"}),
    "working directory": (r"os\.(chdir|fchdir|chroot)", set()),
    "file mode mask": (r"os\.umask", set()),
    "environment": (r"os\.(putenv|unsetenv)|os\.environ\.(update|pop|popitem|clear|setdefault|__setitem__|__delitem__)", set()),
    "locale and timezone": (r"locale\.(setlocale|resetlocale)|time\.tzset", set()),
    "table options": (r"pandas\.(set_option|reset_option|set_eng_float_format|options|describe_option_unused)|pandas\.(core\.)?config(_init)?\..*|pandas\.plotting\.(de)?register_matplotlib_converters|pandas\.api\.extensions\.register_\w+",
                      {"option_context"}),
    "plotting options": (r"matplotlib\.(rc|rcdefaults|rc_file|rc_file_defaults|use|set_loglevel|interactive)|matplotlib\.(pyplot\.)?rcParams\.\w+|matplotlib\.style\.use|matplotlib\.pyplot\.(rc|rcdefaults|ion|ioff|switch_backend|set_cmap|style\.use|xkcd|"
                         r"viridis|jet|gray|hot|hsv|plasma|inferno|magma|cool|spring|summer|autumn|winter|bone|copper|flag|pink|prism|spectral|set_loglevel)", {"rc_context", "context", "ioff", "ion", "xkcd"}),
    "pyplot's current figure": (r"matplotlib\.pyplot\.(?!(?:subplots|figure|show|get_cmap|close|Axes|Figure|Normalize|subplot_mosaic|cm|colormaps|get_fignums|fignum_exists|rcParams|style|Subplot|Line2D|colorbar|Circle|Rectangle|Polygon|Arrow|get_backend|isinteractive|rc_context|style)$)[a-z]\w*", set()),
    "interpreter": (r"sys\.(setrecursionlimit|settrace|setprofile|setswitchinterval|set_int_max_str_digits|set_asyncgen_hooks)|sys\.path\.(append|insert|extend|remove|pop|clear|sort|reverse)|sys\.modules\.(pop|clear|update|setdefault|popitem)|signal\.signal|"
                    r"socket\.setdefaulttimeout|threading\.(stack_size|setprofile|settrace)|gc\.(disable|enable|freeze|set_threshold)|logging\.(basicConfig|disable|setLoggerClass|captureWarnings)|faulthandler\.\w+|multiprocessing\.set_start_method|resource\.setrlimit", set()),
    "backend options": (r"numba\.set_num_threads|xarray\.set_options|numexpr\.set_num_threads|h5py\.\w*config\w*\.\w+", {"set_options"}),
}
PAT = {k: re.compile("(?:" + v[0] + r")\Z") for k, v in FAMILIES.items()}
# attribute or item stores into these objects
STORES = {
    "environment": re.compile(r"os\.environ\Z"),
    "plotting options": re.compile(r"matplotlib\.(pyplot\.)?rcParams\Z"),
    "table options": re.compile(r"pandas\.options(\..*)?\Z"),
    "interpreter": re.compile(r"sys\.(modules|path|stdout|stderr|stdin|argv|excepthook|displayhook)\Z"),
    "warning filters": re.compile(r"warnings\.(filters|showwarning|formatwarning)\Z"),
}
RESTORE = {"random generator": r"(numpy\.)?random\.(set_state|setstate)"}


def qual(prog, m, f, e, depth=5):
    """Fully qualified external name of an expression (module and local aliases followed)."""
    parts = dotted(e)
    if not parts:
        return None
    q = prog.external(prog.resolve(m, f, e))
    if q and q.split(".")[0] != prog.package:
        return q
    if q and q.startswith(prog.package):
        # imported from another module of the package: rest of the attribute path behind an external binding
        return _through(prog, q)
    if f is not None and depth > 0:
        b = e
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name):
            for s, src, how in defs_of(f).reaching(b.id, b):
                if how == "=" and src is not None and dotted(src):
                    r = qual(prog, m, f, src, depth - 1)
                    if r:
                        return ".".join([r] + parts[1:])
    return None


def _through(prog, q):
    mod, _, rest = q.rpartition(".")
    tail = []
    while mod and mod not in prog.modules:
        tail.insert(0, rest)
        mod, _, rest = mod.rpartition(".")
    return None


def in_with(prog, m, f, n, names):
    """Is a node inside (the body of, or a later item of) a with statement of one of the named managers?"""
    par = module_parents(m)
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, (ast.With, ast.AsyncWith)):
            for i in up.items:
                if i is n:
                    break
                c = i.context_expr
                if isinstance(c, ast.Call) and (dotted(c.func) or [""])[-1] in names:
                    return True
        if isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        # an exit stack entered earlier in an enclosing block
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(up, fld, None)
            if isinstance(blk, list) and any(n is s for s in blk):
                for s in blk[: [n is s for s in blk].index(True)]:
                    for c in ast.walk(s):
                        if isinstance(c, ast.Call) and (dotted(c.func) or [""])[-1] == "enter_context" and c.args and isinstance(c.args[0], ast.Call) and (dotted(c.args[0].func) or [""])[-1] in names:
                            return True
        n = up
    return False


def restored(prog, m, f, n, fam):
    """Is the change undone by a finally clause (or the matching __exit__)?"""
    par = module_parents(m)

    def undoes(stmts):
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, (ast.Name, ast.Attribute)) and family(prog, m, f, x)[0] == fam:
                    return True
                if isinstance(x, (ast.Name, ast.Attribute)) and fam in RESTORE and re.match(RESTORE[fam] + r"\Z", qual(prog, m, f, x) or ""):
                    return True
                if store_family(prog, m, f, x) == fam:
                    return True
        return False

    def harmless(s):
        return not any(isinstance(x, (ast.Call, ast.Yield, ast.Raise, ast.Await, ast.Subscript)) for x in ast.walk(s))

    x = n
    while id(x) in par:
        up = par[id(x)]
        if isinstance(up, ast.Try) and up.finalbody:
            if any(x is s for s in up.finalbody):
                return True          # this is the restoring statement
            if undoes(up.finalbody):
                return True
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(up, fld, None)
            if isinstance(blk, list) and any(x is s for s in blk):
                for s in blk[[x is y for y in blk].index(True) + 1:]:
                    if isinstance(s, ast.Try) and s.finalbody and undoes(s.finalbody):
                        return True
                    if not harmless(s):
                        break
        if isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef)):
            break
        x = up
    if f is not None and f.cls is not None and f.name in ("__enter__", "__exit__"):
        g = f.cls.methods.get("__exit__")
        if g is not None and (f is g or undoes(g.body)):
            return True
    return False


def family(prog, m, f, e):
    q = qual(prog, m, f, e)
    if not q or q.split(".")[0] == prog.package:
        return None, q
    for k, p in PAT.items():
        if p.match(q):
            return k, q
    return None, q


def store_family(prog, m, f, n):
    """Family changed by an attribute or item store/delete."""
    if not (isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del))):
        return None
    base = n.value
    q = qual(prog, m, f, base) or ""
    full = qual(prog, m, f, n) if isinstance(n, ast.Attribute) else None
    for k, p in STORES.items():
        if p.match(q) or full and p.match(full):
            return k
    if isinstance(n, ast.Attribute) and isinstance(base, (ast.Name, ast.Attribute)):
        # replacing a member of somebody else's module or class
        if q and q.split(".")[0] != prog.package and _is_external_module(prog, m, f, base):
            return "third-party module " + q
    return None


def _is_external_module(prog, m, f, base):
    root = base
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name):
        return False
    if f is not None and f.cls is not None and root.id in ("self", "cls"):
        return False
    return prog.resolve(m, f, root) is not None


def implicit_random(prog, m, f, c):
    """Draws which use the global generator unless given one."""
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("rvs", "sample"):
        if any(k.arg in ("random_state", None) for k in c.keywords):
            return None
        q = qual(prog, m, f, c.func.value)
        if c.func.attr == "rvs":
            return "rvs"
        if c.keywords and {k.arg for k in c.keywords} & {"n", "frac", "replace", "weights"}:
            return "sample"
    return None


def run(ctx):
    prog = ctx.prog
    ctx.rule("Every reference to a function that changes process-wide state (random generators, warning filters, floating-point and printing options, working directory, environment, locale, pandas and matplotlib options, pyplot's current "
             "figure, interpreter settings) and every store into such an object or into a foreign module lies inside the matching context manager, or is undone by a finally clause or by __exit__; generators seeded or drawn from are local ones")
    ctx.assumptions += ["pint's application registry is set deliberately when units are first used (needed to unpickle quantities), and is not counted.",
                        "The filter the package installs on import is restricted to its own warnings."]
    for m in prog.modules.values():
        own = owner(m, prog)
        par = module_parents(m)
        for n in ast.walk(m.tree):
            f = own.get(id(n))
            fam = q = None
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                up = par.get(id(n))
                if isinstance(up, ast.Attribute) and up.value is n and family(prog, m, f, up)[0]:
                    continue
                if _annotation(par, n):
                    continue
                ctx.count("references")
                fam, q = family(prog, m, f, n)
            elif isinstance(n, (ast.Attribute, ast.Subscript)):
                fam = store_family(prog, m, f, n)
                ctx.count("stores")
            elif isinstance(n, ast.Call):
                r = implicit_random(prog, m, f, n)
                if r:
                    fam = "random generator"
                if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
                    qq = qual(prog, m, f, n.args[0])
                    if qq and qq.split(".")[0] != prog.package and _is_external_module(prog, m, f, n.args[0]):
                        fam = "third-party module " + qq
            if fam is None:
                continue
            ctx.count("state_changes")
            if in_with(prog, m, f, n, FAMILIES.get(fam, (None, set()))[1]):
                ctx.count("scoped")
                continue
            if restored(prog, m, f, n, fam):
                ctx.count("restored")
                continue
            c = par.get(id(n))
            if isinstance(c, ast.Call) and c.func is n and isinstance(par.get(id(c)), ast.withitem) and (dotted(n) or [""])[-1] in FAMILIES.get(fam, (None, set()))[1]:
                continue
            if fam == "warning filters" and f is None and isinstance(c, ast.Call) and any(k.arg == "module" and isinstance(k.value, ast.Constant) and str(k.value.value).startswith(prog.package) for k in c.keywords):
                continue
            where = f"{m.relpath}:{n.lineno}" + (f" in {f.qual}" if f else "")
            ctx.violation(f"state:{f.qual if f else m.name}:{fam}", f"{where}: `{ast.unparse(c if isinstance(c, ast.Call) and c.func is n else n)[:80]}` changes process-wide state ({fam}) and nothing restores it on every exit")
        # scoping managers must be entered by with
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (dotted(n.func) or [""])[-1] in ("catch_warnings", "errstate", "printoptions", "option_context", "rc_context", "suppress_warnings"):
                ctx.count("scopes")
                up = par.get(id(n))
                f = own.get(id(n))
                if isinstance(up, ast.Attribute) and up.attr == "__enter__" and not any(isinstance(x, ast.Attribute) and x.attr == "__exit__" for x in ast.walk(f.node if f else m.tree)):
                    ctx.violation(f"scope:{f.qual if f else m.name}", f"{m.relpath}:{n.lineno}: the scope is entered without being left on every exit")
    ctx.require("references", 10000)
    ctx.require("scopes", 3)
    ctx.require("state_changes", 1)


def _annotation(par, n):
    x = n
    while id(x) in par:
        up = par[id(x)]
        if isinstance(up, ast.arg) or isinstance(up, ast.AnnAssign) and x is up.annotation or isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is up.returns:
            return True
        if isinstance(up, ast.stmt):
            return False
        x = up
    return False
