"""Loads /repo's srg package from source, twice: 'real' (unchanged, real NumPy) and 'sym' (the same
source, with the stand-in numpy, merged conditional expressions and proxy-aware builtins)."""
import ast, builtins, importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types
import functools
from . import core, snp
from .core import SInt, SBool, SFrac, issym, r_ite, b_norm, BoolE

_codes = {}
REPO = os.environ.get("VERIF_REPO", "/repo")


class IfExpMerge(ast.NodeTransformer):
    """a if c else b  ->  __ite__(c, lambda: a, lambda: b)   (only where lambdas change nothing)"""
    BAD = (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)

    def __init__(self): self.in_class = 0

    def visit_ClassDef(self, n):
        self.in_class += 1
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) else x for x in n.body]
        self.in_class -= 1
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, self.BAD) for x in ast.walk(n)): return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals", "vars", "eval", "exec") for x in ast.walk(n)): return n
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return ast.copy_location(ast.Call(ast.Name("__ite__", ast.Load()), [n.test, lam(n.body), lam(n.orelse)], []), n)


def _ite(c, a, b):
    if isinstance(c, SBool): raw = c.raw
    elif isinstance(c, SInt): raw = core.b_not(core.r_eq(c.raw, 0))
    elif isinstance(c, snp.SA) and c.size == 1: return _ite(snp.out_scalar(c.o.reshape(-1)[0], c.dtype), a, b)
    else: return a() if c else b()
    raw = b_norm(raw)
    if type(raw) is not BoolE: return a() if raw else b()
    try:
        x, y = a(), b()
        return core.ite(raw, x, y)
    except core.CannotMerge: pass
    except Exception: pass
    return a() if core.r_truth(raw) else b()


# -- builtins the sym copy sees ----------------------------------------------------------------
def _minmax(real, pick):
    def f(*args, key=None, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if key is None and len(xs) > 0 and all_sint(xs):
            out = xs[0]
            for x in xs[1:]:
                try: out = pick(out, x)
                except core.CannotMerge: return real(xs, **kw)
            return out
        if key is not None: kw["key"] = key
        return real(xs, **kw)
    return f


def all_sint(xs):
    s = False
    for x in xs:
        if issym(x): s = True
        if not isinstance(core.scalar(x), SInt) or isinstance(x, bool): return False
    return s


# Python's min keeps the first of equal values, and the types follow the chosen one
def _pick_min(a, b): return _merge_pick(lambda x, y: core.b_not(core.r_lt(y, x)), a, b)
def _pick_max(a, b): return _merge_pick(lambda x, y: core.b_not(core.r_lt(x, y)), a, b)


def _merge_pick(first, a, b):
    A, B = core.scalar(a), core.scalar(b)
    c = b_norm(first(A.raw, B.raw))
    if type(c) is not BoolE: return a if c else b
    if A.dt != B.dt:
        # the type of the result depends on the outcome; a Python int is weak, so the NumPy type
        # only matters for later wrap-around: split
        return a if core.r_truth(c) else b
    return SInt(r_ite(c, A.raw, B.raw), A.dt)


def _anyall(real, ufunc):
    def f(it):
        if isinstance(it, snp.SA):
            if it.ndim == 1: return bool_like(snp.reduce_(ufunc, it))
            return real(it)
        if isinstance(it, (list, tuple)) and builtins.all(isinstance(x, (bool, SBool, snp.np.bool_)) for x in it):
            g = core.b_or if ufunc == "logical_or" else core.b_and
            return core.mkbool(g(*[x.raw if isinstance(x, SBool) else bool(x) for x in it]), True)
        return real(it)
    return f


def bool_like(x): return core.mkbool(x.raw, True) if isinstance(x, SBool) else bool(x)


class _IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, int) or isinstance(x, SInt) and x.dt is None
    def __subclasscheck__(c, x): return issubclass(x, int)


class _Int(int, metaclass=_IntMeta):
    dtype = core.I64                     # what np.dtype(int) means

    def __new__(c, x=0, *a):
        if a: return int(x, *a)
        if isinstance(x, SInt): return SInt(x.raw)
        if isinstance(x, SBool): return SInt(core.b2i(x.raw))
        if isinstance(x, SFrac): return x.trunc()
        if isinstance(x, str) and x.strip() in SymArg.words: return SInt(SymArg.words[x.strip()].raw)
        if isinstance(x, snp.SA): return _Int(x.item())
        return int(x)


class _FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (float, SFrac))


class _Float(float, metaclass=_FloatMeta):
    dtype = core.F64

    def __new__(c, x=0.0):
        if isinstance(x, (SInt, SBool, SFrac)): return SFrac.of(x)
        return float(x)


class SymArg(str):
    """a command line word that spells a symbolic integer"""
    words = {}

    def __new__(c, v):
        s = str.__new__(c, f"<arg{len(c.words)}>")
        c.words[str(s)] = v
        return s


def _sum(it, start=0):
    out = start
    for x in it: out = out + x
    return out


def _round(x, n=None):
    return x.__round__(n) if isinstance(x, (SInt, SFrac)) else builtins.round(x, n) if n is not None else builtins.round(x)


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(min=_minmax(builtins.min, _pick_min), max=_minmax(builtins.max, _pick_max), any=_anyall(builtins.any, "logical_or"),
             all=_anyall(builtins.all, "logical_and"), int=_Int, float=_Float, sum=_sum, round=_round, 
             __import__=importer, __ite__=_ite)
    return d


# -- import ------------------------------------------------------------------------------------
class Stub(types.ModuleType):
    """click: terminal output only"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in ("echo", "secho"): return lambda message="", **k: print(message, **{x: y for x, y in k.items() if x in ("file",)})
        if n == "style": return lambda text, **k: str(text)
        return lambda *a, **k: None


def real_click():
    try:
        import click
        return click
    except ImportError: return Stub("click")


class Package:
    """the srg package, loaded from source into private module objects"""

    def __init__(self, sym, repo=None):
        self.sym, self.repo = sym, repo or REPO
        self.mods = {}
        self.fake_np = snp.FakeNP() if sym else None
        self.np = self.fake_np if sym else snp.np
        self.click = Stub("click") if sym else real_click()
        self.builtins = make_builtins(self._import) if sym else dict(vars(builtins), __import__=self._import)
        self.out = []

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p): return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name, run_name=None, inject=None):
        if name in self.mods and run_name is None: return self.mods[name]
        if "." in name and run_name is None:
            self.load(name.rpartition(".")[0])
        path, ispkg = self._path(name)
        if not os.path.exists(path): raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(run_name or name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        if inject: m.__dict__["__builtins__"] = dict(self.builtins, **inject)
        sym_here = self.sym and ".database" not in name or self.sym and name.endswith("database.__main__")
        code = _codes.get((path, sym_here))
        if code is None:
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
            if sym_here:
                tree = ast.fix_missing_locations(IfExpMerge().visit(tree))
            code = _codes[path, sym_here] = compile(tree, path, "exec", dont_inherit=True)
        if run_name is None:
            self.mods[name] = m
            try: exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]; raise
            if "." in name:
                setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        else:
            exec(code, m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1): pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "srg" or name.startswith("srg."):
            m = self.load(name)
            if not fromlist: return self.mods["srg"]
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try: self.load(name + "." + f)
                    except ModuleNotFoundError as e:
                        if e.name != name + "." + f: raise
            return m
        if name == "numpy" or name.startswith("numpy."):
            # catalogue files hold literal matrices: real arrays
            if self.sym and not (globals and ".database" in (globals.get("__package__") or "") and not str(globals.get("__file__", "")).endswith("__main__.py")):
                m = self.fake_np
                if not fromlist and "." not in name: return m
                if not fromlist: return m
                for p in name.split(".")[1:]: m = getattr(m, p)
                return m
        if name == "click": return self.click
        if name == "importlib" or name.startswith("importlib"):
            import importlib.util
            return types.SimpleNamespace(import_module=lambda n, package=None: self.load(importlib.util.resolve_name(str(n), package)), util=importlib.util)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return self.load("srg." + n)
