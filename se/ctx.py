"""One harness text, three ways to run it.

sym       inputs are symbolic, /repo's code runs on proxies, prove() asks the solver
explicit  the solver enumerates the inputs the code sees; the real code with the real NumPy runs on
          each; what only the specification sees stays symbolic   (fallback, see DESIGN.md)
con       all inputs are given numbers; the real code runs; prove() evaluates
"""
import signal, sys, io, os, contextlib, json
import numpy as np
from . import core, snp
from .core import (SInt, SBool, SFrac, SymE, BoolE, norm, b_norm, b_and, b_or, b_not, b_xor, r_eq, r_lt, r_le, r_add,
                   r_sub, r_mul, r_neg, r_ite, b_ite, b2i, width, mk)

z3 = core.z3


class Violation(Exception):
    """con: the property fails on these inputs"""
    def __init__(self, label, info=""):
        super().__init__(label)
        self.label, self.info = label, info


class Precond(Exception):
    """con: the inputs do not meet the assumptions"""


class Missing(BaseException):
    """the function a harness drives is not there"""


class Candidate(BaseException):
    """sym: a possible violation, to be replayed"""
    def __init__(self, label, model=None, detail=""):
        super().__init__(label)
        self.label, self.model, self.detail = label, model, detail


class Hang(BaseException):
    pass


# -- specification language: raws (int | SymE, bool | BoolE) -----------------------------------
def raw(x):
    if isinstance(x, (SInt, SBool)): return x.raw
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, SymE) or isinstance(x, BoolE): return x
    if isinstance(x, snp.SA):
        if x.ndim == 0: return x.o[()]
    if isinstance(x, np.ndarray) and x.ndim == 0: return raw(x[()])
    if isinstance(x, (float, np.floating)) and float(x).is_integer(): return int(x)
    if isinstance(x, SFrac): raise TypeError("fraction")
    raise TypeError(f"not a number: {type(x).__name__}")


def rows(a):
    """array / nested sequence -> nested list of raws"""
    if isinstance(a, snp.SA): return _nest(a.o)
    if isinstance(a, np.ndarray): return a.tolist() if a.dtype.kind in "biu" else _nest(a)
    if isinstance(a, (list, tuple)): return [rows(x) for x in a]
    return raw(a)


def _nest(o):
    if o.ndim == 0: return raw(o[()])
    if o.ndim == 1: return [raw(x) if not isinstance(x, (int, bool)) else x for x in o]
    return [_nest(x) for x in o]


def shape(a):
    if hasattr(a, "shape"): return tuple(a.shape)
    raise TypeError("no array")


def Sum(xs): return snp.sum_raw(list(xs))
def And(*cs): return b_and(*flat(cs))
def Or(*cs): return b_or(*flat(cs))
def Not(c): return b_not(c)
def Imp(a, b): return b_or(b_not(a), b)
def Iff(a, b): return b_not(b_xor(a, b))
def dot(a, b): return Sum(r_mul(x, y) for x, y in zip(a, b))


def flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)) or hasattr(c, "__next__"): out.extend(flat(c))
        else: out.append(c)
    return out


def nums(a):
    """nested list of raws with truth values as 0 and 1"""
    if isinstance(a, (list, tuple)): return [nums(x) for x in a]
    return b2i(norm_any(a)) if isinstance(a, (bool, BoolE)) else a


def same(a, b):
    """equality of nested lists of raws"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b): return False
        return b_and(*[same(x, y) for x, y in zip(a, b)])
    a, b = norm_any(a), norm_any(b)
    if isinstance(a, (bool, BoolE)) and isinstance(b, (bool, BoolE)): return b_not(b_xor(a, b))
    if isinstance(a, (bool, BoolE)): a = b2i(a)
    if isinstance(b, (bool, BoolE)): b = b2i(b)
    return r_eq(a, b)


def norm_any(a):
    return b_norm(a) if isinstance(a, BoolE) else a


def lex_lt(a, b):
    """strict lexicographic order of two lists of raws"""
    r = False
    for x, y in zip(reversed(a), reversed(b)):
        r = b_or(r_lt(x, y), b_and(r_eq(x, y), r))
    return r


def lex_le(a, b): return b_not(lex_lt(b, a))


# -- contexts ----------------------------------------------------------------------------------
class Base:
    def __init__(self):
        self.obs = []
        self.inputs = {}          # name -> (shape or None, dtype, list of raws)
        self.notes = []
        self.kept = []            # arrays returned, and what they held then
        self.reused = None         # (old, new): arrays passed in so far, to be passed in again with other contents
        self.prefix = ""          # of input names: a harness run several times in one process

    def skip(self, why): raise Missing(why)

    def target(self, mod, *names):
        """functions of /repo's module mod"""
        try:
            m = self.pkg.load("srg." + mod) if mod else self.pkg.load("srg")
        except ModuleNotFoundError as e:
            raise Missing(f"srg.{mod}: {e}")
        out = []
        for n in names:
            if not hasattr(m, n): raise Missing(f"srg.{mod}.{n}")
            out.append(getattr(m, n))
        return out[0] if len(out) == 1 else out if out else m

    def observe(self, label, x): self.obs.append((label, x))

    def keep(self, *arrays):
        """results that later calls have to leave alone"""
        self.kept += [(a, rows(a)) for a in arrays]

    def again(self, xs):
        """the arrays of the call before, overwritten with the new contents, where they fit"""
        if self.reused is None: return xs
        old, new = self.reused
        out = []
        for x in xs:
            i = len(new)
            a = old[i] if i < len(old) else None
            if a is not None and type(a) is type(x) and isinstance(x, (snp.SA, np.ndarray)) and shape(a) == shape(x) and a.dtype == x.dtype:
                if isinstance(x, snp.SA): a.o[...] = x.o
                else: a[...] = x
                x = a
            new.append(x)
            out.append(x)
        return tuple(out)

    def check_kept(self):
        for a, was in self.kept: self.prove("a result is not changed by later calls", same(rows(a), was))

    def call(self, f, *a, allow=()):
        """(True, result) or (False, name of an allowed exception); anything else is a failure"""
        try:
            return True, f(*a)
        except (Violation, Precond): raise
        except Exception as e:
            names = [c.__name__ for c in type(e).__mro__]
            for n in allow:
                if n in names: return False, n
            self.unexpected(e)

    # inputs
    def bits(self, name, shp, dt="int64"): return self.ints(name, shp, 0, 1, dt)
    def int(self, name, lo, hi): return self._scalar(name, lo, hi, None)
    def npint(self, name, lo, hi, dt="int64"): return self._scalar(name, lo, hi, np.dtype(dt))


class SymCtx(Base):
    sym = True

    def __init__(self, eng, pkg, explicit=False):
        super().__init__()
        self.eng, self.pkg, self.explicit = eng, pkg, explicit
        self.goals = []
        self.trivial = 0

    def _var(self, name, lo, hi):
        if (lo, hi) == (0, 1):
            return SymE(z3.ZeroExt(1, z3.BitVec(name, 1)), 0, 1), None
        if lo == hi: return lo, None
        w = width(lo, hi)
        e = SymE(z3.BitVec(name, w), lo, hi)
        if -(1 << (w - 1)) == lo and (1 << (w - 1)) - 1 == hi: return e, None
        v = z3.BitVec(name, w)
        return e, z3.And(v >= lo, v <= hi)

    def ints(self, name, shp, lo, hi, dt="int64"):
        name = self.prefix + name
        shp = (shp,) if isinstance(shp, int) else tuple(shp)
        o = np.empty(shp, dtype=object)
        f = o.reshape(-1)
        cons = []
        for i in range(f.size):
            f[i], c = self._var(f"{name}!{i}", lo, hi)
            if c is not None: cons.append(c)
        if cons: self.eng.assume(z3.And(cons))
        assert name not in self.inputs
        self.inputs[name] = (shp, dt, list(f))
        return snp.SA(o, np.dtype(dt))

    def _scalar(self, name, lo, hi, dt):
        name = self.prefix + name
        e, c = self._var(name, lo, hi)
        if c is not None: self.eng.assume(c)
        assert name not in self.inputs
        self.inputs[name] = (None, str(dt), [e])
        return SInt(e, dt)

    def const(self, a, dt=None):
        a = np.array(a) if dt is None else np.array(a, dtype=dt)
        return snp.from_np(a)

    def assume(self, *cs):
        c = b_norm(And(*cs))
        if type(c) is BoolE: self.eng.assume(c.e)
        elif not c: raise core.Infeasible

    def split(self, x):
        """a concrete value of x: one path per feasible value"""
        return core.split(raw(x))

    def go(self, *xs):
        """the inputs as the code gets them"""
        if self.explicit: xs = tuple(snp.to_np(x) for x in xs)
        xs = self.again(xs)
        return xs[0] if len(xs) == 1 else xs

    def prove(self, label, *cs):
        c = b_norm(And(*cs))
        if type(c) is not BoolE:
            if c: self.trivial += 1; return
            raise Candidate(label, self.eng.getmodel())
        self.goals.append((label, c))

    def flush(self):
        if not self.goals: return
        g, self.goals = self.goals, []
        if len(g) <= 8: g = [(l, c) for l, c in g if self.eng.known(c.e, [40]) is not True]
        if not g: return
        m = self.eng.refute(z3.And([c.e for _, c in g]))
        if m is not None:
            for label, c in g:
                if not z3.is_true(m.eval(c.e, model_completion=True)): break
            raise Candidate(label, m)

    def unexpected(self, e):
        raise Candidate(f"raises {type(e).__name__}: {e}", self.eng.getmodel())

    def values(self, m):
        """concrete inputs from a model"""
        out = {}
        for name, (shp, dt, els) in self.inputs.items():
            vs = [x.val if type(x) is SymE and x.val is not None else ev(x, m) for x in els]
            out[name] = vs[0] if shp is None else np.array(vs, dtype=object).reshape(shp).tolist()
        return out

    def observed(self, m): return [(l, obs(x, m)) for l, x in self.obs]


def ev(x, m):
    x = norm(x) if type(x) is SymE else x
    if type(x) is SymE: return m.eval(x.e, model_completion=True).as_signed_long()
    if type(x) is BoolE:
        x = b_norm(x)
        return z3.is_true(m.eval(x.e, model_completion=True)) if type(x) is BoolE else x
    return x


def obs(x, m=None):
    """JSON-able value of anything observed, under a model if symbolic"""
    if isinstance(x, (SymE, BoolE)): return num(ev(x, m))
    if isinstance(x, (SInt, SBool)): return num(ev(x.raw, m))
    if isinstance(x, SFrac):
        n, d = ev(x.n, m), ev(x.d, m)
        return num(n / d if n % d else n // d)
    if isinstance(x, snp.SA): return obs(x.o, m)
    if isinstance(x, np.ndarray):
        return [obs(y, m) for y in x] if x.ndim else obs(x[()], m)
    if isinstance(x, (list, tuple)): return [obs(y, m) for y in x]
    if isinstance(x, (set, frozenset)): return sorted(obs(y, m) for y in x)
    if x is None or isinstance(x, str): return x
    if isinstance(x, (bool, np.bool_, int, np.integer, float, np.floating)): return num(x)
    return f"<{type(x).__name__}>"


def num(x):
    f = float(x)
    if f != f: return "nan"
    return int(x) if f in (float("inf"), float("-inf")) or f.is_integer() and abs(f) < 2**53 else int(x) if not isinstance(x, float) else float(f"{f:.9g}")


class ConCtx(Base):
    sym = False
    explicit = False

    def __init__(self, pkg, inputs):
        super().__init__()
        self.pkg, self.given = pkg, inputs

    def ints(self, name, shp, lo, hi, dt="int64"):
        name = self.prefix + name
        shp = (shp,) if isinstance(shp, int) else tuple(shp)
        # an input the symbolic run had not reached: any value will do
        a = np.array(self.given[name], dtype=dt).reshape(shp) if name in self.given else np.full(shp, lo, dtype=dt)
        if a.size and (a.min() < lo or a.max() > hi): raise Precond(name)
        return a

    def _scalar(self, name, lo, hi, dt):
        name = self.prefix + name
        v = self.given.get(name, lo)
        if not lo <= v <= hi: raise Precond(name)
        return v if dt is None else dt.type(v)

    def const(self, a, dt=None): return np.array(a) if dt is None else np.array(a, dtype=dt)

    def assume(self, *cs):
        if not And(*cs): raise Precond("assumption")

    def split(self, x): return raw(x)
    def go(self, *xs):
        xs = self.again(xs)
        return xs[0] if len(xs) == 1 else xs

    def prove(self, label, *cs):
        if not And(*cs): raise Violation(label)

    def unexpected(self, e):
        raise Violation(f"raises {type(e).__name__}: {e}")

    def observed(self, m=None): return [(l, obs(x)) for l, x in self.obs]


class RealPkg:
    """the package as installed in /repo, imported the ordinary way (replays)"""
    def __init__(self, repo):
        import importlib
        if repo not in sys.path: sys.path.insert(0, repo)
        self.importlib, self.repo = importlib, repo
        self.np = np

    def load(self, name, **k): return self.importlib.import_module(name)


@contextlib.contextmanager
def time_limit(sec):
    def h(*_): raise Hang
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    o = sys.stdout
    sys.stdout = io.StringIO()
    try: yield sys.stdout
    finally: sys.stdout = o


def run_con(fn, cfg, pkg, inputs, limit):
    """('ok', observations) | ('violation', label) | ('precond', why) | ('missing', why)"""
    h = ConCtx(pkg, inputs)
    try:
        with quiet(), time_limit(limit):
            fn(h, **cfg)
    except Violation as e: return "violation", e.label
    except Precond as e: return "precond", str(e)
    except Missing as e: return "missing", str(e)
    except Hang: return "violation", f"does not finish within {limit} s"
    except Exception as e:
        # outside h.call: the harness could not read what the code returned
        return "violation", f"unusable result: {type(e).__name__}: {e}"
    return "ok", h.observed()
