"""Symbolic values and the path explorer.

The implementation's own Python code is run on proxy values.  A branch on a symbolic value asks z3
which outcomes are possible under the path condition and the explorer follows each of them
(re-execution, depth first).  Integers are exact: every expression carries an interval and a
bit-vector just wide enough for it; NumPy's fixed-width types wrap explicitly (see wrap()).
"""
import time, operator
import numpy as np
try:
    import z3
except ImportError:          # replay runs without a solver
    z3 = None

MAXW = 400          # an expression wider than this is split by value instead


class Infeasible(BaseException):
    """The assumptions of this path cannot be met."""


class Inconclusive(BaseException):
    """z3 answered unknown."""


class NonDet(BaseException):
    """re-execution took another course: the code keeps state the engine cannot replay."""


class CannotMerge(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# explorer
# ---------------------------------------------------------------------------------------------
class Engine:
    cur = None

    def __init__(self, timeout_ms=30000):
        self.s = z3.SolverFor("QF_BV")
        self.s.set("timeout", timeout_ms)
        self.stack = []        # trace entries that own a solver level, mirrored by push()
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.decisions = 0
        self.deadline = None

    # -- one run ------------------------------------------------------------------------------
    def start(self, prefix):
        self.__dict__.pop("hash_reps", None); self.sqrt_n = 0
        self.facts = {}               # id of an expression asserted on this path -> (expression, value)
        self.prefix = prefix          # list of entries to replay
        self.pos = 0
        self.trace = []
        self.alts = []                # (trace length, flipped entry)
        self.level = 0
        # drop solver levels that do not belong to this prefix
        keep = 0
        owned = [e for e in prefix if e[2]]
        while keep < len(self.stack) and keep < len(owned) and self.stack[keep] == owned[keep]:
            keep += 1
        # assumption levels are re-asserted lazily, so they can be kept with their position
        while len(self.stack) > keep:
            self.s.pop(); self.stack.pop()
        self.model = None
        Engine.cur = self

    def check(self, *extra):
        self.queries += 1
        t = time.perf_counter()
        r = self.s.check(*extra)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive(self.s.reason_unknown())
        return r == z3.sat

    def getmodel(self):
        if self.model is None:
            if not self.check():
                raise Infeasible()
            self.model = self.s.model()
        return self.model

    def holds_in_model(self, c):
        return z3.is_true(self.getmodel().eval(c, model_completion=True))

    def _own(self, entry, cons):
        """entry owns a solver level; assert cons unless a kept level already does."""
        self.facts[cons.get_id()] = (cons, True)
        if z3.is_not(cons):
            c = cons.arg(0)
            self.facts[c.get_id()] = (c, False)
        self.trace.append(entry)
        if self.level < len(self.stack):
            if self.stack[self.level] != entry: raise NonDet
        else:
            self.s.push(); self.s.add(cons); self.stack.append(entry)
        self.level += 1

    def assume(self, c):
        """c: z3 Bool"""
        e = ("a", True, True)
        if self.pos < len(self.prefix):
            e2 = self.prefix[self.pos]; self.pos += 1
            if e2 != e: raise NonDet
            self._own(e, c)
            self.model = None
            return
        m = self.model
        self._own(e, c)
        if m is not None and z3.is_true(m.eval(c, model_completion=True)):
            return
        self.model = None
        self.getmodel()

    def branch(self, c):
        """c: z3 Bool; the truth value of c on this path."""
        self.decisions += 1
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("path deadline")
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]; self.pos += 1
            if e[0] != "b": raise NonDet
            if e[2]:
                self._own(e, c if e[1] else z3.Not(c))
                if self.model is not None and self.holds_in_model(c) != e[1]:
                    self.model = None
            else:
                self.trace.append(e)
            return e[1]
        v = self.holds_in_model(c)
        other = z3.Not(c) if v else c
        self.s.push(); self.s.add(other)
        try:
            feas = self.check()
        finally:
            self.s.pop()
        if not feas:
            self.trace.append(("b", v, False))
            return v
        self.forks += 1
        self.alts.append((len(self.trace), ("b", not v, True)))
        self._own(("b", v, True), c if v else z3.Not(c))
        return v

    def value(self, e, signed=True):
        """split on the value of the bit-vector e"""
        while True:
            if self.pos < len(self.prefix):
                en = self.prefix[self.pos]; self.pos += 1
                if en[0] != "v": raise NonDet
                v = en[3]
                c = e == v
                if en[2]:
                    self._own(en, c if en[1] else z3.Not(c))
                    self.model = None
                else:
                    self.trace.append(en)
                if en[1]:
                    return v
                continue
            v = self.getmodel().eval(e, model_completion=True).as_signed_long()
            c = e == v
            self.decisions += 1
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("path deadline")
            self.s.push(); self.s.add(z3.Not(c))
            try:
                feas = self.check()
            finally:
                self.s.pop()
            if not feas:
                self.trace.append(("v", True, False, v))
                return v
            self.forks += 1
            self.alts.append((len(self.trace), ("v", False, True, v)))
            self._own(("v", True, True, v), c)
            return v

    def known(self, c, fuel):
        """the value of c if it follows from the conditions of this path by its Boolean structure alone, else None"""
        f = self.facts.get(c.get_id())
        if f: return f[1]
        if fuel[0] <= 0: return None
        fuel[0] -= 1
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if z3.is_not(c):
            v = self.known(c.arg(0), fuel)
            return None if v is None else not v
        if z3.is_and(c) or z3.is_or(c):
            vs = [self.known(x, fuel) for x in c.children()]
            if z3.is_and(c): return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if c.decl().kind() == z3.Z3_OP_XOR:
            vs = [self.known(x, fuel) for x in c.children()]
            return None if None in vs else vs[0] != vs[1]
        return None

    def refute(self, c):
        """None if c holds on every input of this path, else a model of its negation"""
        self.s.push(); self.s.add(z3.Not(c))
        try:
            if self.check():
                return self.s.model()
            return None
        finally:
            self.s.pop()

    def pending(self):
        """prefixes still to explore that this run opened (deepest last)"""
        return [self.trace[:n] + [e] for n, e in self.alts]


def eng():
    return Engine.cur


# ---------------------------------------------------------------------------------------------
# raw layer: Python int | SymE, and bool | z3 BoolRef (class BoolE)
# ---------------------------------------------------------------------------------------------
class SymE:
    __slots__ = ("e", "lo", "hi", "val")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi, self.val = e, lo, hi, None


class BoolE:
    """symbolic truth value; pin=(SymE, const): true means SymE == const; neg: false means so"""
    __slots__ = ("e", "pin", "npin", "val")

    def __init__(self, e, pin=None, npin=None):
        self.e, self.pin, self.npin, self.val = e, pin, npin, None


def width(lo, hi):
    return max(hi.bit_length() if hi >= 0 else (~hi).bit_length(),
               lo.bit_length() if lo >= 0 else (~lo).bit_length()) + 1


def mk(e, lo, hi):
    if lo == hi:
        return lo
    w = width(lo, hi)
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    elif s < w:
        e = z3.SignExt(w - s, e)
    return SymE(e, lo, hi)


def norm(a):
    if type(a) is SymE and a.val is not None:
        return a.val
    return a


def ext(a, w):
    if type(a) is SymE:
        s = a.e.size()
        return z3.SignExt(w - s, a.e) if s < w else a.e
    return z3.BitVecVal(a, w)


def rng(a):
    return (a.lo, a.hi) if type(a) is SymE else (a, a)


def split(a):
    """a concrete value for a: explores every feasible one"""
    a = norm(a)
    if type(a) is SymE:
        v = eng().value(a.e)
        a.val = v
        return v
    return a


def _wide(w):
    return w > MAXW


def r_add(a, b):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return a + b
    if type(b) is not SymE and b == 0: return a
    if type(a) is not SymE and a == 0: return b
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = al + bl, ah + bh
    w = max(width(lo, hi), width(al, ah), width(bl, bh))
    if _wide(w): return split(a) + split(b)
    return mk(ext(a, w) + ext(b, w), lo, hi)


def r_neg(a):
    a = norm(a)
    if type(a) is not SymE: return -a
    w = max(width(-a.hi, -a.lo), width(a.lo, a.hi))
    return mk(-ext(a, w), -a.hi, -a.lo)


def r_sub(a, b):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return a - b
    if type(b) is not SymE and b == 0: return a
    if a is b: return 0
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = al - bh, ah - bl
    w = max(width(lo, hi), width(al, ah), width(bl, bh))
    if _wide(w): return split(a) - split(b)
    return mk(ext(a, w) - ext(b, w), lo, hi)


def r_mul(a, b):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return a * b
    for x, y in ((a, b), (b, a)):
        if type(x) is not SymE:
            if x == 0: return 0
            if x == 1: return y
    # 0/1 factor: a conditional is much easier than a multiplier
    for x, y in ((a, b), (b, a)):
        if type(x) is SymE and x.lo == 0 and x.hi == 1:
            return r_ite(BoolE(x.e == 1, pin=(x, 1), npin=(x, 0)), y, 0)
    (al, ah), (bl, bh) = rng(a), rng(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    w = max(width(lo, hi), width(al, ah), width(bl, bh))
    if _wide(w): return split(a) * split(b)
    a, b = ext(a, w), ext(b, w)
    if a.get_id() > b.get_id(): a, b = b, a      # equal products look equal
    return mk(a * b, lo, hi)


def r_divmod(a, b):
    """floor division; the caller has excluded b == 0"""
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return divmod(a, b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if bl <= 0 <= bh:
        # the divisor is known to be non-zero on this path but its interval is not
        if r_truth(r_lt(0, b)):
            bl = max(bl, 1)
        else:
            bh = min(bh, -1)
    w = max(width(al, ah), width(bl, bh)) + 1
    if _wide(w): return divmod(split(a), split(b))
    x, y = ext(a, w), ext(b, w)
    if al >= 0 and bl > 0:
        q, r = z3.UDiv(x, y), z3.URem(x, y)
        return mk(q, al // bh, ah // bl), mk(r, 0, min(ah, bh - 1))
    q, r = x / y, z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    q = z3.If(adj, q - 1, q)
    r = z3.If(adj, r + y, r)
    m = max(abs(al), abs(ah)) + 1
    rl, rh = (0, bh - 1) if bl > 0 else (bl + 1, 0)
    return mk(q, -m, m), mk(r, rl, rh)


def r_shl(a, b):
    a, b = norm(a), norm(b)
    if type(b) is SymE:
        if b.hi > 64 or type(a) is SymE and _wide(a.e.size() + b.hi):
            b = split(b)
        else:
            if b.lo < 0: b = split(b)
    if type(b) is not SymE:
        if b < 0: raise ValueError("negative shift count")
        if type(a) is not SymE: return a << b
        return r_mul(a, 1 << b)
    (al, ah) = rng(a)
    lo, hi = min(al << b.lo, al << b.hi), max(ah << b.lo, ah << b.hi)
    w = max(width(lo, hi), width(b.lo, b.hi))
    return mk(ext(a, w) << ext(b, w), lo, hi)


def r_shr(a, b):
    a, b = norm(a), norm(b)
    if type(b) is SymE and b.lo < 0: b = split(b)
    if type(b) is not SymE:
        if b < 0: raise ValueError("negative shift count")
        if type(a) is not SymE: return a >> b
    (al, ah), (bl, bh) = rng(a), rng(b)
    if bl > 1000: return split(a) >> split(b)
    w = max(width(al, ah), width(bl, bh))
    lo = min(al >> bl, al >> min(bh, 5000)); hi = max(ah >> bl, ah >> min(bh, 5000))
    return mk(ext(a, w) >> ext(b, w), lo, hi)


def _bitop(a, b, zop, pyop, kind):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return pyop(a, b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    w = max(width(al, ah), width(bl, bh))
    m = (1 << (w - 1)) - 1
    if kind == "and":
        if al >= 0 and bl >= 0: lo, hi = 0, min(ah, bh)
        elif al >= 0: lo, hi = 0, ah
        elif bl >= 0: lo, hi = 0, bh
        else: lo, hi = -m - 1, m
    else:
        lo, hi = (0, m) if al >= 0 and bl >= 0 else (-m - 1, m)
    return mk(zop(ext(a, w), ext(b, w)), lo, hi)


def r_and(a, b): return _bitop(a, b, operator.and_, operator.and_, "and")
def r_or(a, b): return _bitop(a, b, operator.or_, operator.or_, "or")
def r_xor(a, b): return _bitop(a, b, operator.xor, operator.xor, "xor")


def r_inv(a):
    return r_sub(-1, a)


def r_eq(a, b):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return a == b
    if a is b: return True
    (al, ah), (bl, bh) = rng(a), rng(b)
    if ah < bl or bh < al: return False
    w = max(width(al, ah), width(bl, bh))
    pin = npin = None
    if type(b) is not SymE: pin = (a, b)
    elif type(a) is not SymE: pin = (b, a)
    if pin and pin[0].hi - pin[0].lo == 1:
        npin = (pin[0], pin[0].hi if pin[1] == pin[0].lo else pin[0].lo)
    a, b = ext(a, w), ext(b, w)
    return BoolE(b == a if a.get_id() > b.get_id() else a == b, pin, npin)


def r_lt(a, b):
    a, b = norm(a), norm(b)
    if type(a) is not SymE and type(b) is not SymE:
        return a < b
    if a is b: return False
    (al, ah), (bl, bh) = rng(a), rng(b)
    if ah < bl: return True
    if al >= bh: return False
    w = max(width(al, ah), width(bl, bh))
    pin = npin = None
    if type(b) is not SymE and al == b - 1: pin = (a, al)
    if type(a) is not SymE and bh == a + 1: pin = (b, bh)
    if pin and pin[0].hi - pin[0].lo == 1:
        npin = (pin[0], pin[0].hi if pin[1] == pin[0].lo else pin[0].lo)
    return BoolE(ext(a, w) < ext(b, w), pin, npin)


def r_le(a, b): return b_not(r_lt(b, a))


def b_norm(c):
    if type(c) is BoolE:
        if c.val is not None: return c.val
        if c.pin and c.pin[0].val is not None:
            return c.pin[0].val == c.pin[1]
        if c.npin and c.npin[0].val is not None:
            return c.npin[0].val != c.npin[1]
        return c
    return bool(c)


def b_not(c):
    c = b_norm(c)
    if type(c) is BoolE: return BoolE(z3.Not(c.e), c.npin, c.pin)
    return not c


def b_and(*cs):
    out = []
    for c in cs:
        c = b_norm(c)
        if type(c) is BoolE: out.append(c)
        elif not c: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return BoolE(z3.And([c.e for c in out]))


def b_or(*cs):
    out = []
    for c in cs:
        c = b_norm(c)
        if type(c) is BoolE: out.append(c)
        elif c: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return BoolE(z3.Or([c.e for c in out]))


def b_xor(a, b):
    a, b = b_norm(a), b_norm(b)
    if type(a) is not BoolE: return b_not(b) if a else b
    if type(b) is not BoolE: return b_not(a) if b else a
    return BoolE(z3.Xor(a.e, b.e))


def b_e(c):
    c = b_norm(c)
    return c.e if type(c) is BoolE else z3.BoolVal(c)


def r_truth(c):
    """the value of c on this path (branches)"""
    c = b_norm(c)
    if type(c) is not BoolE: return c
    v = eng().branch(c.e)
    c.val = v
    if v and c.pin: c.pin[0].val = c.pin[1]
    if not v and c.npin: c.npin[0].val = c.npin[1]
    return v


def b2i(c):
    c = b_norm(c)
    if type(c) is BoolE:
        return SymE(z3.If(c.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    return int(c)


def r_ite(c, a, b):
    c = b_norm(c)
    if type(c) is not BoolE: return a if c else b
    a, b = norm(a), norm(b)
    if a is b or (type(a) is not SymE and type(b) is not SymE and a == b): return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = width(lo, hi)
    return SymE(z3.If(c.e, ext(a, w), ext(b, w)), lo, hi)


def b_ite(c, a, b):
    c = b_norm(c)
    if type(c) is not BoolE: return a if c else b
    a, b = b_norm(a), b_norm(b)
    if type(a) is not BoolE and type(b) is not BoolE:
        if a == b: return a
        return c if a else b_not(c)
    return BoolE(z3.If(c.e, b_e(a), b_e(b)))


# ---------------------------------------------------------------------------------------------
# scalar proxies
# ---------------------------------------------------------------------------------------------
I8, I64, F64, BOOL = np.dtype("int8"), np.dtype("int64"), np.dtype("float64"), np.dtype("bool")


def iinfo(dt):
    n = dt.itemsize * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1, n) if dt.kind == "i" else (0, (1 << n) - 1, n)


def wrap(a, dt):
    """value stored in an integer array/scalar of type dt (None: Python int, unbounded)"""
    if dt is None or dt.kind not in "iu":
        return a
    a = norm(a)
    lo, hi, n = iinfo(dt)
    al, ah = rng(a)
    if lo <= al and ah <= hi:
        return a
    if type(a) is not SymE:
        a &= (1 << n) - 1
        return a - (1 << n) if dt.kind == "i" and a > hi else a
    e = ext(a, max(a.e.size(), n))
    e = z3.Extract(n - 1, 0, e)
    return SymE(e, lo, hi) if dt.kind == "i" else SymE(z3.ZeroExt(1, e), lo, hi)


def into_weak(a, dt):
    """Python int entering an operation with a NumPy value of type dt (NEP 50)"""
    if dt.kind not in "iu": return a
    lo, hi, n = iinfo(dt)
    al, ah = rng(norm(a))
    if lo <= al and ah <= hi: return a
    if r_truth(b_or(r_lt(a, lo), r_lt(hi, a))):
        raise OverflowError(f"Python integer out of bounds for {dt}")
    return a


def result_dt(a, b):
    """dtype of a binary operation between integer scalars/arrays; None means Python int"""
    if a is None: return b
    if b is None: return a
    return np.result_type(a, b)


HASH = {"mode": "values"}


class SInt:
    """integer scalar; dt is None for a Python int, else the NumPy dtype it carries"""
    __slots__ = ("raw", "dt")
    __array_ufunc__ = None

    def __init__(self, raw, dt=None):
        self.raw, self.dt = raw, dt

    # -- helpers
    def sym(self): return type(norm(self.raw)) is SymE

    def _bin(self, other, op, swap=False):
        o = scalar(other)
        if o is NotImplemented: return _array_bin(self, other, op, swap)
        if isinstance(o, float) or isinstance(o, SFrac):
            return SFrac.of(self)._bin(o, op, swap)
        if isinstance(o, SBool): o = SInt(b2i(o.raw), None if o.py else I8 if self.dt is None else self.dt)
        dt = result_dt(self.dt, o.dt)
        a, b = self.raw, o.raw
        if dt is not None:
            if self.dt is None: a = into_weak(a, dt)
            if o.dt is None: b = into_weak(b, dt)
        if swap: a, b = b, a
        return SInt(int_op(op, a, b, dt), dt)

    def __add__(s, o): return s._bin(o, "add")
    def __radd__(s, o): return s._bin(o, "add", True)
    def __sub__(s, o): return s._bin(o, "subtract")
    def __rsub__(s, o): return s._bin(o, "subtract", True)
    def __mul__(s, o): return s._bin(o, "multiply")
    def __rmul__(s, o): return s._bin(o, "multiply", True)
    def __floordiv__(s, o): return s._bin(o, "floor_divide")
    def __rfloordiv__(s, o): return s._bin(o, "floor_divide", True)
    def __mod__(s, o): return s._bin(o, "remainder")
    def __rmod__(s, o): return s._bin(o, "remainder", True)
    def __divmod__(s, o): return s // o, s % o
    def __lshift__(s, o): return s._bin(o, "left_shift")
    def __rlshift__(s, o): return s._bin(o, "left_shift", True)
    def __rshift__(s, o): return s._bin(o, "right_shift")
    def __rrshift__(s, o): return s._bin(o, "right_shift", True)
    def __and__(s, o): return s._bin(o, "bitwise_and")
    def __rand__(s, o): return s._bin(o, "bitwise_and", True)
    def __or__(s, o): return s._bin(o, "bitwise_or")
    def __ror__(s, o): return s._bin(o, "bitwise_or", True)
    def __xor__(s, o): return s._bin(o, "bitwise_xor")
    def __rxor__(s, o): return s._bin(o, "bitwise_xor", True)
    def __pow__(s, o, m=None):
        if m is not None: return pow(int(s), int(o), int(m))
        return s._bin(o, "power")
    def __rpow__(s, o): return s._bin(o, "power", True)
    def __truediv__(s, o):
        if scalar(o) is NotImplemented: return _array_bin(s, o, "true_divide", False)
        return SFrac.of(s)._bin(o, "true_divide", False)
    def __rtruediv__(s, o): return SFrac.of(s)._bin(o, "true_divide", True)
    def __neg__(s): return SInt(wrap(r_neg(s.raw), s.dt), s.dt)
    def __pos__(s): return s
    def __invert__(s): return SInt(wrap(r_inv(s.raw), s.dt), s.dt)
    def __abs__(s): return SInt(wrap(r_abs(s.raw), s.dt), s.dt)

    def _cmp(self, other, f, swap=False):
        o = scalar(other)
        if o is NotImplemented:
            return _array_cmp(self, other, f)
        if o is None: return NotImplemented
        if isinstance(o, (float, SFrac)):
            return SFrac.of(self)._cmp(o, f)
        if isinstance(o, SBool): o = SInt(b2i(o.raw))
        return mkbool(CMP[f](self.raw, o.raw), self.dt is None and o.dt is None)

    def __eq__(s, o):
        if o is None or isinstance(o, (str, bytes)): return False
        return s._cmp(o, "equal")
    def __ne__(s, o):
        if o is None or isinstance(o, (str, bytes)): return True
        return s._cmp(o, "not_equal")
    def __lt__(s, o): return s._cmp(o, "less")
    def __le__(s, o): return s._cmp(o, "less_equal")
    def __gt__(s, o): return s._cmp(o, "greater")
    def __ge__(s, o): return s._cmp(o, "greater_equal")

    def __bool__(s): return r_truth(b_not(r_eq(s.raw, 0)))
    def __index__(s): return split(s.raw)
    def __int__(s): return split(s.raw)
    def __float__(s): return float(split(s.raw))
    def __trunc__(s): return SInt(s.raw)
    def __round__(s, n=None): return SInt(s.raw) if n is None else s
    def __floor__(s): return SInt(s.raw)
    def __ceil__(s): return SInt(s.raw)

    def __hash__(s):
        r = norm(s.raw)
        if type(r) is not SymE: return hash(r)
        if HASH["mode"] == "classes": return class_hash(r)
        return hash(split(r))

    def __repr__(s):
        r = norm(s.raw)
        return repr(r) if type(r) is not SymE else "<sym>"
    __str__ = __repr__
    def __format__(s, f):
        r = norm(s.raw)
        return format(r, f) if type(r) is not SymE else "<sym>"

    # numpy scalar surface
    @property
    def dtype(s): return s.dt if s.dt is not None else _no("dtype")
    shape = property(lambda s: ())
    ndim = property(lambda s: 0)
    size = property(lambda s: 1)
    real = property(lambda s: s)
    def item(s): return SInt(s.raw)
    def tolist(s): return SInt(s.raw)
    def astype(s, dt, **k): return cast_scalar(s, np.dtype(dt))
    def copy(s): return s
    def sum(s, *a, **k): return s
    def bit_length(s): return split(s.raw).bit_length()
    def bit_count(s): return split(s.raw).bit_count()
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    def __reduce__(s): return (int, (split(s.raw),))


def _no(n): raise AttributeError(n)


def class_hash(r):
    """hash by equality class: equal to an earlier hashed symbolic value of this run, or new"""
    reps = eng().__dict__.setdefault("hash_reps", [])
    for rep, h in reps:
        if r_truth(r_eq(r, rep)): return h
    h = 0x5EED0000 + 7919 * len(reps)
    reps.append((r, h))
    return h


def r_abs(a):
    a = norm(a)
    if type(a) is not SymE: return abs(a)
    if a.lo >= 0: return a
    return r_ite(r_lt(a, 0), r_neg(a), a)


def r_pow(a, b):
    b = split(b)
    if b < 0: raise ValueError("Integers to negative integer powers are not allowed.")
    a = norm(a)
    if type(a) is not SymE: return a ** b
    if width(a.lo, a.hi) * b > MAXW: return split(a) ** b
    out = 1
    for _ in range(b): out = r_mul(out, a)
    return out


def int_op(op, a, b, dt):
    """integer operation with the wrap-around of dt"""
    if op in ("floor_divide", "remainder"):
        if r_truth(r_eq(b, 0)):
            if dt is None: raise ZeroDivisionError("integer division or modulo by zero")
            return 0                                  # NumPy: 0 and a RuntimeWarning
        q, r = r_divmod(a, b)
        return wrap(q if op == "floor_divide" else r, dt)
    if op in ("left_shift", "right_shift") and dt is not None and dt.kind in "iu":
        n = dt.itemsize * 8
        if r_truth(b_or(r_lt(b, 0), r_le(n, b))):
            return 0 if op == "left_shift" else r_ite(r_lt(a, 0), -1, 0)
    return wrap(OPS[op](a, b), dt)


def r_min(a, b): return r_ite(r_le(a, b), a, b)
def r_max(a, b): return r_ite(r_le(b, a), a, b)


OPS = {"add": r_add, "subtract": r_sub, "multiply": r_mul, "left_shift": r_shl, "right_shift": r_shr,
       "bitwise_and": r_and, "bitwise_or": r_or, "bitwise_xor": r_xor, "power": r_pow,
       "minimum": r_min, "maximum": r_max}
CMP = {"equal": r_eq, "not_equal": lambda a, b: b_not(r_eq(a, b)), "less": r_lt, "less_equal": r_le,
       "greater": lambda a, b: r_lt(b, a), "greater_equal": lambda a, b: r_le(b, a)}


def mkbool(raw, py=False):
    raw = b_norm(raw)
    return raw if type(raw) is not BoolE else SBool(raw, py)


class SBool:
    __slots__ = ("raw", "py")
    __array_ufunc__ = None

    def __init__(self, raw, py=False):
        self.raw, self.py = raw, py

    def __bool__(s): return r_truth(s.raw)
    def _log(s, o, f, g):
        if isinstance(o, (bool, np.bool_)): o = bool(o)
        elif isinstance(o, SBool): o = o.raw
        elif scalar(o) is NotImplemented: return _array_bin(s, o, g, False)
        else: return getattr(SInt(b2i(s.raw)), {"bitwise_and": "__and__", "bitwise_or": "__or__", "bitwise_xor": "__xor__"}[g])(o)
        return mkbool(f(s.raw, o), s.py)
    def __and__(s, o): return s._log(o, b_and, "bitwise_and")
    def __or__(s, o): return s._log(o, b_or, "bitwise_or")
    def __xor__(s, o): return s._log(o, b_xor, "bitwise_xor")
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(s): return mkbool(b_not(s.raw), s.py) if not s.py else ~SInt(b2i(s.raw))
    def i(s): return SInt(b2i(s.raw), None if s.py else I64)
    def __add__(s, o): return s.i() + o
    def __radd__(s, o): return o + s.i() if not isinstance(o, int) else s.i().__radd__(o)
    def __sub__(s, o): return s.i() - o
    def __rsub__(s, o): return s.i().__rsub__(o)
    def __mul__(s, o): return s.i() * o
    def __rmul__(s, o): return s.i().__rmul__(o)
    def __eq__(s, o):
        if isinstance(o, SBool): return mkbool(b_not(b_xor(s.raw, o.raw)), s.py)
        if isinstance(o, (bool, np.bool_)): return mkbool(s.raw if o else b_not(s.raw), s.py)
        return s.i() == o
    def __ne__(s, o):
        r = s.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(b_not(r.raw), s.py)
    def __lt__(s, o): return s.i() < o
    def __le__(s, o): return s.i() <= o
    def __gt__(s, o): return s.i() > o
    def __ge__(s, o): return s.i() >= o
    def __neg__(s): return -s.i()
    def __index__(s): return int(bool(s))
    def __int__(s): return int(bool(s))
    def __hash__(s): return hash(bool(s))
    def __repr__(s):
        r = b_norm(s.raw)
        return "<sym>" if type(r) is BoolE else repr(r)
    def __format__(s, f): return repr(s)
    def all(s, *a, **k): return s
    def any(s, *a, **k): return s
    def item(s): return SBool(s.raw, True)
    def astype(s, dt, **k): return cast_scalar(s, np.dtype(dt))
    dtype = BOOL
    shape = ()
    ndim = 0


FLOAT_OP = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv,
            "power": operator.pow, "floor_divide": operator.floordiv}


class SFrac:
    """rational num/den (den > 0) standing for a double: rounded like one when concrete, exact when symbolic"""
    __slots__ = ("n", "d")
    __array_ufunc__ = None

    def __init__(self, n, d=1):
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        if isinstance(x, SFrac): return x
        if isinstance(x, SInt): return SFrac(x.raw)
        if isinstance(x, SBool): return SFrac(b2i(x.raw))
        if isinstance(x, (float, np.floating)):
            n, d = float(x).as_integer_ratio()
            return SFrac(n, d)
        return SFrac(*float(int(x)).as_integer_ratio())

    def rounded(self):
        """values that do not fit the mantissa are split into constants"""
        n, d = norm(self.n), norm(self.d)
        if type(n) is SymE and type(d) is not SymE and max(-n.lo, n.hi) >= 2 ** 53 * d: return SFrac.of(split(n) / d)
        return self

    def conc(self):
        """the double, if it is a constant"""
        n, d = norm(self.n), norm(self.d)
        return None if type(n) is SymE or type(d) is SymE else n / d

    def _bin(self, other, op, swap):
        if scalar(other) is NotImplemented: return NotImplemented
        a, b = self, SFrac.of(other)
        if swap: a, b = b, a
        x, y = a.conc(), b.conc()
        if x is not None and y is not None and op in FLOAT_OP:
            r = FLOAT_OP[op](x, y)
            return SFrac.of(r) if r - r == 0 else r
        if op == "add": return SFrac(r_add(r_mul(a.n, b.d), r_mul(b.n, a.d)), r_mul(a.d, b.d))
        if op == "subtract": return SFrac(r_sub(r_mul(a.n, b.d), r_mul(b.n, a.d)), r_mul(a.d, b.d))
        if op == "multiply": return SFrac(r_mul(a.n, b.n), r_mul(a.d, b.d)).rounded()
        if op == "true_divide":
            if r_truth(r_eq(b.n, 0)): raise ZeroDivisionError("division by zero")
            n, d = r_mul(a.n, b.d), r_mul(a.d, b.n)
            if r_truth(r_lt(d, 0)): n, d = r_neg(n), r_neg(d)
            return SFrac(n, d)
        if op == "power":
            e = int(SInt(b.n)); assert b.d == 1
            return SFrac(r_pow(a.n, e), r_pow(a.d, e)).rounded()
        if op == "floor_divide":
            q, _ = r_divmod(r_mul(a.n, b.d), r_mul(a.d, b.n))
            return SFrac(q)
        raise NotImplementedError(op)

    def __add__(s, o): return s._bin(o, "add", False)
    def __radd__(s, o): return s._bin(o, "add", True)
    def __sub__(s, o): return s._bin(o, "subtract", False)
    def __rsub__(s, o): return s._bin(o, "subtract", True)
    def __mul__(s, o): return s._bin(o, "multiply", False)
    def __rmul__(s, o): return s._bin(o, "multiply", True)
    def __truediv__(s, o): return s._bin(o, "true_divide", False)
    def __rtruediv__(s, o): return s._bin(o, "true_divide", True)
    def __floordiv__(s, o): return s._bin(o, "floor_divide", False)
    def __pow__(s, o): return s._bin(o, "power", False)
    def __neg__(s): return SFrac(r_neg(s.n), s.d)
    def __pos__(s): return s
    def __abs__(s): return SFrac(r_abs(s.n), s.d)

    def _cmp(self, other, f):
        b = SFrac.of(other)
        return mkbool(CMP[f](r_mul(self.n, b.d), r_mul(b.n, self.d)), True)
    def __eq__(s, o):
        if o is None: return False
        return s._cmp(o, "equal")
    def __ne__(s, o):
        if o is None: return True
        return s._cmp(o, "not_equal")
    def __lt__(s, o): return s._cmp(o, "less")
    def __le__(s, o): return s._cmp(o, "less_equal")
    def __gt__(s, o): return s._cmp(o, "greater")
    def __ge__(s, o): return s._cmp(o, "greater_equal")
    def __bool__(s): return r_truth(b_not(r_eq(s.n, 0)))
    def __hash__(s): return hash(float(s))
    def __float__(s): return split(s.n) / split(s.d)
    def trunc(s):
        q, _ = r_divmod(r_abs(s.n), s.d)
        return SInt(r_ite(r_lt(s.n, 0), r_neg(q), q))
    __trunc__ = trunc
    def __int__(s): return int(s.trunc())
    def __floor__(s): return SInt(r_divmod(s.n, s.d)[0])
    def __ceil__(s): return SInt(r_neg(r_divmod(r_neg(s.n), s.d)[0]))
    def __round__(s, nd=None):
        # half to even
        q, r = r_divmod(s.n, s.d)
        r2 = r_mul(2, r)
        up = b_or(r_lt(s.d, r2), b_and(r_eq(r2, s.d), r_eq(r_divmod(q, 2)[1], 1)))
        v = SInt(r_ite(up, r_add(q, 1), q))
        return v if nd is None else SFrac.of(v)
    def is_integer(s): return mkbool(r_eq(r_divmod(s.n, s.d)[1], 0), True)
    def __repr__(s): return "<frac>"
    def __format__(s, f): return "<frac>"


def scalar(x):
    """Python/NumPy number or proxy as SInt/SBool/float/SFrac; NotImplemented for anything else"""
    if isinstance(x, (SInt, SBool, SFrac)): return x
    t = type(x)
    if t is int: return SInt(x)
    if t is bool: return SInt(int(x))
    if t is float: return x
    if isinstance(x, np.bool_): return SInt(int(x), I8)
    if isinstance(x, np.integer): return SInt(int(x), x.dtype)
    if isinstance(x, np.floating): return float(x)
    if isinstance(x, int): return SInt(int(x))
    return NotImplemented


def cast_scalar(x, dt):
    if dt.kind == "b":
        if isinstance(x, SBool): return x
        return mkbool(b_not(r_eq(scalar(x).raw, 0)))
    if dt.kind in "iu":
        if isinstance(x, SBool): return SInt(b2i(x.raw), dt)
        if isinstance(x, SFrac): x = x.trunc()
        return SInt(wrap(scalar(x).raw, dt), dt)
    if dt.kind == "f": return SFrac.of(x)
    return x


ARRAY_BIN = []      # set by snp: (binary, compare)


def _array_bin(a, b, op, swap): return ARRAY_BIN[0](a, b, op, swap) if ARRAY_BIN else NotImplemented
def _array_cmp(a, b, f): return ARRAY_BIN[1](a, b, f) if ARRAY_BIN else NotImplemented


def issym(x):
    if isinstance(x, SInt): return x.sym()
    if isinstance(x, SBool): return type(b_norm(x.raw)) is BoolE
    if isinstance(x, SFrac): return type(norm(x.n)) is SymE or type(norm(x.d)) is SymE
    return False


def ite(c, a, b):
    """merge two values under the raw condition c"""
    c = b_norm(c)
    if type(c) is not BoolE: return a if c else b
    if a is b: return a
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        f = lambda x: x.raw if isinstance(x, SBool) else bool(x)
        return mkbool(b_ite(c, f(a), f(b)), True)
    sa, sb = scalar(a), scalar(b)
    if isinstance(sa, SInt) and isinstance(sb, SInt) and not isinstance(a, bool) and not isinstance(b, bool):
        if sa.dt == sb.dt: return SInt(r_ite(c, sa.raw, sb.raw), sa.dt)
        raise CannotMerge
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None and b is None: return None
    raise CannotMerge
