"""Symbolic arrays and the stand-in for the numpy module that the code under test is given.

An SA holds an object ndarray of raw elements (int | SymE for integer types, bool | BoolE for bool,
float | SFrac for floats) and the logical dtype.  Views share memory as in NumPy.  Anything not
modelled here is decided by splitting every symbolic element involved on its value and calling the
real NumPy, so an unknown function costs paths, not soundness.
"""
import types, functools, operator, builtins
import numpy as np
from . import core
from .core import (SInt, SBool, SFrac, SymE, BoolE, norm, b_norm, r_eq, r_ite, b_ite, r_truth, b_and, b_or,
                   b_not, b_xor, b2i, wrap, split, int_op, CMP, mkbool, I64, F64, BOOL, result_dt, rng, into_weak)


def arrayish(x): return isinstance(x, (SA, np.ndarray))


def raw_of(x, dt):
    """element x as a raw of dtype dt"""
    if isinstance(x, SInt): r = x.raw
    elif isinstance(x, SBool): r = x.raw
    elif isinstance(x, SFrac): r = x
    elif isinstance(x, np.generic): r = x.item()
    else: r = x
    return conv(r, dt)


def conv(r, dt):
    """convert a raw to dtype dt (C-cast semantics)"""
    k = dt.kind
    if k == "b":
        if isinstance(r, (bool, BoolE)): return r
        if isinstance(r, SFrac): return b_not(r_eq(r.n, 0))
        if isinstance(r, (int, SymE)): return b_norm(b_not(r_eq(r, 0)))
        return bool(r)
    if k in "iu":
        if isinstance(r, (bool, BoolE)): return wrap(b2i(r), dt)
        if isinstance(r, SFrac): return wrap(r.trunc().raw, dt)
        if isinstance(r, float): return wrap(int(r), dt)
        if isinstance(r, (int, SymE)): return wrap(r, dt)
        raise TypeError(f"int() argument must be a number, not {type(r).__name__}")
    if k == "O":                       # Python integers
        return b2i(r) if isinstance(r, (bool, BoolE)) else r
    if k == "f":
        if isinstance(r, (bool, BoolE)): r = b2i(r)
        if isinstance(r, int): return float(r)
        if isinstance(r, SymE): return SFrac(r)
        return r
    return r


def conv_strict(x, dt):
    """assignment of a scalar: a Python int that does not fit raises OverflowError (NumPy 2)"""
    if dt.kind in "iu" and (type(x) is int or isinstance(x, SInt) and x.dt is None):
        return wrap(into_weak(x if type(x) is int else x.raw, dt), dt)
    return raw_of(x, dt)


def out_scalar(r, dt):
    """raw element -> scalar the code sees"""
    k = dt.kind
    if k == "b":
        return mkbool(r)
    if k in "iu":
        return SInt(r, dt)
    if k == "O":
        return SInt(r) if isinstance(r, (int, SymE)) else r
    if k == "f":
        if isinstance(r, SFrac): return r
        return np.float64(r)
    return r


_conv_cache = {}


def uf(f, n):
    return np.frompyfunc(f, n, 1)


def obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


class SA:
    __slots__ = ("o", "dtype", "__weakref__")

    def __init__(self, o, dt):
        self.o, self.dtype = o, dt

    # -- shape
    shape = property(lambda s: s.o.shape)
    ndim = property(lambda s: s.o.ndim)
    size = property(lambda s: s.o.size)
    T = property(lambda s: SA(s.o.T, s.dtype))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.o.size * s.dtype.itemsize)
    real = property(lambda s: s)
    flat = property(lambda s: iter(s.ravel()))
    def __len__(s): return len(s.o)

    def concrete(s):
        """a real array: splits on every symbolic element"""
        a = np.empty(s.o.shape, dtype=s.dtype)
        for i in np.ndindex(s.o.shape):
            r = s.o[i]
            a[i] = r_truth(r) if s.dtype.kind == "b" else float(r) if isinstance(r, SFrac) else split(r)
        return a

    def __array__(s, dtype=None, copy=None):
        a = s.concrete()
        return a.astype(dtype) if dtype is not None else a

    def __array_ufunc__(s, ufunc, method, *inputs, out=None, **kw):
        return ufunc_call(ufunc, method, inputs, out, kw)

    def __array_function__(s, func, types_, args, kw):
        return np_call(func, args, kw)

    # -- indexing
    def _idx(s, i):
        if isinstance(i, tuple): return tuple(s._idx1(x) for x in i)
        return s._idx1(i)

    def _idx1(s, x):
        if isinstance(x, SA):
            c = x.concrete()
            return c.astype(np.intp) if c.dtype.kind in "iu" else c
        if isinstance(x, (SInt,)): return split(x.raw)
        if isinstance(x, SBool): return bool(x)
        if isinstance(x, slice):
            f = lambda v: None if v is None else operator.index(v)
            return slice(f(x.start), f(x.stop), f(x.step))
        if isinstance(x, (list, tuple)):
            if not x: return np.empty(0, dtype=np.intp)
            return s._idx1(to_sa(x))
        return x

    def __getitem__(s, i):
        r = s.o[s._idx(i)]
        if isinstance(r, np.ndarray): return SA(r, s.dtype)
        return out_scalar(r, s.dtype)

    def __setitem__(s, i, v):
        if arrayish(v) or isinstance(v, (list, tuple)):
            w = to_sa(v)
            vals = map_obj(lambda r: conv(r, s.dtype), w.o) if w.dtype != s.dtype else w.o
            if vals.ndim == 0: vals = vals[()]
        else:
            vals = conv_strict(v, s.dtype)
        # a slice with symbolic ends: merge instead of splitting
        if (isinstance(i, slice) and s.o.ndim == 1 and i.step in (None, 1) and not isinstance(vals, np.ndarray)
                and (core.issym(i.start) or core.issym(i.stop))):
            return s._set_slice(s.o, i, vals)
        if (isinstance(i, tuple) and len(i) == 2 and s.o.ndim == 2 and isinstance(i[1], slice) and i[1].step in (None, 1)
                and isinstance(i[0], (int, SInt)) and not isinstance(vals, np.ndarray)
                and (core.issym(i[1].start) or core.issym(i[1].stop))):
            return s._set_slice(s.o[operator.index(i[0])], i[1], vals)
        if isinstance(vals, np.ndarray):
            s.o[s._idx(i)] = vals
        else:
            s._fill(s._idx(i), vals)

    def _fill(s, i, r):
        t = s.o[i]
        if isinstance(t, np.ndarray):
            w = np.empty(t.shape, dtype=object)
            for j in np.ndindex(t.shape): w[j] = r
            s.o[i] = w
        else:
            s.o[i] = r

    def _set_slice(s, row, sl, r):
        n = len(row)
        def end(x, d):
            if x is None: return d
            x = core.scalar(x).raw
            x = r_ite(core.r_lt(x, 0), core.r_max(core.r_add(x, n), 0), x)
            return x
        a, b = end(sl.start, 0), end(sl.stop, n)
        for j in range(n):
            c = b_and(core.r_le(a, j), core.r_lt(j, b))
            old = row[j]
            if s.dtype.kind == "b": row[j] = b_norm(b_ite(c, r, old))
            elif s.dtype.kind == "f": row[j] = r if r_truth(c) else old
            else: row[j] = r_ite(c, r, old)

    def __iter__(s):
        if s.o.ndim == 0: raise TypeError("iteration over a 0-d array")
        for i in range(len(s.o)): yield s[i]

    def __contains__(s, v):
        return bool((s == v).any())

    # -- operators
    def __bool__(s):
        if s.o.size == 1: return bool(out_scalar(s.o.reshape(-1)[0], s.dtype))
        if s.o.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def __index__(s):
        if s.o.size == 1: return operator.index(out_scalar(s.o.reshape(-1)[0], s.dtype))
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    def __int__(s): return s.__index__()

    def __add__(s, o): return binary("add", s, o)
    def __radd__(s, o): return binary("add", o, s)
    def __sub__(s, o): return binary("subtract", s, o)
    def __rsub__(s, o): return binary("subtract", o, s)
    def __mul__(s, o): return binary("multiply", s, o)
    def __rmul__(s, o): return binary("multiply", o, s)
    def __floordiv__(s, o): return binary("floor_divide", s, o)
    def __rfloordiv__(s, o): return binary("floor_divide", o, s)
    def __truediv__(s, o): return binary("true_divide", s, o)
    def __rtruediv__(s, o): return binary("true_divide", o, s)
    def __mod__(s, o): return binary("remainder", s, o)
    def __rmod__(s, o): return binary("remainder", o, s)
    def __pow__(s, o): return binary("power", s, o)
    def __rpow__(s, o): return binary("power", o, s)
    def __lshift__(s, o): return binary("left_shift", s, o)
    def __rlshift__(s, o): return binary("left_shift", o, s)
    def __rshift__(s, o): return binary("right_shift", s, o)
    def __rrshift__(s, o): return binary("right_shift", o, s)
    def __and__(s, o): return binary("bitwise_and", s, o)
    def __rand__(s, o): return binary("bitwise_and", o, s)
    def __or__(s, o): return binary("bitwise_or", s, o)
    def __ror__(s, o): return binary("bitwise_or", o, s)
    def __xor__(s, o): return binary("bitwise_xor", s, o)
    def __rxor__(s, o): return binary("bitwise_xor", o, s)
    def __matmul__(s, o): return matmul(s, o)
    def __rmatmul__(s, o): return matmul(o, s)
    def __neg__(s): return unary("negative", s)
    def __pos__(s): return s.copy()
    def __abs__(s): return unary("absolute", s)
    def __invert__(s): return unary("invert", s)
    def __eq__(s, o):
        try: return compare("equal", s, o)
        except ValueError: raise
    def __ne__(s, o): return compare("not_equal", s, o)
    def __lt__(s, o): return compare("less", s, o)
    def __le__(s, o): return compare("less_equal", s, o)
    def __gt__(s, o): return compare("greater", s, o)
    def __ge__(s, o): return compare("greater_equal", s, o)
    __hash__ = None

    def _inplace(s, op, o):
        r = binary(op, s, o)
        r = r if isinstance(r, SA) else to_sa(r)
        if not np.can_cast(r.dtype, s.dtype, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(getattr(np, op), "same_kind", r.dtype, s.dtype, 0)
        if np.broadcast_shapes(s.shape, r.shape) != s.shape:
            raise ValueError("non-broadcastable output operand")
        s.o[...] = map_obj(lambda x: conv(x, s.dtype), r.o) if r.dtype != s.dtype else r.o
        return s
    def __iadd__(s, o): return s._inplace("add", o)
    def __isub__(s, o): return s._inplace("subtract", o)
    def __imul__(s, o): return s._inplace("multiply", o)
    def __ifloordiv__(s, o): return s._inplace("floor_divide", o)
    def __imod__(s, o): return s._inplace("remainder", o)
    def __ilshift__(s, o): return s._inplace("left_shift", o)
    def __irshift__(s, o): return s._inplace("right_shift", o)
    def __iand__(s, o): return s._inplace("bitwise_and", o)
    def __ior__(s, o): return s._inplace("bitwise_or", o)
    def __ixor__(s, o): return s._inplace("bitwise_xor", o)
    def __itruediv__(s, o): return s._inplace("true_divide", o)
    def __ipow__(s, o): return s._inplace("power", o)

    # -- methods
    def copy(s, order=None): return SA(s.o.copy(), s.dtype)
    __copy__ = copy
    def __deepcopy__(s, m): return s.copy()
    def astype(s, dt, copy=True, **k):
        dt = np.dtype(dt)
        if dt.kind not in "biufO": return s.concrete().astype(dt)
        if dt == s.dtype: return s.copy() if copy else s
        return SA(map_obj(lambda r: conv(r, dt), s.o), dt)
    def reshape(s, *sh, **k):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        return SA(s.o.reshape(tuple(operator.index(x) for x in sh)), s.dtype)
    def ravel(s, *a): return SA(s.o.ravel(), s.dtype)
    def flatten(s, *a): return SA(s.o.flatten(), s.dtype)
    def squeeze(s, axis=None): return SA(s.o.squeeze(axis), s.dtype)
    def transpose(s, *ax): return SA(s.o.transpose(*ax), s.dtype)
    def swapaxes(s, a, b): return SA(s.o.swapaxes(a, b), s.dtype)
    def diagonal(s, *a, **k): return SA(s.o.diagonal(*a, **k), s.dtype)
    def view(s, *a): return SA(s.o.view(), s.dtype) if not a else SA_fallback(s, "view", a, {})
    def fill(s, v): s[...] = v
    def item(s, *a):
        r = s.o.item(*a)
        x = out_scalar(r, s.dtype)
        return SInt(x.raw) if isinstance(x, SInt) else float(x) if isinstance(x, np.floating) else x
    def tolist(s):
        if s.o.ndim == 0: return s.item()
        return [x.tolist() if isinstance(x, SA) else SInt(x.raw) if isinstance(x, SInt) else x for x in s]
    def sum(s, axis=None, dtype=None, out=None, **k): return reduce_("add", s, axis, dtype, **k)
    def prod(s, axis=None, dtype=None, out=None, **k): return reduce_("multiply", s, axis, dtype, **k)
    def any(s, axis=None, **k): return reduce_("logical_or", s, axis, **k)
    def all(s, axis=None, **k): return reduce_("logical_and", s, axis, **k)
    def min(s, axis=None, **k): return reduce_("minimum", s, axis, **k)
    def max(s, axis=None, **k): return reduce_("maximum", s, axis, **k)
    def argsort(s, axis=-1, kind=None, **k): return f_argsort(s, axis, kind)
    def argmin(s, axis=None, **k): return f_argext(s, axis, core.r_lt, "argmin")
    def argmax(s, axis=None, **k): return f_argext(s, axis, lambda a, b: core.r_lt(b, a), "argmax")
    def sort(s, axis=-1, **k):
        s.o[...] = f_sort(s, axis).o
    def nonzero(s): return f_nonzero(s)
    def dot(s, o): return f_dot(s, o)
    def trace(s, *a, **k): return s.diagonal(*a).sum()
    def take(s, i, axis=None, **k): return f_take(s, i, axis)
    def repeat(s, n, axis=None): return f_repeat(s, n, axis)
    def cumsum(s, axis=None, **k): return f_cumsum(s, axis)
    def round(s, *a, **k): return s.copy()
    def __repr__(s):
        if PRINTED is None: return f"<SA {s.shape} {s.dtype}>"
        PRINTED.append(SA(s.o.copy(), s.dtype))       # printing: a token that stands for the values
        return f"<printed {len(PRINTED) - 1}>"
    __str__ = __repr__
    def __format__(s, f): return repr(s)
    def __reduce__(s): return (np.array, (s.concrete(),))
    def tobytes(s, order="C"): return SBytes(s.copy()) if order == "C" and s.dtype.kind in "biu" else s.concrete().tobytes(order)
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        f = getattr(np.ndarray, n, None)
        if f is None: raise AttributeError(n)
        if callable(f): return lambda *a, **k: SA_fallback(s, n, a, k)
        return getattr(s.concrete(), n)


class SBytes:
    """the bytes of an array: comparing and looking up decides equality of the elements, anything else splits on every element"""
    def __init__(s, a): s.a = a
    def __len__(s): return s.a.nbytes
    def __hash__(s): return hash(("bytes", len(s)))
    def __bytes__(s): return s.a.concrete().tobytes()
    def __eq__(s, o):
        if isinstance(o, bytes): return bytes(s) == o
        if not isinstance(o, SBytes): return False
        if len(s) != len(o): return False
        if s.a.dtype != o.a.dtype: return bytes(s) == bytes(o)
        return mkbool(b_and(*[r_eq(x, y) if s.a.dtype.kind != "b" else b_not(b_xor(x, y)) for x, y in zip(s.a.o.ravel(), o.a.o.ravel())]), True)
    def __ne__(s, o):
        r = s == o
        return not r if isinstance(r, bool) else mkbool(b_not(r.raw), True)
    def __add__(s, o): return bytes(s) + bytes(o)
    def __radd__(s, o): return bytes(o) + bytes(s)
    def __lt__(s, o): return bytes(s) < bytes(o)
    def __le__(s, o): return bytes(s) <= bytes(o)
    def __gt__(s, o): return bytes(s) > bytes(o)
    def __ge__(s, o): return bytes(s) >= bytes(o)
    def __iter__(s): return iter(bytes(s))
    def __getitem__(s, i): return bytes(s)[i]
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(bytes(s), n)


def SA_fallback(s, n, a, k):
    return from_np(getattr(s.concrete(), n)(*[to_np(x) for x in a], **{q: to_np(x) for q, x in k.items()}))


def map_obj(f, o):
    out = np.empty(o.shape, dtype=object)
    src, dst = o.reshape(-1), out.reshape(-1)
    for i in range(src.size): dst[i] = f(src[i])
    return out


def has_sym(x):
    if isinstance(x, SA):
        k = x.dtype.kind
        for r in x.o.reshape(-1):
            if type(r) is SymE and r.val is None or type(r) is BoolE and type(b_norm(r)) is BoolE or isinstance(r, SFrac): return True
        return False
    if isinstance(x, (list, tuple)): return builtins.any(has_sym(y) for y in x)
    return core.issym(x)


def from_np(a):
    """real NumPy result -> what symbolic code sees"""
    if isinstance(a, np.ndarray):
        if a.dtype.kind in "biuf":
            o = np.empty(a.shape, dtype=object)
            o[...] = a.tolist() if a.ndim else a.item()
            return SA(o, a.dtype)
        if a.dtype == object and builtins.all(type(x) is int or isinstance(x, SInt) and x.dt is None for x in a.flat):
            return SA(map_obj(lambda x: x.raw if isinstance(x, SInt) else x, a), a.dtype)
        if a.dtype == object:
            return to_sa_obj(a)
        return a
    if isinstance(a, tuple):
        if hasattr(a, "_fields"): return type(a)(*[from_np(x) for x in a])
        return tuple(from_np(x) for x in a)
    if isinstance(a, list): return [from_np(x) for x in a]
    if isinstance(a, np.bool_): return bool(a)
    if isinstance(a, np.integer): return SInt(int(a), a.dtype)
    return a


def to_np(x):
    if isinstance(x, SA): return x.concrete()
    if isinstance(x, SInt):
        v = split(x.raw)
        return v if x.dt is None else x.dt.type(v)
    if isinstance(x, SBool): return bool(x)
    if isinstance(x, SFrac): return float(x)
    if isinstance(x, tuple) and type(x) is tuple: return tuple(to_np(y) for y in x)
    if isinstance(x, list): return [to_np(y) for y in x]
    return x


def to_sa_obj(a):
    """object ndarray of proxies/numbers -> SA"""
    els = list(a.reshape(-1))
    return SA(*_typed(els, a.shape))


def _typed(els, shape, dtype=None):
    if dtype is None:
        kinds = []
        for x in els:
            if isinstance(x, (bool, np.bool_, SBool)): kinds.append(BOOL)
            elif isinstance(x, SInt): kinds.append(x.dt or I64)
            elif isinstance(x, np.generic): kinds.append(x.dtype)
            elif isinstance(x, (float, SFrac)): kinds.append(F64)
            elif isinstance(x, int): kinds.append(I64 if -2**63 <= x < 2**63 else np.dtype(object))
            else: kinds.append(np.dtype(object))
        # NumPy's array(): Python ints count as int64
        dtype = np.result_type(*set(kinds)) if kinds else F64
        if dtype.kind not in "biuf":
            raise CannotModel
    if dtype.kind not in "biufO": raise CannotModel
    o = np.empty(len(els), dtype=object)
    for i, x in enumerate(els):
        if type(x) is int or isinstance(x, SInt) and x.dt is None: o[i] = conv_strict(x, dtype)
        else: o[i] = raw_of(x, dtype)
    return o.reshape(shape), dtype


class CannotModel(Exception):
    pass


def to_sa(x, dtype=None, ndmin=0):
    """np.array(x, dtype) as an SA (always a copy for lists; shares for SA without dtype)"""
    if dtype is not None: dtype = np.dtype(dtype)
    if isinstance(x, SA):
        r = x.astype(dtype) if dtype is not None and dtype != x.dtype else x
    elif isinstance(x, np.ndarray):
        r = from_np(x.astype(dtype) if dtype is not None else x)
    elif isinstance(x, (SInt, SBool, SFrac, int, float, np.generic)):
        o, dt = _typed([x], (1,), dtype)
        r = SA(o.reshape(()), dt)
    else:
        if not isinstance(x, (list, tuple)) and hasattr(x, "__iter__") and not isinstance(x, (str, bytes, dict, set, types.GeneratorType, map, zip, filter)):
            x = list(x)
        if not isinstance(x, (list, tuple)):
            return from_np(np.array(x, dtype=dtype))
        els, shape = _flatten(x)
        if els is None: raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        if not els:
            return from_np(np.empty(shape, dtype=dtype or F64))
        subs = [y.dtype for y in x if arrayish(y)]
        if dtype is None and subs and len(subs) == len(x):
            dtype = np.result_type(*subs)
        o, dt = _typed(els, shape, dtype)
        r = SA(o, dt)
    if r.ndim < ndmin:
        r = SA(r.o.reshape((1,) * (ndmin - r.ndim) + r.o.shape), r.dtype)
    return r


def _flatten(x):
    if isinstance(x, (SA, np.ndarray)):
        y = x if isinstance(x, SA) else from_np(x)
        return [out_scalar(r, y.dtype) for r in y.o.reshape(-1)], y.shape
    if isinstance(x, range): x = list(x)
    if isinstance(x, (list, tuple)):
        if not x: return [], (0,)
        parts = [_flatten(y) for y in x]
        sh = parts[0][1]
        if builtins.any(p[0] is None or p[1] != sh for p in parts): return None, None
        return [e for p in parts for e in p[0]], (len(x),) + sh
    return [x], ()


# ---------------------------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------------------------
def operand(x):
    """(object ndarray of raws, dtype or None for a weak Python scalar)"""
    if isinstance(x, SA): return x.o, x.dtype
    if isinstance(x, np.ndarray): y = from_np(x); return y.o, y.dtype
    if isinstance(x, (list, tuple)): y = to_sa(x); return y.o, y.dtype
    if isinstance(x, SBool): return obj(x.raw), BOOL
    if isinstance(x, SFrac): return obj(x), "wf"
    if isinstance(x, (bool, np.bool_)): return obj(bool(x)), BOOL
    s = core.scalar(x)
    if isinstance(s, SInt): return obj(s.raw), s.dt
    if isinstance(s, float): return obj(s), F64 if isinstance(x, np.floating) else "wf"
    raise CannotModel


def res_dt(a, b):
    w = [t for t in (a, b) if t is None or isinstance(t, str)]
    s = [t for t in (a, b) if not (t is None or isinstance(t, str))]
    if not s: return F64 if "wf" in w else I64
    d = np.result_type(*s)
    if w:
        if w[0] == "wf": return d if d.kind == "f" else F64
        return I64 if d.kind == "b" else d
    return d


def finish(o, dt, scalar_ok=True):
    if not isinstance(o, np.ndarray): o = obj(o)
    if o.ndim == 0 and scalar_ok: return out_scalar(o[()], dt)
    return SA(o, dt)


def bcast(f, a, b):
    if a.ndim == 0 and b.ndim == 0: return obj(f(a[()], b[()]))
    sh = np.broadcast_shapes(a.shape, b.shape)
    A, B = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
    out = np.empty(sh, dtype=object)
    of = out.reshape(-1)
    for i, (x, y) in enumerate(zip(A.flat, B.flat)): of[i] = f(x, y)
    return out


def wrapf(f):
    """raw numeric op on SFrac/float raws"""
    def g(a, b):
        x = a if isinstance(a, (SFrac, float)) else SFrac(a) if isinstance(a, SymE) else a
        y = b if isinstance(b, (SFrac, float)) else SFrac(b) if isinstance(b, SymE) else b
        if isinstance(x, SFrac) or isinstance(y, SFrac): return f(SFrac.of(x), SFrac.of(y))
        return f(x, y)
    return g


FOPS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv,
        "power": operator.pow, "floor_divide": operator.floordiv}


def binary(op, x, y):
    if not ok_operand(x) or not ok_operand(y): return NotImplemented
    (a, da), (b, db) = operand(x), operand(y)
    dt = res_dt(da, db)
    if op in ("bitwise_and", "bitwise_or", "bitwise_xor") and dt.kind == "b":
        f = {"bitwise_and": b_and, "bitwise_or": b_or, "bitwise_xor": b_xor}[op]
        return finish(bcast(lambda p, q: b_norm(f(p, q)), a, b), BOOL)
    if op == "true_divide" and dt.kind != "f": dt = F64
    if dt.kind == "b" and op in ("add", "multiply", "minimum", "maximum"):
        f = b_or if op in ("add", "maximum") else b_and
        return finish(bcast(lambda p, q: b_norm(f(p, q)), a, b), BOOL)
    if dt.kind == "b":
        if op == "subtract":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` operator, or the logical_xor function instead.")
        dt = I8
    if dt.kind == "O" and op != "true_divide":
        a, b = (map_obj(lambda r: conv(r, dt), z) for z in (a, b))
        return finish(bcast(lambda p, q: int_op(op, p, q, None), a, b), dt)
    if dt.kind in "iu":
        if da is None: a = map_obj(lambda r: into_weak(conv(r, I64) if isinstance(r, (bool, BoolE)) else r, dt), a)
        elif da != dt: a = map_obj(lambda r: conv(r, dt), a)
        if db is None: b = map_obj(lambda r: into_weak(r, dt), b)
        elif db != dt: b = map_obj(lambda r: conv(r, dt), b)
        return finish(bcast(lambda p, q: int_op(op, p, q, dt), a, b), dt)
    if op in FOPS:
        a = map_obj(lambda r: conv(r, F64), a); b = map_obj(lambda r: conv(r, F64), b)
        return finish(bcast(wrapf(FOPS[op]), a, b), dt)
    if op in ("minimum", "maximum"):
        a = map_obj(lambda r: conv(r, F64), a); b = map_obj(lambda r: conv(r, F64), b)
        f = (lambda p, q: p if p <= q else q) if op == "minimum" else (lambda p, q: p if p >= q else q)
        return finish(bcast(wrapf(f), a, b), dt)
    raise CannotModel


I8 = np.dtype("int8")


def ok_operand(x):
    return isinstance(x, (SA, np.ndarray, list, tuple, SBool, SFrac, SInt, bool, int, float, np.generic))


def compare(op, x, y):
    if y is None or isinstance(y, str) or not ok_operand(y) or not ok_operand(x): return NotImplemented
    (a, da), (b, db) = operand(x), operand(y)
    if da == BOOL and db == BOOL and op in ("equal", "not_equal"):
        f = (lambda p, q: b_not(b_xor(p, q))) if op == "equal" else b_xor
        return finish(bcast(lambda p, q: b_norm(f(p, q)), a, b), BOOL)
    c = CMP[op]

    def g(p, q):
        if isinstance(p, (bool, BoolE)): p = b2i(p)
        if isinstance(q, (bool, BoolE)): q = b2i(q)
        if isinstance(p, (SFrac, float)) or isinstance(q, (SFrac, float)):
            if not isinstance(p, (SFrac, SymE)) and not isinstance(q, (SFrac, SymE)):
                return PYCMP[op](p, q)
            r = wrapf(PYCMP[op])(p, q)
            return r.raw if isinstance(r, SBool) else r
        return b_norm(c(p, q))
    return finish(bcast(g, a, b), BOOL)


PYCMP = {"equal": operator.eq, "not_equal": operator.ne, "less": operator.lt, "less_equal": operator.le,
         "greater": operator.gt, "greater_equal": operator.ge}


def unary(op, x):
    a, d = operand(x)
    dt = d if isinstance(d, np.dtype) else I64 if d is None else F64
    if op == "logical_not": return finish(map_obj(lambda r: b_norm(b_not(conv(r, BOOL))), a), BOOL)
    if op in ("invert", "bitwise_not"):
        if dt.kind == "b": return finish(map_obj(lambda r: b_norm(b_not(r)), a), BOOL)
        return finish(map_obj(lambda r: wrap(core.r_inv(r), dt), a), dt)
    if dt.kind == "b":
        if op == "negative": raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        if op in ("positive", "absolute"): return finish(a.copy(), BOOL)
        a = map_obj(b2i, a); dt = I8
    if op == "negative":
        f = lambda r: -r if isinstance(r, (float, SFrac)) else wrap(core.r_neg(r), dt)
    elif op == "positive": f = lambda r: r
    elif op in ("absolute", "fabs"): f = lambda r: abs(r) if isinstance(r, (float, SFrac)) else wrap(core.r_abs(r), dt)
    elif op == "sign": f = lambda r: r_ite(core.r_lt(r, 0), -1, r_ite(r_eq(r, 0), 0, 1))
    elif op == "square": f = lambda r: r * r if isinstance(r, (float, SFrac)) else wrap(core.r_mul(r, r), dt)
    elif op == "sqrt": return finish(map_obj(f_sqrt, a), F64)
    elif op in ("isnan", "isinf") and dt.kind in "iu": return finish(map_obj(lambda r: False, a), BOOL)
    elif op in ("rint", "floor", "ceil", "trunc") and dt.kind in "iu": return finish(a.copy(), dt if op != "rint" else F64)
    else: raise CannotModel
    return finish(map_obj(f, a), dt)


def f_sqrt(r):
    """square root: exact for perfect squares, otherwise an unknown irrational (only if concrete)"""
    import math, z3
    if isinstance(r, SFrac):
        if norm(r.d) != 1: return math.sqrt(float(r))
        r = r.n
    if isinstance(r, float): return math.sqrt(r) if r >= 0 else float("nan")
    r = norm(r)
    if type(r) is not SymE:
        return math.sqrt(r) if r >= 0 else float("nan")
    if r_truth(core.r_lt(r, 0)): return float("nan")
    # r >= 0: a perfect square?
    e = core.eng()
    hi = math.isqrt(max(r.hi, 0))
    w = core.width(0, hi)
    n = e.__dict__.setdefault("sqrt_n", 0); e.sqrt_n = n + 1
    s = SymE(z3.BitVec(f"sqrt!{n}", w), 0, hi)
    # floor root s: s*s <= r < (s+1)^2
    e.assume(core.b_e(b_and(core.r_le(0, s), core.r_le(s, hi), core.r_le(core.r_mul(s, s), r),
                            core.r_lt(r, core.r_mul(core.r_add(s, 1), core.r_add(s, 1))))))
    if r_truth(r_eq(core.r_mul(s, s), r)): return SFrac(s)
    return math.sqrt(split(r))


LOGICAL = {"logical_and": b_and, "logical_or": b_or, "logical_xor": b_xor}
ALIAS = {"divide": "true_divide", "mod": "remainder", "bitwise_not": "invert", "conjugate": "positive"}
BIN = {"add", "subtract", "multiply", "floor_divide", "true_divide", "remainder", "power", "left_shift", "right_shift",
       "bitwise_and", "bitwise_or", "bitwise_xor", "minimum", "maximum"}
UN = {"negative", "positive", "absolute", "invert", "logical_not", "sign", "square", "sqrt", "fabs", "isnan", "isinf",
      "rint", "floor", "ceil", "trunc"}


def logical(op, x, y):
    (a, _), (b, _) = operand(x), operand(y)
    return finish(bcast(lambda p, q: b_norm(LOGICAL[op](conv(p, BOOL), conv(q, BOOL))), a, b), BOOL)


def ufunc_call(ufunc, method, inputs, out, kw):
    name = ALIAS.get(ufunc.__name__, ufunc.__name__)
    if out is not None and not isinstance(out, tuple): out = (out,)
    res = NotImplemented
    try:
        if method == "__call__":
            kw = dict(kw)
            where = kw.pop("where", True)
            dtype = kw.pop("dtype", None)
            kw.pop("casting", None); kw.pop("order", None); kw.pop("subok", None)
            if where is True and not kw:
                if name == "matmul": res = matmul(*inputs)
                elif name in BIN: res = binary(name, *inputs)
                elif name in CMP: res = compare(name, *inputs)
                elif name in LOGICAL: res = logical(name, *inputs)
                elif name in UN: res = unary(name, *inputs)
                elif name == "divmod": return binary("floor_divide", *inputs), binary("remainder", *inputs)
                if dtype is not None and res is not NotImplemented: res = to_sa(res).astype(dtype) if isinstance(res, SA) else core.cast_scalar(res, np.dtype(dtype))
        elif method == "reduce":
            axis = kw.pop("axis", 0); dtype = kw.pop("dtype", None)
            k = {q: kw[q] for q in ("keepdims", "initial", "where") if q in kw}
            res = reduce_(name, to_sa(inputs[0]), axis, dtype, **k)
        elif method == "accumulate":
            if name == "add": res = f_cumsum(to_sa(inputs[0]), kw.get("axis", 0))
        elif method == "outer":
            a, b = to_sa(inputs[0]), to_sa(inputs[1])
            res = ufunc_call(ufunc, "__call__", (SA(a.o.reshape(a.shape + (1,) * b.ndim), a.dtype), b), None, {})
        elif method == "at":
            a, i = inputs[0], inputs[1]
            idx = [operator.index(j) for j in to_sa(i).concrete()] if not isinstance(i, (int, SInt)) else [operator.index(i)]
            for n, j in enumerate(idx):
                if len(inputs) == 3:
                    v = inputs[2]
                    v = v[n] if arrayish(v) or isinstance(v, (list, tuple)) else v
                    a[j] = ufunc_call(ufunc, "__call__", (a[j], v), None, {})
                else: a[j] = ufunc_call(ufunc, "__call__", (a[j],), None, {})
            return None
    except CannotModel:
        res = NotImplemented
    if res is NotImplemented:
        f = getattr(ufunc, method)
        res = from_np(f(*[to_np(x) for x in inputs], **{q: to_np(x) for q, x in kw.items()}))
    if out is not None and out[0] is not None:
        t = out[0]
        r = to_sa(res)
        if not np.can_cast(r.dtype, t.dtype, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", r.dtype, t.dtype, 0)
        t[...] = r
        return t
    return res


def reduce_(name, s, axis=None, dtype=None, keepdims=False, initial=None, where=True, **k):
    s = to_sa(s)
    if where is not True and where is not np._NoValue: raise CannotModel
    if keepdims is np._NoValue: keepdims = False
    if initial is np._NoValue: initial = None
    if isinstance(axis, tuple):
        if len(axis) == s.ndim: axis = None
        elif len(axis) == 1: axis = axis[0]
        else: raise CannotModel
    if axis is not None: axis = operator.index(axis)
    dt = s.dtype
    o = s.o
    if name in LOGICAL:
        o = map_obj(lambda r: conv(r, BOOL), o); dt = BOOL
        f = lambda xs: b_norm((b_and if name == "logical_and" else b_or)(*xs))
        if name == "logical_xor": f = lambda xs: functools.reduce(b_xor, xs, False)
    elif name in ("add", "multiply"):
        if dtype is not None: dt = np.dtype(dtype)
        elif dt.kind == "b" or dt.kind == "i" and dt.itemsize < 8: dt = I64
        elif dt.kind == "u" and dt.itemsize < 8: dt = np.dtype("uint64")
        o = map_obj(lambda r: conv(r, dt), o)
        ident = 0 if name == "add" else 1
        if dt.kind == "f":
            g = wrapf(FOPS[name])
            f = lambda xs: functools.reduce(g, xs, float(ident))
        elif name == "add":
            f = lambda xs: wrap(sum_raw(xs), dt)
        else:
            f = lambda xs: functools.reduce(lambda p, q: int_op(name, p, q, dt), xs, ident)
    elif name in ("minimum", "maximum"):
        if dt.kind == "f":
            g = (lambda p, q: p if p <= q else q) if name == "minimum" else (lambda p, q: p if p >= q else q)
        elif dt.kind == "b": g = b_and if name == "minimum" else b_or
        else: g = core.r_min if name == "minimum" else core.r_max

        def f(xs):
            xs = list(xs)
            if not xs: raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            return functools.reduce(g, xs)
    elif name in ("bitwise_or", "bitwise_and", "bitwise_xor") :
        ident = {"bitwise_or": 0, "bitwise_xor": 0, "bitwise_and": -1}[name]
        if dt.kind == "b": raise CannotModel
        f = lambda xs: functools.reduce(lambda p, q: int_op(name, p, q, dt), xs, ident)
    else:
        raise CannotModel
    if initial is not None:
        f0 = f; init = raw_of(initial, dt); f = lambda xs: f0([init] + list(xs))
    if axis is None:
        r = f(list(o.reshape(-1)))
        if keepdims: return SA(obj(r).reshape((1,) * s.ndim), dt)
        return out_scalar(r, dt)
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(m.shape[:-1]): out[i] = f(list(m[i]))
    if keepdims: out = np.expand_dims(out, axis)
    return finish(out, dt)


def sum_raw(xs):
    """balanced sum keeps bit-vectors narrow"""
    xs = list(xs)
    if not xs: return 0
    while len(xs) > 1:
        xs = [core.r_add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def matmul(x, y):
    if not ok_operand(x) or not ok_operand(y): return NotImplemented
    x, y = to_sa(x), to_sa(y)
    if x.ndim == 0 or y.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    dt = np.result_type(x.dtype, y.dtype)
    a, b = x.o, y.o
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.ndim != 2 or b2.ndim != 2: raise CannotModel
    if a2.shape[1] != b2.shape[0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({a2.shape} x {b2.shape})")
    if dt.kind == "b":
        f = lambda r, c: b_norm(b_or(*[b_and(p, q) for p, q in zip(r, c)]))
    elif dt.kind == "f":
        add, mul = wrapf(operator.add), wrapf(operator.mul)
        cv = lambda r: conv(r, F64)
        f = lambda r, c: functools.reduce(add, [mul(cv(p), cv(q)) for p, q in zip(r, c)], 0.0)
    else:
        if x.dtype != dt: a2 = map_obj(lambda r: conv(r, dt), a2)
        if y.dtype != dt: b2 = map_obj(lambda r: conv(r, dt), b2)
        # products and sums wrap modulo 2^n, so wrapping once at the end is the same
        f = lambda r, c: wrap(sum_raw([core.r_mul(p, q) for p, q in zip(r, c)]), dt)
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]): out[i, j] = f(a2[i], b2[:, j])
    if a.ndim == 1: out = out[0]
    if b.ndim == 1: out = out[..., 0]
    return finish(out, dt)


# ---------------------------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------------------------
def f_dot(a, b):
    a, b = to_sa(a), to_sa(b)
    if a.ndim == 0 or b.ndim == 0: return binary("multiply", a, b)
    return matmul(a, b)


def truth(r, dt): return r_truth(conv(r, BOOL))


def f_nonzero(a):
    a = to_sa(a)
    idx = [i for i in np.ndindex(a.shape) if truth(a.o[i], a.dtype)]
    return tuple(from_np(np.array([i[d] for i in idx], dtype=np.int64)) for d in range(a.ndim))


def f_where(c, *xy):
    if not xy: return f_nonzero(c)
    c, x, y = to_sa(c), xy[0], xy[1]
    (a, da), (b, db) = operand(x), operand(y)
    dt = res_dt(da, db)
    sh = np.broadcast_shapes(c.shape, a.shape, b.shape)
    C, A, B = np.broadcast_to(c.o, sh), np.broadcast_to(a, sh), np.broadcast_to(b, sh)
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        k = b_norm(conv(C[i], BOOL)); p, q = conv(A[i], dt), conv(B[i], dt)
        if dt.kind == "b": out[i] = b_norm(b_ite(k, p, q))
        elif dt.kind == "f": out[i] = p if r_truth(k) else q
        else: out[i] = r_ite(k, p, q)
    return SA(out, dt)


def f_array_equal(a, b, equal_nan=False):
    try: a, b = to_sa(a), to_sa(b)
    except (ValueError, TypeError): return False
    if a.shape != b.shape: return False
    r = compare("equal", a, b)
    return r.all() if isinstance(r, SA) else r


def _order(els, lt):
    """stable insertion sort of indices"""
    out = []
    for i, x in enumerate(els):
        j = len(out)
        while j and r_truth(lt(x, els[out[j - 1]])): j -= 1
        out.insert(j, i)
    return out


def _lt(dt):
    if dt.kind == "b": return lambda a, b: b_and(b_not(a), b)
    if dt.kind == "f": return lambda a, b: (lambda r: r.raw if isinstance(r, SBool) else bool(r))(a < b)
    return core.r_lt


def f_argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_sa(a)
    if not has_sym(a): return from_np(np.argsort(a.concrete(), axis=axis, kind=kind))
    if axis is None: a = a.ravel(); axis = -1
    m = np.moveaxis(a.o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        els = list(m[i]); o = _order(els, _lt(a.dtype))
        if not (stable or kind in ("stable", "mergesort")) and a.dtype.kind in "biu" and len(els) > 1:
            # NumPy's default sort leaves the order of equal elements to the implementation:
            # ask it, with the ranks in place of the elements
            lt = _lt(a.dtype); rank = [0] * len(els); r = 0
            for p, q in zip(o, o[1:]):
                if r_truth(lt(els[p], els[q])): r += 1
                rank[q] = r
            o = np.argsort(np.array(rank).astype(a.dtype), kind=kind).tolist()
        out[i] = o
    return SA(np.moveaxis(out, -1, axis), I64)


def f_sort(a, axis=-1, **k):
    a = to_sa(a)
    if axis is None: a = a.ravel(); axis = -1
    m = np.moveaxis(a.o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        els = list(m[i]); o = _order(els, _lt(a.dtype))
        for j, q in enumerate(o): out[i + (j,)] = els[q]
    return SA(np.moveaxis(out, -1, axis), a.dtype)


def f_argext(a, axis, lt, name):
    a = to_sa(a)
    if a.dtype.kind == "b": a = a.astype(I8)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.o, axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(m.shape[:-1]): out[i] = _ext1(list(m[i]), lt, name)
        return SA(out, I64)
    return SInt(_ext1(list(a.o.reshape(-1)), lt, name), I64)


def _ext1(els, lt, name):
    if not els: raise ValueError(f"attempt to get {name} of an empty sequence")
    best, at = els[0], 0
    for i, x in enumerate(els[1:], 1):
        if r_truth(lt(x, best)): best, at = x, i
    return at


def f_take(a, i, axis=None, **k):
    a = to_sa(a); i = to_np(i)
    return finish(np.take(a.o, i, axis=axis), a.dtype) if arrayish(i) or isinstance(i, list) else from_elem(np.take(a.o, i, axis=axis), a.dtype)


def from_elem(r, dt): return SA(r, dt) if isinstance(r, np.ndarray) else out_scalar(r, dt)


def f_repeat(a, repeats, axis=None):
    a = to_sa(a)
    return SA(np.repeat(a.o, to_np(repeats), axis=axis), a.dtype)


def f_cumsum(a, axis=None, dtype=None, out=None):
    a = to_sa(a)
    if axis is None: a = a.ravel(); axis = 0
    dt = np.dtype(dtype) if dtype is not None else I64 if a.dtype.kind == "b" or a.dtype.kind == "i" else a.dtype
    if dt.kind == "f": raise CannotModel
    m = np.moveaxis(a.o, axis, -1)
    o = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        acc = 0
        for j in range(m.shape[-1]):
            acc = wrap(core.r_add(acc, conv(m[i + (j,)], dt)), dt); o[i + (j,)] = acc
    return SA(np.moveaxis(o, -1, axis), dt)


def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    if prepend is not np._NoValue or append is not np._NoValue:
        parts = [a]
        if prepend is not np._NoValue: parts.insert(0, prepend if arrayish(prepend) or isinstance(prepend, (list, tuple)) else [prepend])
        if append is not np._NoValue: parts.append(append if arrayish(append) or isinstance(append, (list, tuple)) else [append])
        a = f_concat(parts, axis=axis)
    a = to_sa(a)
    for _ in range(n):
        m = np.moveaxis(a.o, axis, 0)
        hi, lo = SA(np.moveaxis(m[1:], 0, axis), a.dtype), SA(np.moveaxis(m[:-1], 0, axis), a.dtype)
        a = compare("not_equal", hi, lo) if a.dtype.kind == "b" else binary("subtract", hi, lo)
    return a


def f_concat(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = [to_sa(x) for x in arrs]
    if not arrs: raise ValueError("need at least one array to concatenate")
    dt = np.dtype(dtype) if dtype is not None else np.result_type(*[a.dtype for a in arrs])
    os = [a.o if a.dtype == dt else map_obj(lambda r: conv(r, dt), a.o) for a in arrs]
    if axis is None: os = [o.reshape(-1) for o in os]; axis = 0
    return SA(np.concatenate(os, axis=axis), dt)


def _at1(x): x = to_sa(x); return SA(x.o.reshape(1), x.dtype) if x.ndim == 0 else x
def _at2(x): x = _at1(x); return SA(x.o.reshape(1, -1), x.dtype) if x.ndim == 1 else x


def f_hstack(t, **k):
    t = [_at1(x) for x in t]
    return f_concat(t, 0 if t and t[0].ndim == 1 else 1)


def f_vstack(t, **k): return f_concat([_at2(x) for x in t], 0)


def f_column_stack(t):
    return f_concat([(lambda x: SA(x.o.reshape(-1, 1), x.dtype) if x.ndim == 1 else x)(to_sa(x)) for x in t], 1)


def f_stack(t, axis=0, **k):
    t = [to_sa(x) for x in t]
    dt = np.result_type(*[x.dtype for x in t])
    return SA(np.stack([x.astype(dt).o for x in t], axis=axis), dt)


def f_append(a, v, axis=None):
    a, v = to_sa(a), to_sa(v)
    if axis is None: return f_concat([a.ravel(), v.ravel()])
    return f_concat([a, v], axis)


def _index(i):
    i = to_np(i)
    if isinstance(i, tuple): i = list(i)
    if isinstance(i, list) and not i: i = np.empty(0, dtype=np.intp)
    return i


def f_delete(a, i, axis=None):
    a = to_sa(a)
    return SA(np.delete(a.o, _index(i), axis=axis), a.dtype)


def f_insert(a, i, v, axis=None):
    a = to_sa(a); v = to_sa(v).astype(a.dtype)
    return SA(np.insert(a.o, _index(i), v.o if v.ndim else v.o[()], axis=axis), a.dtype)


def f_count_nonzero(a, axis=None, **k):
    a = to_sa(a)
    return reduce_("add", SA(map_obj(lambda r: conv(r, BOOL), a.o), BOOL), axis)


def f_struct(name):
    """functions that only rearrange elements: run them on the object array"""
    real = getattr(np, name)

    def f(a, *args, **k):
        a = to_sa(a)
        r = real(a.o, *[to_np(x) for x in args], **{q: to_np(x) for q, x in k.items()})
        if isinstance(r, (list, tuple)): return type(r)(SA(x, a.dtype) for x in r)
        return from_elem(r, a.dtype)
    return f


def f_tri(name):
    real = getattr(np, name)

    def f(m, k=0):
        m = to_sa(m)
        keep = real(np.ones(m.shape, dtype=bool), k)
        out = m.o.copy()
        for i in np.ndindex(m.shape):
            if not keep[i]: out[i] = conv(0, m.dtype)
        return SA(out, m.dtype)
    return f


def f_fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)): a[i, i] = v if not arrayish(v) else v[i]


def f_like(v):
    def f(a, dtype=None, **k):
        a = to_sa(a)
        return full(a.shape, v, dtype or a.dtype)
    return f


def full(shape, v, dtype=None, order=None, **k):
    shape = tuple(operator.index(x) for x in shape) if isinstance(shape, (tuple, list)) else tuple(int(x) for x in shape.concrete()) if isinstance(shape, SA) else (operator.index(shape),)
    if dtype is None: dtype = operand(v)[1]; dtype = I64 if dtype is None else F64 if dtype == "wf" else dtype
    dtype = np.dtype(dtype)
    if dtype.kind not in "biufO": return np.full(shape, to_np(v), dtype)
    if arrayish(v) or isinstance(v, (list, tuple)):
        w = to_sa(v).astype(dtype)
        return SA(np.broadcast_to(w.o, shape).copy(), dtype)
    r = conv_strict(v, dtype)
    o = np.empty(shape, dtype=object)
    f = o.reshape(-1)
    for i in range(f.size): f[i] = r
    return SA(o, dtype)


def f_eye(N, M=None, k=0, dtype=float, **kw):
    return from_np(np.eye(operator.index(N), None if M is None else operator.index(M), k, dtype))


def f_arange(*a, dtype=None, **k):
    return from_np(np.arange(*[to_np(x) for x in a], dtype=dtype))


def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    if isinstance(x, (types.GeneratorType, map, zip, filter, dict, set, str, bytes)) or x is None:
        return from_np(np.array(to_np(x), dtype=dtype))
    if dtype is not None and np.dtype(dtype).kind not in "biufO":
        if has_sym(x): raise CannotModel
        return np.array(to_np(x), dtype=dtype)
    try:
        r = to_sa(x, dtype, ndmin)
    except CannotModel:
        return np.array(x, dtype=dtype)
    if copy and (r is x or isinstance(x, SA) and r.o is x.o or isinstance(r, SA) and isinstance(x, SA) and np.shares_memory(r.o, x.o)):
        r = r.copy()
    return r


def f_asarray(x, dtype=None, order=None, **k):
    return f_array(x, dtype, copy=False)


def f_fromiter(it, dtype, count=-1, **k):
    return to_sa(list(it), dtype)


class R_:
    def __getitem__(s, key):
        if not isinstance(key, tuple): key = (key,)
        arrs, strong, scal = [], [], []
        for x in key:
            if isinstance(x, slice):
                a = from_np(np.r_[slice(to_np(x.start), to_np(x.stop), to_np(x.step))])
                arrs.append(a); strong.append(a.dtype)
            elif isinstance(x, str): raise CannotModel
            elif arrayish(x) or isinstance(x, (list, tuple)):
                a = _at1(x); arrs.append(a); strong.append(a.dtype)
            else:
                o, d = operand(x)
                arrs.append((o, d))
                if isinstance(d, np.dtype): strong.append(d)
                else: scal.append(float if d == "wf" else int)
        weak = [0.0 if t is float else 0 for t in scal]
        dt = np.result_type(*strong, *weak) if strong else (F64 if float in scal else I64)
        out = []
        for a in arrs:
            if isinstance(a, tuple):
                o, d = a
                out.append(SA(obj(conv_strict(SInt(o[()]), dt) if d is None else conv(o[()], dt)).reshape(1), dt))
            else: out.append(a.astype(dt))
        return f_concat(out)


class C_:
    def __getitem__(s, key):
        return f_column_stack(key if isinstance(key, tuple) else (key,))


class Vectorize:
    def __init__(s, pyfunc=None, otypes=None, **k):
        s.f, s.otypes = pyfunc, otypes

    def element(s, arrs, i, table):
        """the function of one element; of a symbolic element with few values (one argument): tabulated, not forked"""
        if len(arrs) == 1:
            a, d = arrs[0]
            x = core.norm(a[i]) if type(a[i]) is SymE else a[i]
            if type(x) is SymE and d.kind in "iu" and x.hi - x.lo <= 3:
                for v in range(x.lo, x.hi + 1):
                    if v not in table: table[v] = s.f(out_scalar(v, d))
                vs = [table[v] for v in range(x.lo, x.hi + 1)]
                if builtins.all(type(v) in (int, bool) or isinstance(v, SInt) and type(v.raw) is int for v in vs) and len({type(v) for v in vs}) == 1:
                    r = [v.raw if isinstance(v, SInt) else int(v) for v in vs]
                    out = r[-1]
                    for v in range(x.hi - 1, x.lo - 1, -1): out = core.r_ite(core.r_eq(x, v), r[v - x.lo], out)
                    t = vs[0]
                    return SInt(out, t.dt) if isinstance(t, SInt) else SInt(out) if type(t) is int else mkbool(core.r_eq(out, 1))
        return s.f(*[out_scalar(a[i], d) for a, d in arrs])

    def __call__(s, *args):
        if s.f is None:
            s.f = args[0]; return s
        ops = [to_sa(x) for x in args]
        sh = np.broadcast_shapes(*[a.shape for a in ops])
        arrs = [(np.broadcast_to(a.o, sh), a.dtype) for a in ops]
        if 0 in sh: raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        table = {}
        els = [s.element(arrs, i, table) for i in np.ndindex(sh)]
        dt = None
        if s.otypes is not None:
            dt = np.dtype(s.otypes[0]) if not isinstance(s.otypes, str) else np.dtype(s.otypes[0])
        else:
            x = els[0]                       # NumPy takes the type of the first result
            dt = BOOL if isinstance(x, (bool, np.bool_, SBool)) else (x.dt or I64) if isinstance(x, SInt) else x.dtype if isinstance(x, np.generic) else I64 if isinstance(x, int) else F64
        if sh == (): return to_sa(els[0], dt)
        o, dt = _typed(els, sh, dt)
        return SA(o, dt)


def f_unique(a, **k):
    return from_np(np.unique(to_sa(a).concrete(), **k))


def f_lexsort(keys, axis=-1):
    keys = [to_sa(x) for x in keys]
    n = keys[0].shape[0]
    if builtins.any(x.ndim != 1 for x in keys): raise CannotModel
    def lt(i, j):
        res = False
        for kx in keys:                      # last key is primary
            l = _lt(kx.dtype)
            res = b_or(l(kx.o[i], kx.o[j]), b_and(b_not(l(kx.o[j], kx.o[i])), res))
        return res
    return from_np(np.array(_order(list(range(n)), lt), dtype=np.int64))


def f_allclose(a, b, *x, **k): return f_array_equal(*_bc(a, b))
def _bc(a, b):
    a, b = to_sa(a), to_sa(b)
    sh = np.broadcast_shapes(a.shape, b.shape)
    return SA(np.broadcast_to(a.o, sh), a.dtype), SA(np.broadcast_to(b.o, sh), b.dtype)


def f_outer(a, b, **k):
    a, b = to_sa(a).ravel(), to_sa(b).ravel()
    return binary("multiply", SA(a.o.reshape(-1, 1), a.dtype), b)


def f_clip(a, lo=None, hi=None, **k):
    r = to_sa(a)
    if lo is not None: r = binary("maximum", r, lo)
    if hi is not None: r = binary("minimum", r, hi)
    return r


FUNCS = {
    "array": f_array, "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray, "fromiter": f_fromiter,
    "zeros": lambda shape, dtype=float, order=None, **k: full(shape, 0, dtype),
    "ones": lambda shape, dtype=float, order=None, **k: full(shape, 1, dtype or float),
    "empty": lambda shape, dtype=float, order=None, **k: full(shape, 0, dtype),
    "full": full, "zeros_like": f_like(0), "ones_like": f_like(1), "empty_like": f_like(0),
    "full_like": lambda a, v, dtype=None, **k: full(to_sa(a).shape, v, dtype or to_sa(a).dtype),
    "identity": lambda n, dtype=float, **k: f_eye(n, dtype=dtype or float), "eye": f_eye, "arange": f_arange,
    "nonzero": f_nonzero, "where": f_where, "array_equal": f_array_equal, "array_equiv": lambda a, b: f_array_equal(*_bc(a, b)),
    "argsort": f_argsort, "sort": f_sort, "lexsort": f_lexsort,
    "argmin": lambda a, axis=None, **k: to_sa(a).argmin(axis), "argmax": lambda a, axis=None, **k: to_sa(a).argmax(axis),
    "take": f_take, "repeat": f_repeat, "cumsum": f_cumsum, "diff": f_diff, "concatenate": f_concat, "concat": f_concat, "hstack": f_hstack,
    "vstack": f_vstack, "row_stack": f_vstack, "column_stack": f_column_stack, "stack": f_stack, "append": f_append,
    "delete": f_delete, "insert": f_insert, "count_nonzero": f_count_nonzero, "dot": f_dot, "inner": f_dot, "vdot": f_dot, "outer": f_outer,
    "sum": lambda a, axis=None, dtype=None, out=None, **k: reduce_("add", a, axis, dtype, **k),
    "prod": lambda a, axis=None, dtype=None, out=None, **k: reduce_("multiply", a, axis, dtype, **k),
    "any": lambda a, axis=None, out=None, **k: reduce_("logical_or", a, axis, **k),
    "all": lambda a, axis=None, out=None, **k: reduce_("logical_and", a, axis, **k),
    "min": lambda a, axis=None, out=None, **k: reduce_("minimum", a, axis, **k),
    "max": lambda a, axis=None, out=None, **k: reduce_("maximum", a, axis, **k),
    "amin": lambda a, axis=None, out=None, **k: reduce_("minimum", a, axis, **k),
    "amax": lambda a, axis=None, out=None, **k: reduce_("maximum", a, axis, **k),
    "trace": lambda a, *x, **k: to_sa(a).trace(*x, **k), "copy": lambda a, **k: to_sa(a).copy(),
    "tril": f_tri("tril"), "triu": f_tri("triu"), "fill_diagonal": f_fill_diagonal,
    "flatnonzero": lambda a: f_nonzero(to_sa(a).ravel())[0],
    "argwhere": lambda a: f_vstack(f_nonzero(to_sa(a))).T,
    "ndim": lambda a: to_sa(a).ndim, "shape": lambda a: to_sa(a).shape, "size": lambda a, axis=None: to_sa(a).size if axis is None else to_sa(a).shape[axis],
    "allclose": f_allclose, "clip": f_clip, "unique": f_unique, "logical_not": lambda a: unary("logical_not", a),
    "round": lambda a, *k: to_sa(a).copy() if arrayish(a) else round(a), "around": lambda a, *k: to_sa(a).copy() if arrayish(a) else round(a),
    "isscalar": lambda x: isinstance(x, (SInt, SBool, SFrac)) or np.isscalar(x),
    "iscomplexobj": lambda x: False,
    "atleast_1d": lambda x: _at1(x), "atleast_2d": lambda x: _at2(x),
    "array2string": lambda *a, **k: "<SA>", "array_repr": lambda *a, **k: "<SA>", "array_str": lambda *a, **k: "<SA>",
    "shares_memory": lambda a, b, **k: np.shares_memory(a.o if isinstance(a, SA) else a, b.o if isinstance(b, SA) else b),
    "may_share_memory": lambda a, b, **k: np.may_share_memory(a.o if isinstance(a, SA) else a, b.o if isinstance(b, SA) else b),
    "copyto": lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
}
for _n in ("reshape", "transpose", "ravel", "squeeze", "expand_dims", "swapaxes", "moveaxis", "flip", "fliplr", "flipud", "roll", "rot90",
           "tile", "diagonal", "diag", "broadcast_to", "split", "array_split", "hsplit", "vsplit", "resize"):
    FUNCS[_n] = f_struct(_n)
_diag = FUNCS["diag"]


def f_diag(a, k=0):
    a = to_sa(a)
    if a.ndim == 2: return SA(np.diag(a.o, k).copy(), a.dtype)
    n = a.size + abs(k)
    out = full((n, n), 0, a.dtype)
    for i in range(a.size): out.o[(i, i + k) if k >= 0 else (i - k, i)] = a.o[i]
    return out


FUNCS["diag"] = f_diag


def np_call(func, args, kw):
    f = FUNCS.get(func.__name__)
    if f is not None:
        try: return f(*args, **kw)
        except CannotModel: pass
    return from_np(func(*[to_np(x) for x in args], **{q: to_np(x) for q, x in kw.items()}))


class NdMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (SA, np.ndarray))


class FakeNdarray(metaclass=NdMeta):
    pass


class FakeInt(type):
    pass


class IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, np.integer) or isinstance(x, SInt) and x.dt is not None


class FakeInteger(metaclass=IntMeta):
    pass


def scalar_type(t):
    """np.int8 etc. as a callable type usable as dtype"""
    dt = np.dtype(t)

    class Meta(type):
        def __instancecheck__(c, x): return isinstance(x, t) or isinstance(x, SInt) and x.dt == dt
        def __eq__(c, o): return o is c or o is t or isinstance(o, np.dtype) and o == dt
        def __hash__(c): return hash(t)

    class T(metaclass=Meta):
        dtype = dt                       # np.dtype(T) works through this attribute

        def __new__(c, x=0):
            if arrayish(x): return to_sa(x).astype(dt)
            if isinstance(x, (SInt, SBool, SFrac)):
                if isinstance(x, SInt) and x.dt is None: return SInt(wrap(into_weak(x.raw, dt), dt), dt)
                return core.cast_scalar(x, dt)
            return from_np(t(x))
    T.__name__ = t.__name__
    return T


PRINTED = None


class FakeNP(types.ModuleType):
    def __init__(s, real=np, name="numpy"):
        super().__init__(name)
        s.__dict__["_real"] = real
        s.__dict__["_cache"] = {}
        if real is np:
            for k, v in {"r_": R_(), "c_": C_(), "vectorize": Vectorize, "ndarray": FakeNdarray, "integer": FakeInteger,
                         "frompyfunc": lambda f, nin, nout: Vectorize(f)}.items():
                s._cache[k] = v
            for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "int_", "intc", "uint", "short", "longlong"):
                s._cache[n] = scalar_type(getattr(np, n))

    def __getattr__(s, n):
        c = s._cache
        if n in c: return c[n]
        v = getattr(s._real, n)
        if isinstance(v, types.ModuleType): v = FakeNP(v, v.__name__)
        elif isinstance(v, np.ufunc): v = FakeUfunc(v)
        elif isinstance(v, type): pass
        elif callable(v):
            real = v
            if s._real is np and n in FUNCS:
                m = FUNCS[n]
                def v(*a, **k):
                    try: return m(*a, **k)
                    except CannotModel: return from_np(real(*[to_np(x) for x in a], **{q: to_np(x) for q, x in k.items()}))
            else:
                def v(*a, **k):
                    return from_np(real(*[to_np(x) for x in a], **{q: to_np(x) for q, x in k.items()}))
            v.__name__ = n
        c[n] = v
        return v


class FakeUfunc:
    def __init__(s, u): s.u = u
    def __call__(s, *a, out=None, **k):
        n = s.u.nin
        if len(a) > n: out, a = a[n], a[:n]
        return ufunc_call(s.u, "__call__", a, out, k)
    def reduce(s, a, axis=0, dtype=None, out=None, **k): return ufunc_call(s.u, "reduce", (a,), out, dict(axis=axis, dtype=dtype, **k))
    def accumulate(s, a, axis=0, **k): return ufunc_call(s.u, "accumulate", (a,), None, dict(axis=axis, **k))
    def outer(s, a, b, **k): return ufunc_call(s.u, "outer", (a, b), None, k)
    def at(s, *a): return ufunc_call(s.u, "at", a, None, {})
    def __getattr__(s, n): return getattr(s.u, n)


core.ARRAY_BIN[:] = [lambda a, b, op, swap: binary(op, b, a) if swap else binary(op, a, b),
                     lambda a, b, f: compare(f, a, b)]
