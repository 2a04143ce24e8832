"""C11: quotas and bounded partitions"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def fork(h, C, lo, hi, dq, dt="int64", plain=False):
    """bounds in lo..hi, a quota in a window of dq above (wherever it lies)"""
    f = h.target("fork", "enum")
    bd = h.ints("bounds", C, lo, hi, dt)
    q = h.int("quota", dq[0], dq[1])
    b0 = rows(bd); q0 = raw(q)
    for loc in range(C):
        bd_, q_ = h.go(bd, q)
        _, out = h.call(lambda: [tuple(p) for p in f(q_, bd_, loc)])
        got = [(raw(a), raw(b)) for a, b in out]
        h.observe(f"pairs {loc}", [list(p) for p in got])
        rest = Sum(b0[:loc] + b0[loc + 1:])
        h.prove("pair within bounds", And(And(r_eq(Sum([a, b]), q0), r_le(0, a), r_le(a, b0[loc]), r_le(0, b), r_le(b, rest)) for a, b in got))
        h.prove("increasing", And(r_lt(a, b) for (a, _), (b, _) in zip(got, got[1:])))
        x = raw(h.int(f"x{loc}", -1, max(hi, dq[1]) + 1))
        y = r_sub(q0, x)
        legal = And(r_le(0, x), r_le(x, b0[loc]), r_le(0, y), r_le(y, rest))
        h.prove("no pair missing", Imp(legal, Or(r_eq(a, x) for a, _ in got)))
        h.prove("bounds unmodified", same(rows(bd_), b0))


def many(h, C, free, locs, B, dq):
    """C bounds, those in free 0..B, the others 1; quota near the largest possible total or the smallest"""
    f = h.target("fork", "enum")
    b0 = [1] * C
    for c, e in zip(free, rows(h.ints("bounds", len(free), 0, B))): b0[c] = e
    q = h.int("quota", *dq)
    q0 = raw(q)
    for loc in locs:
        bd_ = h.go(spec.as_array(h, [b0]))[0]
        _, out = h.call(lambda: [tuple(p) for p in f(h.go(q), bd_, loc)])
        got = [(raw(a), raw(b)) for a, b in out]
        h.observe(f"pairs {loc}", [list(p) for p in got])
        rest = Sum(b0[:loc] + b0[loc + 1:])
        h.prove("pair within bounds", And(And(r_eq(Sum([a, b]), q0), r_le(0, a), r_le(a, b0[loc]), r_le(0, b), r_le(b, rest)) for a, b in got))
        h.prove("increasing", And(r_lt(a, b) for (a, _), (b, _) in zip(got, got[1:])))
        x = raw(h.int(f"x{loc}", -1, B + 1))
        y = r_sub(q0, x)
        h.prove("no pair missing", Imp(And(r_le(0, x), r_le(x, b0[loc]), r_le(0, y), r_le(y, rest)), Or(r_eq(a, x) for a, _ in got)))


def partition(h, C, B, S, kind="list"):
    f = h.target("partition", "enum")
    bd = h.ints("bounds", C, 0, B); s = h.int("s", 0, S)
    b0, s0 = rows(bd), raw(s)
    bd_, s_ = h.go(bd, s)
    arg = bd_ if kind == "array" else [bd_[i] for i in range(C)]
    if kind == "tuple": arg = tuple(arg)
    _, out = h.call(lambda: [tuple(t) for t in f(s_, arg)])
    got = [[raw(t) for t in p] for p in out]
    h.observe("tuples", got)
    h.prove("tuples of the right length", all(len(p) == C for p in got))
    h.prove("within bounds and sum s", And(And(r_eq(Sum(p), s0), [And(r_le(0, t), r_le(t, b)) for t, b in zip(p, b0)]) for p in got))
    h.prove("lexicographic order, once each", And(lex_lt(p, q) for p, q in zip(got, got[1:])))
    x = rows(h.ints("x", C, 0, B))
    h.prove("no tuple missing", Imp(And(r_eq(Sum(x), s0), [r_le(t, b) for t, b in zip(x, b0)]), Or(same(x, p) for p in got)))


def partition_large(h, C, lo, hi, S):
    """C bounds lo..hi, a sum within the window S near the largest"""
    f = h.target("partition", "enum")
    bd = h.ints("bounds", C, lo, hi); s = h.int("s", *S)
    b0, s0 = rows(bd), raw(s)
    bd_, s_ = h.go(bd, s)
    _, out = h.call(lambda: [tuple(t) for t in f(s_, [bd_[i] for i in range(C)])])
    got = [[raw(t) for t in p] for p in out]
    h.observe("tuples", got)
    h.prove("within bounds and sum s", all(len(p) == C for p in got), And(And(r_eq(Sum(p), s0), [And(r_le(0, t), r_le(t, b)) for t, b in zip(p, b0)]) for p in got))
    h.prove("lexicographic order, once each", And(lex_lt(p, q) for p, q in zip(got, got[1:])))
    x = rows(h.ints("x", C, 0, hi))
    h.prove("no tuple missing", Imp(And(r_eq(Sum(x), s0), [r_le(t, b) for t, b in zip(x, b0)]), Or(same(x, p) for p in got)))


def fork_large(h, free, rest, dq):
    """the bound split at is small, the others add up to much; the quota within dq of that"""
    f = h.target("fork", "enum")
    bd = rows(h.ints("bounds", free, 0, 2)) + list(rest)
    q = h.int("quota", sum(rest) + dq[0], sum(rest) + dq[1])
    q0 = raw(q)
    arr = h.go(spec.as_array(h, [bd]))[0]
    _, out = h.call(lambda: list(f(h.go(q), arr, 0)))
    got = [[raw(t) for t in p] for p in out]
    h.observe("pairs", got)
    h.prove("used + rest is the quota, both within bounds", And(And(r_eq(Sum(p), q0), r_le(0, p[0]), r_le(p[0], bd[0]), r_le(0, p[1]), r_le(p[1], Sum(bd[1:]))) for p in got))
    h.prove("increasing", And(r_lt(p[0], r[0]) for p, r in zip(got, got[1:])))
    x = raw(h.int("x", 0, 2))
    rest_ = r_sub(q0, x)
    h.prove("no pair missing", Imp(And(r_le(x, bd[0]), r_le(0, rest_), r_le(rest_, Sum(bd[1:]))), Or(r_eq(x, p[0]) for p in got)))


HARNESSES = [
    H(fork, [dict(C=1, lo=0, hi=5, dq=[0, 7]), dict(C=2, lo=0, hi=5, dq=[0, 12]), dict(C=3, lo=0, hi=3, dq=[0, 10]), dict(C=3, lo=0, hi=3, dq=[0, 8], dt="int8"), dict(C=4, lo=0, hi=1, dq=[0, 5]),
             dict(C=2, lo=126, hi=130, dq=[250, 261]), dict(C=3, lo=99, hi=101, dq=[295, 304])],
      [dict(C=4, lo=0, hi=4, dq=[0, 18]), dict(C=5, lo=0, hi=2, dq=[0, 11]), dict(C=2, lo=0, hi=20, dq=[0, 42]), dict(C=2, lo=32760, hi=32770, dq=[65520, 65541])],
      bound="every position of C bounds lo..hi, quota within dq"),
    H(partition, [dict(C=1, B=4, S=5), dict(C=2, B=4, S=9), dict(C=3, B=2, S=7), dict(C=4, B=1, S=5), dict(C=2, B=3, S=7, kind="array"), dict(C=3, B=1, S=4, kind="tuple"), dict(C=3, B=4, S=13), dict(C=5, B=1, S=6), dict(C=4, B=2, S=9)],
      [dict(C=2, B=12, S=25), dict(C=5, B=2, S=11), dict(C=6, B=1, S=7), dict(C=3, B=7, S=22)], bound="C bounds 0..B, sum 0..S"),
    H(seq(fork), [dict(calls=[dict(C=2, lo=0, hi=2, dq=[0, 2])] * 2)], bound="any two splittings, one after the other in one process"),
    H(seq(partition), [dict(calls=[dict(C=2, B=2, S=5)] * 2), dict(calls=[dict(C=3, B=1, S=3), dict(C=2, B=2, S=4)])], bound="any two partitions, one after the other in one process"),
    H(many, [dict(C=C, free=[0, C // 2, C - 1], locs=[0, C // 2, C - 1], B=2, dq=dq) for C in (66, 130, 260) for dq in ([0, 3], [C - 5, C + 4])], bound="many bounds (to 260), three of them 0..2, the others 1"),
    H(many, [dict(C=3, free=[1], locs=[1], B=140, dq=[130, 140])], bound="one large bound", name="one_large"),
    H(partition_large, [dict(C=1, lo=0, hi=300, S=[0, 301]), dict(C=2, lo=127, hi=129, S=[252, 259]), dict(C=9, lo=0, hi=1, S=[7, 9])], [dict(C=2, lo=255, hi=257, S=[509, 515])], bound="large bounds or many, the sum near the largest"),
    H(fork_large, [dict(free=n, rest=rest, dq=[-2, 5]) for n in (1, 2) for rest in ([120, 9], [200, 100], [20000, 20000], [2 ** 31 - 1, 5], [2 ** 53, 1], [1] * 255)], hang_ok=True, path_s=30, con_s=30, bound="large other bounds, the quota near their sum"),
    H(seq(fork, reuse=True), [dict(calls=[dict(C=2, lo=0, hi=2, dq=[0, 2])] * 2)], bound="the arrays of one call written over and passed in again"),
]
