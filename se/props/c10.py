"""C10: bound tightening"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def tighten(h, R, C, B):
    A = h.bits("A", (R, C)); b = h.ints("b", R, 0, B); bd = h.ints("bounds", C, 0, B)
    f = h.target("bounds", "lower_upper_bound")
    A0, b0, d0 = rows(A), rows(b), rows(bd)
    A, b, bd = h.go(A, b, bd)
    h.call(f, A, b, bd)
    h.observe("bounds", bd)
    got = rows(bd)
    for c in range(C):
        m = d0[c]
        for r in range(R):
            m = core.r_ite(r_eq(A0[r][c], 1), core.r_min(m, b0[r]), m)
        h.prove(f"bound {c} is the minimum", r_eq(got[c], m))
    h.prove("inputs unmodified", same(rows(A), A0), same(rows(b), b0))


def zero_loc(h, C, B):
    bd = h.ints("bounds", C, 0, B)
    f = h.target("bounds", "zero_bound_loc")
    d0 = rows(bd)
    bd = h.go(bd)
    _, out = h.call(f, bd)
    out = [h.split(x) for x in rows(out)]
    h.observe("loc", out)
    h.prove("increasing", all(x < y for x, y in zip(out, out[1:])), all(0 <= x < C for x in out))
    for c in range(C):
        h.prove(f"zero {c}", Iff(r_eq(d0[c], 0), c in out))
    h.prove("unmodified", same(rows(bd), d0))


def single(h, R, C):
    A = h.bits("A", (R, C))
    check_single(h, rows(A), h.go(A))


def check_single(h, A0, A):
    R, C = len(A0), len(A0[0])
    f = h.target("bounds", "one_element_row_locs")
    _, out = h.call(f, A)
    got = [(h.split(r), h.split(c)) for r, c in out]
    h.observe("pairs", sorted(c for r, c in got))
    cnt = [Sum(row) for row in A0]
    h.prove("in range", all(0 <= r < R and 0 <= c < C for r, c in got))
    for r, c in got:
        h.prove("only entry of its row", r_eq(cnt[r], 1), r_eq(A0[r][c], 1))
    h.prove("one pair per column", len({c for r, c in got}) == len(got))
    for c in range(C):
        alone = Or(And(r_eq(cnt[r], 1), r_eq(A0[r][c], 1)) for r in range(R))
        h.prove(f"column {c}", Iff(alone, c in {c for r, c in got}))
    h.prove("unmodified", same(rows(A), A0))


def pattern(h, R, C, free, m=5):
    """a sparse R x C matrix with the entries in free symbolic"""
    A = [[int(c % R == r and c % m == 0) for c in range(C)] for r in range(R)]
    for (r, c), e in zip(free, rows(h.bits("A", len(free)))): A[r][c] = e
    return A


def check_tighten(h, A0, b, bd):
    f = h.target("bounds", "lower_upper_bound")
    b0, d0 = rows(b), rows(bd)
    A, b, bd = h.go(spec.as_array(h, A0)), h.go(b), h.go(bd)
    h.call(f, A, b, bd)
    got = rows(bd)
    h.observe("bounds", got)
    R, C = len(A0), len(A0[0])
    for c in range(C):
        m = d0[c]
        for r in range(R): m = core.r_ite(r_eq(A0[r][c], 1), core.r_min(m, b0[r]), m)
        h.prove(f"bound {c} is the minimum", r_eq(got[c], m))
    h.prove("inputs unmodified", same(rows(A), A0), same(rows(b), b0))


def tighten_large(h, R, C, free, lo, hi):
    A0 = pattern(h, R, C, free)
    b = h.ints("b", R, lo, hi)
    bd = h.const([lo + (c * 7) % (hi - lo + 1) for c in range(C)], "int64")
    check_tighten(h, A0, b, bd)


def zero_loc_large(h, C, free, lo, hi):
    f = h.target("bounds", "zero_bound_loc")
    d0 = [lo + 1 + (c * 7) % (hi - lo) for c in range(C)]
    for c, e in zip(free, rows(h.ints("d", len(free), 0, 2))): d0[c] = e
    bd = h.go(spec.as_array(h, [d0]))[0]
    _, out = h.call(f, bd)
    out = [h.split(x) for x in rows(out)]
    h.observe("loc", out)
    h.prove("increasing", all(x < y for x, y in zip(out, out[1:])), all(0 <= x < C for x in out))
    for c in range(C): h.prove(f"zero {c}", Iff(r_eq(d0[c], 0), c in out))
    h.prove("unmodified", same(rows(bd), d0))


def single_large(h, R, C, free, m=11):
    A0 = pattern(h, R, C, free, m)
    check_single(h, A0, h.go(spec.as_array(h, A0)))


HARNESSES = [
    H(tighten, [dict(R=3, C=3, B=3), dict(R=2, C=4, B=2)], [dict(R=3, C=4, B=127)], "R x C 0/1 matrices, values 0..B"),
    H(zero_loc, [dict(C=6, B=3)], [dict(C=10, B=127)], "C bounds 0..B"),
    H(single, [dict(R=3, C=3), dict(R=2, C=4)], [dict(R=4, C=3), dict(R=3, C=4)], "R x C 0/1 matrices"),
    H(seq(tighten), [dict(calls=[dict(R=2, C=2, B=1)] * 2)], bound="any two systems, one after the other in one process"),
    H(seq(single), [dict(calls=[dict(R=2, C=2)] * 2), dict(calls=[dict(R=2, C=3), dict(R=3, C=2)]), dict(calls=[dict(R=1, C=4), dict(R=2, C=2)])], bound="any two matrices, one after the other in one process"),
    H(tighten_large, [dict(R=2, C=130, free=[[0, 0], [0, 129], [1, 64]], lo=0, hi=300), dict(R=70, C=5, free=[[69, 4], [64, 0]], lo=120, hi=140)], bound="large sparse matrices, the entries in free symbolic, any right-hand sides lo..hi"),
    H(zero_loc_large, [dict(C=300, free=[0, 127, 128, 299], lo=0, hi=5), dict(C=70, free=[63, 64], lo=0, hi=1)], bound="many bounds, those in free 0..2"),
    H(single_large, [dict(R=70, C=3, free=[[0, 0], [68, 1], [69, 2], [69, 1]]), dict(R=3, C=130, free=[[0, 129], [1, 64], [2, 128]]), dict(R=40, C=90, free=[[39, 89], [39, 88], [0, 64]])] + [dict(R=n, C=n, m=1, free=[[0, n - 1], [n - 1, 0], [n - 1, n - 1]]) for n in (5, 9, 17, 33, 65)] + [dict(R=40, C=20, m=1, free=[[0, 1], [20, 19], [39, 19], [39, 0]]), dict(R=20, C=20, m=1, free=[[r, (r + 1) % 20] for r in (0, 9, 10, 19)])], bound="large sparse matrices, the entries in free symbolic"),
    H(seq(tighten, reuse=True), [dict(calls=[dict(R=2, C=2, B=1)] * 2)], bound="the arrays of one call written over and passed in again"),
    H(seq(single, reuse=True), [dict(calls=[dict(R=2, C=2)] * 2)], bound="the arrays of one call written over and passed in again"),
]
