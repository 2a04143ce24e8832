"""C09: runs of equal columns"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def differ(A, c): return Or(Not(r_eq(r[c], r[c + 1])) for r in A)


def check(h, A0, A):
    R, C = len(A0), len(A0[0])
    reduce, expand = h.target("unique", "reduce", "expand")
    _, res = h.call(reduce, A)
    red, mult, loc = res
    m = [h.split(x) for x in rows(mult)]; p = [h.split(x) for x in rows(loc)]
    B = rows(red)
    h.observe("reduced", [B, m, p])
    h.prove("matrix passed in is not modified", same(rows(A), A0))
    h.prove("multiplicities", len(m) == len(p) == shape(red)[1], shape(red)[0] == R, all(x > 0 for x in m), sum(m) == C)
    starts = [sum(m[:i]) for i in range(len(m))]
    h.prove("positions are where the runs start", p == starts)
    for c in range(C - 1):
        h.prove(f"run boundary {c}", Iff(differ(A0, c), c + 1 in starts))
    h.prove("reduced columns", same(B, [[r[c] for c in starts] for r in A0]))
    _, back = h.call(expand, red, mult)
    h.observe("expanded", back)
    h.prove("expanding gives the original", same(rows(back), A0))
    h.keep(red, mult, loc, back)


def roundtrip(h, R, C, dt="int64"):
    A = h.bits("A", (R, C), dt)
    A0 = rows(A)
    check(h, A0, h.go(A))


def tall(h, R, C, free):
    """R rows, only those in free symbolic, the rest zero"""
    bits = rows(h.bits("A", (len(free), C)))
    A0 = [[0] * C for _ in range(R)]
    for i, r in zip(free, bits): A0[i] = r
    check(h, A0, h.go(spec.as_array(h, A0)))


def wide(h, R, C, free, flat=False):
    """C columns, only those in free symbolic, the others alike to the left and right of each"""
    bits = rows(h.bits("A", (R, len(free))))
    A0 = [[(c * (r + 3)) // (C // 2 + 1) % 2 * (not flat) for c in range(C)] for r in range(R)]
    for r in range(R):
        for i, c in enumerate(free): A0[r][c] = bits[r][i]
    check(h, A0, h.go(spec.as_array(h, A0)))


def expand(h, R, sizes, B):
    """any matrix, any multiplicities"""
    f = h.target("unique", "expand")
    C = sizes
    A = h.bits("A", (R, C))
    m = [h.split(x) for x in rows(h.ints("m", C, 1, B))]
    A0 = rows(A)
    A, mult = h.go(A, h.const(m, "int64"))
    _, out = h.call(f, A, mult)
    h.observe("expanded", out)
    h.prove("each column as often as said", same(rows(out), [[r[c] for c in range(C) for _ in range(m[c])] for r in A0]))


HARNESSES = [
    H(roundtrip, [dict(R=1, C=6), dict(R=2, C=6), dict(R=3, C=4), dict(R=5, C=3), dict(R=2, C=5, dt="int8"), dict(R=1, C=1), dict(R=8, C=5), dict(R=3, C=8), dict(R=20, C=3), dict(R=9, C=3, dt="int8"), dict(R=2, C=9), dict(R=4, C=9), dict(R=12, C=8), dict(R=40, C=6)],
      [dict(R=4, C=11), dict(R=12, C=9), dict(R=100, C=6)], bound="every R x C 0/1 matrix"),
    H(tall, [dict(R=8, C=3, free=[0, 1, 7]), dict(R=64, C=3, free=[0, 1, 63]), dict(R=65, C=3, free=[0, 1, 64]), dict(R=100, C=3, free=[0, 35, 36, 99]), dict(R=130, C=2, free=[0, 1, 2, 65, 66])]
      + [dict(R=R, C=3, free=[0, R - 1]) for R in (7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 127, 128, 129)] + [dict(R=300, C=4, free=[0, 1, 30, 64, 100, 298, 299])], [dict(R=1100, C=4, free=[0, 1, 1022, 1023, 1024, 1099])], bound="tall matrices, the rows in free symbolic, the others zero"),
    H(expand, [dict(R=2, sizes=3, B=3), dict(R=1, sizes=4, B=4), dict(R=2, sizes=4, B=4)], [dict(R=2, sizes=5, B=5)], bound="R x C 0/1 matrices, multiplicities 1..B"),
    H(seq(roundtrip), [dict(calls=[dict(R=2, C=3)] * 2), dict(calls=[dict(R=1, C=4), dict(R=2, C=2)])], bound="any two matrices, one after the other in one process"),
    H(wide, [dict(R=2, C=C, free=[0, C // 2, C - 1]) for C in (64, 130, 200, 300)] + [dict(R=3, C=70, free=[1, 40]), dict(R=1, C=140, free=[0], flat=True), dict(R=2, C=300, free=[2, 299], flat=True)], bound="wide matrices (to 300 columns), the columns in free symbolic"),
    H(seq(roundtrip, reuse=True), [dict(calls=[dict(R=2, C=3)] * 2)], bound="the arrays of one call written over and passed in again"),
]
