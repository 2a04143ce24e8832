"""C08: elimination"""
from ..ctx import *
from ..run import H, seq
from .. import spec
from .c06 import solves


def check(h, A0, b0, A, b, top):
    C = len(A0[0])
    f = h.target("gauss_elim", "elim")
    x = rows(h.ints("x", C, 0, top))
    ok, res = h.call(f, A, b, allow=("NoSolution",))
    h.observe("solvable", ok)
    old = solves(A0, b0, x)
    if not ok:
        h.prove("contradiction reported only if there is one", Not(old))
        return
    A1, b1 = rows(res[0]), rows(res[1])
    h.observe("system", [A1, b1])
    h.prove("shape", shape(res[0])[1] == C, len(A1) <= len(A0), len(b1) == len(A1))
    h.prove("0/1 matrix, non-negative right-hand side", And(Or(r_eq(t, 0), r_eq(t, 1)) for r in A1 for t in r), And(r_le(0, t) for t in b1))
    h.prove("same solutions", Iff(old, solves(A1, b1, x)))
    h.keep(*res)


def elim(h, R, C, B, dt="int64"):
    """every 0/1 matrix without empty columns; a solution has no entry above the largest right-hand side"""
    A = h.bits("A", (R, C), dt); b = h.ints("b", R, 0, B, dt)
    A0, b0 = rows(A), rows(b)
    h.assume(And(Or(r_eq(r[c], 1) for r in A0) for c in range(C)))
    A, b = h.go(A, b)
    check(h, A0, b0, A, b, B)


def wide(h, g, R, C, slack=1, T=3):
    """rows of a known graph, C columns of them; any right-hand side close to the real one; x within 0..T"""
    G = spec.graph(g)
    A0 = [[int(t) for t in r[-C:]] for r in G[:R]] + [[1] * C]
    real = [sum(a * int(y) for a, y in zip(row, G[R][-C:])) for row in A0]
    b0 = [core.r_max(0, Sum([t, e])) for t, e in zip(real, rows(h.ints("e", R + 1, -slack, slack)))]
    A = h.go(spec.as_array(h, A0)); b = h.go(spec.as_array(h, [b0]))[0]
    check(h, A0, b0, A, b, T)


def runs(h, blocks, B):
    """few long runs of equal columns (more than 64 in all): every assignment of runs to rows"""
    R, C = len(blocks), sum(blocks[0])
    bits = rows(h.bits("A", (R, len(blocks[0]))))
    A0 = [[t for t, n in zip(r, w) for _ in range(n)] for r, w in zip(bits, blocks)]
    A0 = A0 + [[1] * C]
    b0 = rows(h.ints("b", R + 1, 0, B))
    A = h.go(spec.as_array(h, A0)); b = h.go(spec.as_array(h, [b0]))[0]
    check(h, A0, b0, A, b, 2)


def sort(h, R, C, B):
    A = h.bits("A", (R, C)); b = h.ints("b", R, 0, B)
    A0, b0 = rows(A), rows(b)
    f = h.target("gauss_elim", "sort")
    A, b = h.go(A, b)
    h.call(f, A, b)
    A1, b1 = rows(A), rows(b)
    h.observe("b", b1)
    h.prove("ascending", And(r_le(s, t) for s, t in zip(b1, b1[1:])))
    # the same pairs equally often
    old = [[t] + r for t, r in zip(b0, A0)]; new = [[t] + r for t, r in zip(b1, A1)]
    h.prove("only reordered", And(r_eq(Sum(core.b2i(same(p, q)) for q in old), Sum(core.b2i(same(p, q)) for q in new)) for p in old))


def sort_long(h, R, free):
    """R rows, the right-hand sides in free symbolic"""
    f = h.target("gauss_elim", "sort")
    A0 = [[r % 7 % 2, r % 5 % 2, r % 3 % 2] for r in range(R)]
    b0 = [(r * 11) % 13 for r in range(R)]
    for i, e in zip(free, rows(h.ints("b", len(free), 0, 13))): b0[i] = e
    A = h.go(spec.as_array(h, A0)); b = h.go(spec.as_array(h, [b0]))[0]
    h.call(f, A, b)
    A1, b1 = rows(A), rows(b)
    h.observe("b", b1)
    h.prove("ascending", And(r_le(s, t) for s, t in zip(b1, b1[1:])))
    old = [[t] + r for t, r in zip(b0, A0)]; new = [[t] + r for t, r in zip(b1, A1)]
    h.prove("only reordered", And(r_eq(Sum(core.b2i(same(p, q)) for q in old), Sum(core.b2i(same(p, q)) for q in new)) for p in old))


HARNESSES = [
    H(elim, [dict(R=2, C=3, B=4), dict(R=2, C=5, B=2), dict(R=3, C=2, B=3), dict(R=3, C=3, B=2), dict(R=2, C=3, B=7, dt="int8")], [dict(R=3, C=4, B=3), dict(R=4, C=2, B=2), dict(R=2, C=8, B=3), dict(R=4, C=3, B=1)],
      bound="every R x C 0/1 matrix without empty columns, right-hand sides 0..B, all non-negative x up to B"),
    H(wide, [dict(g="petersen", R=5, C=4), dict(g="gq22", R=9, C=5), dict(g="lat4", R=6, C=9), dict(g="lat10", R=20, C=70, slack=0), dict(g="lat10", R=30, C=63, slack=0), dict(g="lat10", R=80, C=19, slack=0)],
      [dict(g="paley17", R=R, C=16 - R) for R in (8, 10, 12)] + [dict(g="clebsch", R=R, C=15 - R) for R in (5, 8, 10)] + [dict(g="lat10", R=R, C=99 - R, slack=0) for R in (4, 30, 60)],
      bound="systems from known graphs, up to 95 columns, right-hand sides within slack of the real ones"),
    H(runs, [dict(blocks=[[30, 35]], B=2), dict(blocks=[[1, 64]], B=1)], [dict(blocks=[[20, 25, 25]] * 2, B=1)], bound="runs of equal columns, 65 to 70 columns"),
    H(sort, [dict(R=3, C=2, B=3), dict(R=4, C=1, B=2)], [dict(R=4, C=2, B=4)], bound="R x C 0/1 matrices, right-hand sides 0..B"),
    H(seq(elim), [dict(calls=[dict(R=2, C=2, B=1)] * 2), dict(calls=[dict(R=2, C=2, B=1), dict(R=3, C=2, B=1)])], bound="any two systems, one after the other in one process"),
    H(sort_long, [dict(R=40, free=[39]), dict(R=20, free=[0, 19])], bound="R rows, the right-hand sides in free symbolic"),
    H(seq(elim, reuse=True), [dict(calls=[dict(R=2, C=2, B=1)] * 2)], bound="the arrays of one call written over and passed in again"),
]
