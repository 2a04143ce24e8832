"""C05: the row system"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def check(h, M, P, arr):
    v, k, l, u = P
    R = len(M)
    Question = h.target("srg", "Question")
    ok, q = h.call(Question.from_matrix, arr, allow=("NoSolution",))
    x = rows(h.bits("x", v - R - 1)) if v - R - 1 else []
    cand = [M[j][R] for j in range(R)] + [0] + x
    legal = spec.legal_row(M, R, cand, v, k, l, u, canon=False)
    h.prove("matrix passed in is not modified", same(rows(arr), M))
    h.observe("solvable", ok)
    if not ok:
        h.prove("rejected only if there is no legal row", Not(legal))
        return
    A, b = rows(q.A), rows(q.b)
    h.observe("system", [A, b, raw(q.quota)])
    h.prove("one column per free entry", all(len(r) == v - R - 1 for r in A), len(A) == len(b), shape(q.A)[1] == v - R - 1)
    sat = And([r_eq(dot(a, x), bb) for a, bb in zip(A, b)], r_eq(Sum(x), raw(q.quota)), [r_le(c, t) for c, t in zip(x, rows(q.bounds))])
    h.prove("satisfied exactly by the legal rows", Iff(sat, legal))
    h.keep(q.A, q.b, q.bounds)


def symbolic(h, P, R, dt="int64"):
    M = spec.sym_matrix(h, "M", P[0], R, spec.seed(*P))
    h.assume(spec.valid_partial(M, *P, canon=False))
    check(h, M, tuple(P), h.go(spec.as_array(h, M, dt)))


def known(h, g, R, S, pick=0, dt="int64"):
    G = spec.graph(g, pick)
    P = spec.params(G)
    M = spec.sym_matrix(h, "M", P[0], R, [[int(x) for x in r] for r in G[:R - S]])
    h.assume(spec.valid_partial(M, *P, canon=False))
    check(h, M, P, h.go(spec.as_array(h, M, dt)))


def cfgs(vs): return [dict(P=list(P), R=R) for v in vs for P in spec.feasible(v) for R in range(2, v)]


def known_cfgs(names, S, step):
    out = []
    for g in names:
        v = len(spec.GRAPHS[g]())
        out += [dict(g=g, R=R, S=S) for R in range(2 + S, v, step)]
    return out


HARNESSES = [
    H(symbolic, cfgs(range(4, 11)) + [dict(P=[16, 6, 2, 2], R=3), dict(P=[13, 6, 2, 3], R=5, dt="int8")] + [dict(P=[9, 4, 1, 2], R=R, dt=dt) for R in (3, 6) for dt in ("uint8", "bool", "uint64", "int32")], cfgs((11, 12, 13)) + [dict(P=[16, 6, 2, 2], R=R) for R in range(2, 8)],
      bound="all partial matrices (any column order) of R rows, all feasible (v,k,l,u), v <= 10 (thorough: 13), also as arrays of other types", may_be_empty=True),
    H(known, known_cfgs(["lat4", "gq22", "paley17", "tri7c"], 1, 4) + known_cfgs(["lat6", "paley37"], 0, 8) + [dict(g="lat10", R=40, S=0)] + [dict(g="k150", R=R, S=0, dt=dt) for R, dt in ((140, "int8"),)] + [dict(g="cp150", R=280, S=0, dt="uint8")],
      [dict(g="k150", R=140, S=0), dict(g="k150", R=151, S=0), dict(g="k150", R=290, S=0), dict(g="cp150", R=150, S=0), dict(g="cp150", R=298, S=0), dict(g="k150", R=290, S=0, dt="uint8")] + known_cfgs(["lat4", "gq22", "paley17", "clebschc"], 2, 2) + known_cfgs(["lat5", "tri7", "schlc", "tri8c"], 1, 3), bound="rows of known graphs (v up to 300), the last S of them any valid rows"),
    H(seq(symbolic), [dict(calls=[dict(P=a, R=R), dict(P=b, R=R)]) for a, b in ([[8, 4, 0, 4], [8, 6, 4, 6]], [[8, 6, 4, 6], [8, 4, 0, 4]], [[9, 4, 1, 2], [9, 4, 1, 2]], [[10, 6, 3, 4], [10, 6, 2, 6]], [[10, 6, 2, 6], [10, 6, 3, 4]]) for R in (2, 3)], may_be_empty=True, bound="any two partial matrices, one after the other in one process"),
    H(seq(symbolic, reuse=True), [dict(calls=[dict(P=[8, 4, 0, 4], R=3)] * 2), dict(calls=[dict(P=[9, 4, 1, 2], R=4), dict(P=[9, 6, 3, 6], R=4)]), dict(calls=[dict(P=[10, 3, 0, 1], R=4)] * 2)], bound="the arrays of one call written over and passed in again"),
]
