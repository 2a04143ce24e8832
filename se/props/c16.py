"""C16: seed rows and reading parameters back"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def feasible(h, lo, V):
    P = [h.int("v", max(4, lo), V), h.int("k", 1, V), h.int("l", 0, V), h.int("u", 0, V)]
    v, k, l, u = p = [raw(t) for t in P]
    h.assume(r_le(k, r_sub(v, 2)), r_lt(l, k), r_le(u, k), r_le(r_sub(r_sub(k, l), 1), r_sub(r_sub(v, k), 1)),
             r_eq(r_mul(r_sub(r_sub(v, k), 1), u), r_mul(k, r_sub(r_sub(k, l), 1))))
    return P, p


def check(h, P, p, extra):
    seed = h.target("solver", "_seed"); vklu = h.target("srg", "vklu")
    _, s = h.call(seed, *P)
    M = rows(s)
    h.observe("seed", M)
    h.prove("seed rows", shape(s) == (2, p[0]), same(M, spec.seed(*p)))
    _, q = h.call(vklu, s)
    h.observe("parameters", list(q))
    h.prove("parameters read back from the seed", same([raw(t) for t in q], list(p)))
    h.prove("reading does not modify", same(rows(s), M))
    h.keep(s)
    for R in extra:
        if R > p[0]: continue
        N = spec.sym_matrix(h, f"M{R}", p[0], R, spec.seed(*p))
        A = h.go(spec.as_array(h, N))
        _, q = h.call(vklu, A)
        h.prove(f"parameters read back from {R} rows", same([raw(t) for t in q], list(p)))
        h.prove("reading does not modify", same(rows(A), N))


def seed(h, lo, V):
    """all feasible parameters"""
    P, p = feasible(h, lo, V)
    p = [h.split(x) for x in p]
    P = [h.go(t) for t in P]
    P = [int(t) for t in P]
    check(h, P, p, (3, p[0]) if p[0] <= 12 else (3,))


def fresh(h, lo, V):
    """rows made for one caller, who writes into them, are not those of the next"""
    seed = h.target("solver", "_seed")
    P, p = feasible(h, lo, V)
    p = [h.split(x) for x in p]
    P = [int(h.go(t)) for t in P]
    _, a = h.call(seed, *P)
    r, c = h.split(h.int("r", 0, 1)), h.split(h.int("c", 0, p[0] - 1))
    a[r, c] = 1 - int(a[r, c])
    _, b = h.call(seed, *P)
    h.observe("seed", rows(b))
    h.prove("seed rows", shape(b) == (2, p[0]), same(rows(b), spec.seed(*p)))


def one(h, P): check(h, list(P), list(P), ())


def graph(h, g, Rs, pick=0, dt="int64"):
    """partial matrices of known graphs"""
    vklu = h.target("srg", "vklu")
    G = spec.graph(g, pick)
    for R in Rs:
        M = [[int(x) for x in r] for r in G[:R]]
        A = h.go(spec.as_array(h, M, dt))
        _, q = h.call(vklu, A)
        h.prove(f"parameters read back from {R} rows", same(nums([raw(t) for t in q]), list(spec.params(G))))
        h.prove("reading does not modify", same(rows(A), M))


LARGE = [[300, 150, 0, 150], [400, 38, 18, 2], [400, 361, 324, 342], [289, 144, 71, 72], [260, 129, 128, 0], [1024, 198, 22, 42]]

HARNESSES = [
    H(seed, [dict(lo=4, V=20)], [dict(lo=21, V=45)], bound="all feasible parameters with lo <= v <= V; any further rows (3, and all if v <= 12)"),
    H(one, [dict(P=P) for P in LARGE] + [dict(P=[n * n, 2 * (n - 1), n - 2, 2]) for n in (7, 8, 9, 12, 15, 16, 17, 25)] + [dict(P=[4 * t + 1, 2 * t, t - 1, t]) for t in (31, 32, 33, 63, 64, 65, 127, 128, 129)], [dict(P=[n * n, 2 * (n - 1), n - 2, 2]) for n in (66, 100)], bound="single large parameter sets"),
    H(graph, [dict(g=g, Rs=[2, 5, len(spec.GRAPHS[g]())]) for g in ("paley13", "lat4", "schl", "k66", "3k4", "lat10")] + [dict(g=g, Rs=[2, 7], dt=dt) for g in ("lat4", "paley13") for dt in ("int8", "uint8", "bool", "uint64")] + [dict(g="k150", Rs=[2, 150], dt=dt) for dt in ("int8", "uint8", "bool")], [dict(g="k150", Rs=[2, 150, 299, 300])], bound="partial matrices of known graphs, also as arrays of other types"),
    H(seq(seed), [dict(calls=[dict(lo=9, V=10)] * 2)], bound="any two parameter sets, one after the other in one process"),
    H(fresh, [dict(lo=4, V=10)], bound="the same parameters again after an entry of the first result was changed"),
    H(seq(seed, reuse=True), [dict(calls=[dict(lo=9, V=9)] * 2)], bound="the arrays of one call written over and passed in again"),
]
