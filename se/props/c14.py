"""C14: complements"""
from ..ctx import *
from ..run import H, seq
from .. import spec
from .c12 import sym_graph


def complemented(M): return [[0 if i == j else r_sub(1, x) for j, x in enumerate(r)] for i, r in enumerate(M)]


def check(h, M, dt="int64"):
    f = h.target("utils", "complement")
    A = h.go(spec.as_array(h, M, dt))
    _, out = h.call(f, A)
    h.observe("complement", out)
    B = rows(out)
    h.prove("every off-diagonal entry flipped, zero diagonal", same(B, complemented(M)))
    h.prove("input not modified", same(rows(A), M))
    _, back = h.call(f, out)
    h.prove("complement of the complement", same(rows(back), M))
    h.prove("not modified by the second run", same(rows(out), B), same(rows(A), M))
    h.keep(out, back)
    return B


def flip(h, n, dt="int64"): check(h, sym_graph(h, "M", n), dt)


def srg(h, P):
    """every strongly regular matrix with the seed rows in front (any order of the other vertices)"""
    P = tuple(P)
    M = spec.sym_matrix(h, "M", P[0], P[0], spec.seed(*P))
    h.assume(spec.valid_partial(M, *P, canon=False))
    B = check(h, M)
    parameters(h, P, B)


def parameters(h, P, B):
    vklu = h.target("utils", "complement_vklu")
    _, q = h.call(vklu, *P)
    q = [raw(t) for t in q]
    h.observe("parameters", q)
    v, k, l, u = q
    h.prove("strongly regular with the stated parameters", v == len(B), And(r_eq(Sum(r), k) for r in B),
            And(r_eq(spec.common(B[i], B[j]), r_ite(r_eq(B[i][j], 1), l, u)) for i in range(len(B)) for j in range(i)))


def known(h, g):
    G = spec.graph(g)
    M = [[int(x) for x in r] for r in G]
    parameters(h, spec.params(G), check(h, M))


def pair(h, n):
    """two rows of any graph with n vertices: degree and common neighbours after complementing"""
    vklu, comp = h.target("utils", "complement_vklu", "complement")
    M = [[0] * n for _ in range(n)]
    bits = rows(h.bits("M", 2 * n - 3))
    e = bits[0]
    M[0][1] = M[1][0] = e
    for j in range(2, n):
        M[0][j] = M[j][0] = bits[2 * j - 3]; M[1][j] = M[j][1] = bits[2 * j - 2]
    K, L, U = (h.int(t, 0, n - 1) for t in "klu")
    k, l, u = raw(K), raw(L), raw(U)
    h.assume(r_eq(Sum(M[0]), k), r_eq(Sum(M[1]), k), r_eq(spec.common(M[0], M[1]), r_ite(r_eq(e, 1), l, u)))
    A = h.go(spec.as_array(h, M))
    _, out = h.call(comp, A)
    B = rows(out)
    _, q = h.call(vklu, n, *h.go(K, L, U))
    q = [raw(t) for t in q]
    h.observe("parameters", q)
    h.prove("degree", r_eq(Sum(B[0]), q[1]), r_eq(Sum(B[1]), q[1]))
    h.prove("common neighbours", r_eq(spec.common(B[0], B[1]), r_ite(r_eq(B[0][1], 1), q[2], q[3])))


def formula(h, V):
    """the parameter formula for all feasible parameters with v <= V"""
    vklu, assert_srg = h.target("utils", "complement_vklu", "assert_srg")
    v = h.int("v", 4, V); k = h.int("k", 1, V); l = h.int("l", 0, V); u = h.int("u", 0, V)
    a, b, c, d = raw(v), raw(k), raw(l), raw(u)
    h.assume(r_le(b, r_sub(a, 2)), r_lt(c, b), r_le(d, b), r_eq(r_mul(r_sub(r_sub(a, b), 1), d), r_mul(b, r_sub(r_sub(b, c), 1))))
    # the complement of a graph has non-negative counts
    v, k, l, u = h.go(v, k, l, u)
    _, q = h.call(vklu, v, k, l, u)
    h.observe("complement", q)
    h.call(assert_srg, *q)
    _, p = h.call(vklu, *q)
    h.observe("back", p)
    h.prove("its own inverse", same(rows(list(p)), [a, b, c, d]))
    h.prove("same number of vertices", r_eq(raw(q[0]), a))


HARNESSES = [
    H(flip, [dict(n=n) for n in (2, 3, 4, 6, 10, 30)] + [dict(n=4, dt=dt) for dt in ("int8", "uint8", "bool")], [dict(n=20), dict(n=40)], bound="every graph on n vertices"),
    H(pair, [dict(n=4), dict(n=6), dict(n=8)], [dict(n=10), dict(n=12)], bound="every two rows over n vertices"),
    H(srg, [dict(P=[5, 2, 0, 1]), dict(P=[9, 4, 1, 2]), dict(P=[10, 3, 0, 1]), dict(P=[6, 3, 0, 3])], [dict(P=list(P)) for v in range(4, 12) for P in spec.feasible(v)], bound="every strongly regular graph with these parameters, seed rows first", may_be_empty=True),
    H(known, [dict(g=g) for g in ("paley13", "lat4", "gq22", "schl", "lat6", "tri8", "paley37", "3k4", "k66", "lat10")], [dict(g=g) for g in ("k150", "lat8", "clebsch", "shrik")], bound="known graphs"),
    H(formula, [dict(V=40)], [dict(V=300)], bound="all feasible parameters with v <= V"),
    H(seq(flip), [dict(calls=[dict(n=4)] * 2), dict(calls=[dict(n=3), dict(n=5)])], bound="any two graphs, one after the other in one process"),
    H(seq(flip, reuse=True), [dict(calls=[dict(n=4)] * 2)], bound="the arrays of one call written over and passed in again"),
]
