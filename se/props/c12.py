"""C12: maximising and swapping"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def upper(M): return [x for i, r in enumerate(M) for x in r[i + 1:]]


def sym_graph(h, name, n):
    bits = rows(h.bits(name, n * (n - 1) // 2))
    M = [[0] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            M[i][j] = M[j][i] = bits[k]; k += 1
    return M


def check_max(h, M, dt="int64"):
    f = h.target("sorter", "maximize")
    n = len(M)
    A = h.go(spec.as_array(h, M, dt))
    _, out = h.call(f, A)
    B = nums(rows(out))
    h.observe("maximised", B)
    h.prove("shape", shape(out) == (n, n))
    h.prove("input not modified", same(rows(A), M))
    spec.prove_relabelled(h, "the same graph, first vertex kept", M, B)
    h.prove("first row: ones in front", And(r_le(y, x) for x, y in zip(B[0][1:], B[0][2:])))
    if n > 2:
        front = And(Imp(r_eq(B[0][j], B[0][j + 1]), r_le(B[1][j + 1], B[1][j])) for j in range(2, n - 1))
        h.prove("second row: ones in front among neighbours and among the others", Imp(r_eq(B[0][1], 1), front))
    h.prove("encoding not lowered", lex_le(upper(M), upper(B)))
    h.keep(out)


def maximize(h, n, dt="int64"): check_max(h, sym_graph(h, "M", n), dt)


def degree(h, n, k):
    """the first vertex has the neighbours 1..k"""
    M = sym_graph(h, "M", n)
    h.assume(And(r_eq(M[0][j], int(j <= k)) for j in range(1, n)))
    check_max(h, M)


def shuffled(g, s):
    G = spec.graph(g)
    n = len(G)
    p, x = list(range(n)), s
    for i in range(n - 1, 0, -1):
        x = (x * 1103515245 + 12345) % 2147483648
        j = (x >> 8) % (i + 1)
        p[i], p[j] = p[j], p[i]
    return [[int(G[p[i]][p[j]]) for j in range(n)] for i in range(n)]


def known(h, g, s, S):
    """a known graph in shuffled order with the first S edges of the last vertex free"""
    M = shuffled(g, s)
    n = len(M)
    if S:
        for j, e in enumerate(rows(h.bits("e", S))): M[n - 1][j] = M[j][n - 1] = e
    check_max(h, M)


def swap(h, n):
    f = h.target("sorter", "swap")
    M = sym_graph(h, "M", n)
    i = h.split(h.int("i", 0, n - 1)); j = h.split(h.int("j", 0, n - 1))
    A = h.go(spec.as_array(h, M))
    _, out = h.call(f, A, i, j)
    p = list(range(n)); p[i], p[j] = p[j], p[i]
    h.observe("swapped", out)
    h.prove("the relabelling", same(rows(out), [[M[p[a]][p[b]] for b in range(n)] for a in range(n)]))
    _, back = h.call(f, out, i, j)
    h.prove("undone by swapping again", same(rows(back), M))
    h.prove("input not modified", same(rows(A), M))
    g = h.target("sorter", "swap_and_verify")
    _, out2 = h.call(g, A, i, j)
    h.prove("verified variant agrees", same(rows(out2), rows(out)))


def verify(h, n):
    """the verifying swap, any 0/1 matrix"""
    f = h.target("sorter", "swap_and_verify")
    A = h.bits("A", (n, n))
    M = rows(A)
    i = h.split(h.int("i", 0, n - 1)); j = h.split(h.int("j", 0, n - 1))
    ok, _ = h.call(f, h.go(A.copy()), i, j, allow=("AssertionError",))
    h.observe("accepted", ok)
    h.prove("refused exactly if not symmetric or with a loop", Iff(ok, And(And(r_eq(M[a][b], M[b][a]) for a in range(n) for b in range(a)), [r_eq(M[a][a], 0) for a in range(n)])))


HARNESSES = [
    H(maximize, [dict(n=2), dict(n=3), dict(n=4), dict(n=5)] + [dict(n=4, dt=dt) for dt in ("int8", "uint8", "bool")], [dict(n=6)], bound="every graph on n vertices, also as arrays of other types"),
    H(degree, [dict(n=6, k=3)], [dict(n=6, k=k) for k in (1, 2, 4, 5)] + [dict(n=7, k=3)], bound="every graph on n vertices whose first vertex has the neighbours 1..k"),
    H(known, [dict(g=g, s=1, S=2) for g in ("petersen", "paley13", "lat4")] + [dict(g=g, s=2, S=0) for g in ("lat5", "tri7")], [dict(g=g, s=s, S=3) for g in ("petersen", "paley13", "lat4", "gq22") for s in (2, 3, 4)] + [dict(g=g, s=s, S=0) for g in ("lat5", "tri7", "schl", "lat6") for s in (1, 3)],
      bound="known graphs in shuffled order, S edges free"),
    H(swap, [dict(n=4), dict(n=3)], [dict(n=6), dict(n=8)], bound="every graph on n vertices, every two vertices"),
    H(verify, [dict(n=3)], [dict(n=4)], bound="every 0/1 matrix of n rows"),
    H(seq(maximize), [dict(calls=[dict(n=3)] * 2), dict(calls=[dict(n=4), dict(n=3)])], bound="any two graphs, one after the other in one process"),
    H(known, [dict(g=g, s=5, S=0) for g in ("lat6", "schl", "tri8", "paley37", "lat8")], bound="larger graphs in shuffled order", name="known_large"),
    H(seq(maximize, reuse=True), [dict(calls=[dict(n=3)] * 2), dict(calls=[dict(n=4)] * 2)], bound="the arrays of one call written over and passed in again"),
]
