"""C06: solving a row system"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def group_canonical(A, x):
    """ones first within each group of equal columns (the groups are contiguous)"""
    C = len(x)
    return And(Imp(And(r_eq(r[c], r[c + 1]) for r in A), r_le(x[c + 1], x[c])) for c in range(C - 1))


def contiguous(A, C):
    """equal columns stand side by side"""
    eq = lambda c, d: And(r_eq(r[c], r[d]) for r in A)
    return And(Imp(eq(c, d), eq(d - 1, d)) for c in range(C) for d in range(c + 2, C))


def solves(A, b, x): return And(r_eq(dot(a, x), t) for a, t in zip(A, b))


def check(h, A, b, quota, q):
    C = len(A[0])
    f = h.target("solver", "solve_question")
    _, out = h.call(lambda: [a for a in f(q)])
    ys = [rows(a) for a in out]
    h.keep(*out)
    h.observe("solutions", ys)
    good = lambda x: And(solves(A, b, x), r_eq(Sum(x), quota), group_canonical(A, x))
    for y in ys:
        h.prove("a 0/1 vector of the right length", len(y) == C, And(Or(r_eq(e, 0), r_eq(e, 1)) for e in y))
        h.prove("solves the system, ones first", good(y))
    for i in range(len(ys)):
        for j in range(i): h.prove("no solution twice", Not(same(ys[i], ys[j])))
    x = rows(h.bits("x", C))
    h.prove("no solution missing", Imp(good(x), Or(same(y, x) for y in ys)))


def small(h, R, C, B):
    """any R rows and the all-ones row"""
    A = h.bits("A", (R, C))
    b = h.ints("b", R, 0, B, "int64")
    t = h.int("t", 0, C + 1)
    A0 = rows(A) + [[1] * C]
    b0 = rows(b) + [raw(t)]
    h.assume(contiguous(A0, C))
    run(h, A0, b0)


def run(h, A0, b0):
    Question = h.target("srg", "Question")
    C = len(A0[0])
    A = h.go(spec.as_array(h, A0)); b = h.go(spec.as_array(h, [b0]))[0]
    ones = h.go(h.const([1] * C, "int64"))
    q = Question(A, b, b[len(b0) - 1], ones)
    check(h, A0, b0, b0[-1], q)


def from_graph(h, g, R, pick=0, slack=None):
    """the columns of R rows of a known graph, any right-hand side (within slack of the real one)"""
    G = spec.graph(g, pick)
    v, k, l, u = spec.params(G)
    A0 = [[int(x) for x in r[R + 1:]] for r in G[:R]] + [[1] * (v - R - 1)]
    real = [sum(a * int(y) for a, y in zip(row, G[R][R + 1:])) for row in A0]
    if slack is None: b0 = rows(h.ints("b", R + 1, 0, v - R - 1, "int64"))
    else: b0 = [Sum([t, e]) for t, e in zip(real, rows(h.ints("e", R + 1, -slack, slack, "int64")))]
    h.assume(And(r_le(0, t) for t in b0), And(r_le(t, sum(a)) for a, t in zip(A0, b0)))
    # the row itself in canonical order is not part of the system
    run(h, A0, b0)


def interleave(h, g, R, n, slack):
    """two systems solved at the same time, their first n solutions asked for in any order, the rest of one after the rest of the other"""
    f = h.target("solver", "solve_question")
    Question = h.target("srg", "Question")
    G = spec.graph(g)
    v = len(G)
    A0 = [[int(x) for x in r[R + 1:]] for r in G[:R]] + [[1] * (v - R - 1)]
    gens, got, bs, As = [], [[], []], [], []
    for i in range(2):
        b0 = [sum(a * int(y) for a, y in zip(row, G[R][R + 1:])) for row in A0]
        if slack: b0 = [Sum([t, e]) for t, e in zip(b0, rows(h.ints(f"e{i}", R + 1, -slack, slack, "int64")))]
        h.assume(And(r_le(0, t) for t in b0), And(r_le(t, sum(a)) for a, t in zip(A0, b0)))
        A = h.go(spec.as_array(h, A0)); b = h.go(spec.as_array(h, [b0]))[0]
        q = Question(A, b, b[len(b0) - 1], h.go(h.const([1] * (v - R - 1), "int64")))
        gens.append(iter(f(q))); bs.append(b0)
    for i in range(n):
        s = h.split(h.int(f"turn{i}", 0, 1))
        _, a = h.call(lambda: next(gens[s], None))
        if a is not None: got[s].append((a, rows(a)))
    for s in (0, 1):
        _, rest = h.call(lambda: list(gens[s]))
        got[s] += [(a, rows(a)) for a in rest]
    h.observe("solutions", [[y for _, y in g] for g in got])
    x = rows(h.bits("x", v - R - 1))
    for s in (0, 1):
        good = lambda x: And(solves(A0, bs[s], x), group_canonical(A0, x))
        ys = [y for _, y in got[s]]
        h.prove("earlier solutions are not modified", same([rows(a) for a, _ in got[s]], ys))
        for y in ys: h.prove("solves the system, ones first", good(y))
        for i in range(len(ys)):
            for j in range(i): h.prove("no solution twice", Not(same(ys[i], ys[j])))
        h.prove("no solution missing", Imp(good(x), Or(same(y, x) for y in ys)))


def graphs(names, Rs, slack): return [dict(g=g, R=R, slack=slack) for g in names for R in Rs if R < len(spec.GRAPHS[g]()) - 1]


HARNESSES = [
    H(small, [dict(R=1, C=4, B=5), dict(R=2, C=3, B=3), dict(R=2, C=4, B=2)], [dict(R=3, C=3, B=2), dict(R=2, C=5, B=2), dict(R=2, C=4, B=5)],
      bound="R symbolic 0/1 rows over C columns and the all-ones row, right-hand sides 0..B, total 0..C+1"),
    H(from_graph, graphs(["petersen"], (2, 4, 6, 8), 1) + graphs(["lat3"], (2, 3, 4, 5, 6), None) + graphs(["paley13"], (2, 6, 8), 1) + graphs(["gq22"], (6, 9, 12), 1) + graphs(["lat4"], (4, 7, 12), 1)
      + graphs(["lat6"], (5, 12, 20, 28), 0) + graphs(["tri7", "tri8"], (6, 12, 17), 0) + graphs(["k66"], (3, 7), 0) + graphs(["lat10"], (40, 75), 0) + graphs(["schlc"], (7, 9), 0) + graphs(["paley29"], (3,), 0) + graphs(["tri8"], (5,), 0),
      graphs(["petersen"], (2, 4, 5, 6, 7, 8), None) + graphs(["paley13"], (4,), 1) + graphs(["clebsch", "lat4"], range(2, 14), 1), bound="rows of known graphs, right-hand sides within slack of the real ones (None: any)"),
    H(seq(small), [dict(calls=[dict(R=1, C=3, B=1)] * 2), dict(calls=[dict(R=1, C=2, B=2), dict(R=1, C=3, B=1)])], bound="any two systems, one after the other in one process"),
    H(seq(from_graph), [dict(calls=[dict(g="petersen", R=R, slack=1), dict(g="petersen", R=R, slack=0)]) for R in (2, 4, 6)] + [dict(calls=[dict(g="lat3", R=R, slack=1), dict(g="lat3", R=R, slack=1)]) for R in (2, 4)], bound="two systems of known graphs, one after the other in one process"),
    H(interleave, [dict(g="petersen", R=2, n=4, slack=0), dict(g="lat3", R=2, n=3, slack=1), dict(g="lat4", R=2, n=4, slack=0), dict(g="tri6", R=2, n=5, slack=0), dict(g="lat4c", R=4, n=6, slack=0), dict(g="paley13", R=4, n=4, slack=0)], [dict(g="gq22", R=3, n=5, slack=0)], bound="two systems solved at the same time, solutions asked for in any order"),
    H(seq(small, reuse=True), [dict(calls=[dict(R=1, C=3, B=1)] * 2)], bound="the arrays of one call written over and passed in again"),
]
