"""C13: sorting matrices"""
import itertools
from ..ctx import *
from ..run import H, seq
from .. import spec
from .c12 import upper, sym_graph


def wrap(kind, xs):
    return {"list": list, "tuple": tuple, "iter": iter, "gen": lambda l: (x for x in l)}[kind](xs)


def check(h, Ms, kind, orders, dt="int64"):
    f = h.target("sorter", "sort")
    arrs = [h.go(spec.as_array(h, M, dt)) for M in Ms]
    given = list(arrs)
    arg = arrs if kind == "list" else wrap(kind, arrs)
    _, out = h.call(f, arg)
    h.prove("a list", type(out) is list, len(out) == len(Ms))
    got = [nums(rows(x)) for x in out]
    h.observe("sorted", got)
    h.prove("ascending", And(lex_le(upper(a), upper(b)) for a, b in zip(got, got[1:])))
    h.prove("same matrices, equally often", And(r_eq(Sum(core.b2i(same(M, N)) for N in Ms), Sum(core.b2i(same(M, N)) for N in got)) for M in Ms))
    h.prove("matrices not modified", And(same(rows(a), M) for a, M in zip(given, Ms)))
    h.prove("list passed in not modified", len(arrs) == len(given), all(a is b for a, b in zip(arrs, given)))
    h.keep(*out)
    for p in orders:
        _, again = h.call(f, wrap(kind, [given[i] for i in p]))
        h.prove("order of the input does not matter", same([rows(x) for x in again], got))


def orders(L, m): return [p for p in itertools.permutations(range(L))][1:][-m:]


def sort(h, n, L, kind="list", m=2, dt="int64"):
    check(h, [sym_graph(h, f"M{i}", n) for i in range(L)], kind, orders(L, m), dt)


def long(h, n, L, at):
    """a list of L matrices, the one at the given place symbolic"""
    Ms = [[[0] * n for _ in range(n)] for _ in range(L)]
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for i in range(L):
        x = (i * 7919 + 13) % (2 ** len(pairs))
        for t, (a, b) in enumerate(pairs): Ms[i][a][b] = Ms[i][b][a] = (x >> t) & 1
    Ms[at] = sym_graph(h, "M", n)
    check(h, Ms, "gen", [tuple(reversed(range(L)))])


def large(h, n, L, cells, kind="gen"):
    """n x n matrices that may differ in the given cells only"""
    Ms = []
    for i in range(L):
        M = [[int((a * b + a + b) % 3 == 0 and a != b) for b in range(n)] for a in range(n)]
        for (a, b), e in zip(cells, rows(h.bits(f"e{i}", len(cells)))): M[a][b] = M[b][a] = e
        Ms.append(M)
    check(h, Ms, kind, orders(L, 1))


HARNESSES = [
    H(sort, [dict(n=3, L=2), dict(n=4, L=2, kind="gen"), dict(n=5, L=2, kind="iter"), dict(n=2, L=4, kind="tuple"), dict(n=3, L=3, kind="gen"), dict(n=4, L=1), dict(n=4, L=0)] + [dict(n=3, L=2, dt=dt) for dt in ("int8", "uint8", "bool")] + [dict(n=4, L=3), dict(n=7, L=2), dict(n=3, L=4, kind="gen")],
      [dict(n=3, L=5), dict(n=10, L=2), dict(n=5, L=3)], bound="lists, tuples and iterators of L symbolic graphs on n vertices, also as arrays of other types"),
    H(large, [dict(n=13, L=2, cells=[[0, 1], [2, 3], [11, 12]]), dict(n=20, L=3, cells=[[0, 19], [18, 19]]), dict(n=30, L=2, cells=[[0, 1], [0, 29], [5, 9], [20, 21], [28, 29]]), dict(n=30, L=3, cells=[[0, 1], [12, 20], [28, 29]]), dict(n=50, L=2, cells=[[i, 49] for i in range(0, 49, 6)])],
      [dict(n=100, L=2, cells=[[i, 99] for i in range(0, 99, 9)]), dict(n=40, L=4, cells=[[0, 1], [38, 39]])], bound="n x n graphs that differ in the given cells only"),
    H(seq(sort), [dict(calls=[dict(n=3, L=2)] * 2), dict(calls=[dict(n=3, L=2), dict(n=4, L=1)])], bound="any two lists, one after the other in one process"),
    H(long, [dict(n=3, L=20, at=0), dict(n=3, L=33, at=17), dict(n=2, L=70, at=69)], bound="lists of L matrices, one of them symbolic"),
    H(seq(sort, reuse=True), [dict(calls=[dict(n=3, L=2)] * 2)], bound="the arrays of one call written over and passed in again"),
]
