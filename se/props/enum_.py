"""Shared by C01, C02 and C03: runs of the enumeration"""
from ..ctx import *
from .. import spec

SMALL = [P for v in range(4, 14) for P in spec.feasible(v)]
MEDIUM = [(15, 6, 1, 3), (15, 8, 4, 4), (16, 5, 0, 2), (16, 6, 2, 2), (16, 9, 4, 6), (16, 10, 6, 6), (17, 8, 3, 4), (25, 8, 3, 2)]
LARGE = [(21, 10, 5, 4), (27, 10, 1, 5)]
HUGE = [(21, 10, 4, 5)]

# (v,k,l,u) -> R: number of rows from which the search is followed to its end with symbolic rows
PARTIAL = [dict(P=list(P), R=R) for v in range(4, 11) for P in spec.feasible(v) for R in range(3, v)]


def seed_run(h, P):
    """the enumeration as a user starts it -> (start object, its matrix, list of yielded matrices)"""
    SRG = h.target("srg", "SRG")
    solve, _seed = h.target("solver", "solve", "_seed")
    ok, s = h.call(lambda: SRG(_seed(*P)))
    arr = s.current_matrix
    M = rows(arr)
    _, out = h.call(lambda: list(solve(s)))
    return s, arr, M, out


def partial_run(h, P, R):
    """the enumeration from any valid canonical partial matrix of R rows"""
    SRG = h.target("srg", "SRG")
    solve = h.target("solver", "solve")
    M = spec.sym_matrix(h, "M", P[0], R, spec.seed(*P))
    h.assume(spec.valid_partial(M, *P))
    arr = h.go(spec.as_array(h, M))
    s = SRG(arr)
    _, out = h.call(lambda: list(solve(s)))
    return s, arr, M, out


def check_sound(h, P, M, out):
    v = P[0]
    mats = []
    for m in out:
        h.prove("v x v", shape(m) == (v, v))
        mats.append(rows(m))
    h.observe("yielded", mats)
    for m in mats:
        h.prove("starts with the given rows", same(m[:len(M)], M))
        h.prove("0/1, symmetric, zero diagonal", And(r_le(0, m[i][j]) for i in range(v) for j in range(v)), And(r_le(m[i][j], 1) for i in range(v) for j in range(v)),
                And(same(m[i][j], m[j][i]) for i in range(v) for j in range(i)), And(r_eq(m[i][i], 0) for i in range(v)))
        h.prove("strongly regular and canonical", spec.valid_partial(m, *P))
    return mats


def check_complete(h, P, M, out):
    """any matrix X that continues M and is legal is among the yielded ones"""
    X = spec.sym_matrix(h, "X", P[0], P[0], M)
    R = len(M)
    mats = [rows(m) for m in out]
    h.observe("yielded", mats)
    legal = And(spec.legal_row(X[:i], i, X[i], *P) for i in range(R, P[0]))
    h.prove("no canonical matrix is missing", Imp(legal, Or(same(m, X) for m in mats)))


def check_distinct(h, mats):
    for i in range(len(mats)):
        for j in range(i):
            h.prove("no matrix twice", Not(same(mats[i], mats[j])))


def history_cfgs(top):
    """every order-reversed pair of runs: all feasible parameters with the same v, up and down"""
    out = []
    for v in range(5, top + 1):
        Ps = [list(P) for P in spec.feasible(v)]
        if len(Ps) > 1: out += [dict(Ps=Ps), dict(Ps=Ps[::-1])]
    return out


# k l of the feasible parameters whose enumeration takes more than a second
SLOW = {15: "10 7",
        16: "9 6, 10 6, 10 7",
        17: "10 6, 12 8, 12 9",
        19: "9 3, 9 4, 9 5, 9 6, 10 5, 12 7, 12 8, 12 9, 14 11",
        21: "10 4, 10 5, 10 6, 10 7, 12 5, 12 7, 12 9, 14 10, 15 10, 15 11, 15 12, 16 12, 16 13",
        22: "7 0, 9 0, 9 4, 12 5, 12 8, 14 8, 14 9, 14 10, 14 11, 15 10, 15 12",
        23: "8 0, 10 3, 11 4, 11 5, 11 6, 11 7, 11 8, 12 6, 14 9, 16 12, 18 15",
        25: "8 1, 9 3, 12 4, 12 5, 12 6, 12 7, 12 8, 12 9, 14 8, 15 8, 15 11, 16 9, 16 10, 16 11, 16 12, 16 13, 18 12, 18 13, 18 14, 18 15, 20 16, 20 17",
        26: "10 0, 10 3, 10 6, 15 8, 15 10, 15 12, 20 15, 20 16, 20 17",
        27: "10 1, 12 4, 13 5, 13 6, 13 7, 13 8, 13 9, 13 10, 14 7, 16 10, 18 13, 20 16, 22 19",
        28: "9 0, 9 2, 12 6, 15 6, 15 10, 18 10, 18 11, 18 12, 18 13, 18 14, 18 15, 21 16, 21 18",
        29: "7 0, 8 2, 10 0, 12 3, 12 7, 14 5, 14 6, 14 7, 14 8, 14 9, 14 10, 14 11, 16 9, 16 12, 18 12, 20 13, 20 15, 20 17, 21 15, 21 16, 21 17, 21 18, 22 18, 24 20, 24 21"}
SLOW = {v: [tuple(map(int, x.split())) for x in t.split(",")] for v, t in SLOW.items()}


def sweep_cfgs(vs, chunk=100):
    """the quick feasible parameters of each v, chunk at a time"""
    out = []
    for v in vs:
        Ps = [list(P) for P in spec.feasible(v) if P[1:3] not in SLOW.get(v, ())]
        out += [dict(Ps=Ps[i:i + chunk]) for i in range(0, len(Ps), chunk)]
    return out[::-1]


def history(h, Ps, check):
    """enumerations for several parameter sets one after the other in one process"""
    for i, P in enumerate(Ps):
        h.prefix = f"{i}."
        P = tuple(P)
        s, arr, M, out = seed_run(h, P)
        check(P, M, out)
    h.prefix = ""


# -- the search with its step function replaced by an arbitrary tree ---------------------------
class Tree:
    """Search trees of symmetric 0/1 matrices with zero diagonal: rows of a known graph in which some
    entries right of the diagonal say which extension of its predecessor a row is. bits[i] entries do at
    depth i; the rows that remain to fill the matrix have one extension each."""
    def __init__(self, h, levels, bits):
        n = max(levels, max((i + 1 + b for i, b in enumerate(bits)), default=0))
        self.depth = n
        g = next(g for g in ("paley13", "paley29", "lat10") if len(spec.GRAPHS[g]()) > n + 2)
        self.G = np.array(spec.graph(g)).astype(int)
        self.v = len(self.G)
        self.R0 = self.v - n
        self.bits = list(bits) + [0] * (n - len(bits))
        self.h = h

    def matrix(self, path):
        M = self.G.copy()
        for i, c in enumerate(path):
            r = self.R0 + i
            for j in range(self.bits[i]): M[r, r + 1 + j] = M[r + 1 + j, r] = c >> j & 1
        return M[:self.R0 + len(path)]

    def path(self, m):
        M = m.tolist() if isinstance(m, np.ndarray) else rows(m)
        out = []
        for i in range(len(M) - self.R0):
            r = self.R0 + i
            out.append(sum(int(M[r][r + 1 + j]) << j for j in range(self.bits[i])))
        return tuple(out)

    def run(self, count):
        """what solve yields when a node has count(path) extensions, and the leaves of the tree"""
        h = self.h
        solver = h.target("solver", "advance", "solve") and h.target("solver")
        SRG = h.target("srg", "SRG")
        calls = []
        mk_ = lambda p: SRG(h.const(self.matrix(p), "int64"))

        def stub(s):
            p = self.path(s.current_matrix)
            calls.append(p)
            if len(p) >= self.depth: raise RuntimeError("a finished matrix is extended")
            return [mk_(p + (c,)) for c in range(count(p))]

        old = solver.advance
        solver.advance = stub
        try:
            _, out = h.call(lambda: [self.path(m) for m in solver.solve(mk_(()))])
        finally: solver.advance = old
        if not calls: h.skip("the step function is not used")
        leaves = [()]
        for _ in range(self.depth): leaves = [p + (c,) for p in leaves for c in range(count(p))]
        h.observe("yielded", [list(p) for p in out])
        return out, leaves


def tree(h, depth, width):
    """every search tree that branches in depth levels: each node there has 0..width extensions"""
    t = Tree(h, depth, [width.bit_length() if width > 1 else 1] * depth)
    kids = {}

    def count(path):
        if len(path) >= depth: return 1
        if path not in kids: kids[path] = h.split(h.int("n" + "".join(map(str, path)), 0, width))
        return kids[path]
    return t.run(count)


def big_tree(h, widths, dead):
    """a tree with widths[i] extensions of every node at depth i; each of the nodes in dead (counted within their depth) may have none"""
    t = Tree(h, len(widths), [(w - 1).bit_length() for w in widths])
    widths = widths + [1] * (t.depth - len(widths))
    off = {(d, n): h.split(h.int(f"dead{i}", 0, 1)) for i, (d, n) in enumerate(dead)}

    def number(p):
        n = 0
        for w, c in zip(widths, p): n = n * w + c
        return n
    return t.run(lambda p: 0 if off.get((len(p), number(p))) else widths[len(p)])


BIG_TREES = [dict(widths=[40, 40], dead=[[1, 7], [2, 1599]]), dict(widths=[1500], dead=[[1, 0], [1, 1499]]), dict(widths=[1] * 80, dead=[[79, 0]]), dict(widths=[2] * 8, dead=[[7, 127], [8, 255]])]
