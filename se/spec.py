"""What the properties talk about: parameters, legal rows, canonical order, known graphs."""
import itertools, os, sys
import numpy as np
from . import core
from .core import b_and, b_or, b_not, r_eq, r_le, r_lt, r_ite, r_mul
from .ctx import And, Or, Not, Imp, Iff, Sum, same, rows, raw, z3


def feasible(v):
    """all parameter sets on v vertices that are neither complete nor empty, with (v-k-1)u = k(k-l-1)"""
    for k in range(1, v - 1):
        for l in range(0, k):
            n = k * (k - l - 1)
            if n % (v - k - 1) == 0 and n // (v - k - 1) <= k:
                yield v, k, l, n // (v - k - 1)


def seed(v, k, l, u):
    r0 = [0] + [1] * k + [0] * (v - k - 1)
    r1 = [1, 0] + [1] * l + [0] * (k - 1 - l) + [1] * (k - l - 1)
    r1 += [0] * (v - len(r1))
    return [r0, r1]


def mul01(a, b):
    """product of two 0/1 raws"""
    return core.b2i(b_and(r_eq(a, 1), r_eq(b, 1)))


def common(a, b):
    if all(type(x) is int for x in a) and all(type(x) is int for x in b): return sum(x == y == 1 for x, y in zip(a, b))
    return Sum(mul01(x, y) for x, y in zip(a, b))


def canonical_row(M, i, row):
    """row i puts its free ones first among columns that agree in rows 0..i-1"""
    v = len(row)
    out = []
    for j in range(i + 1, v - 1):
        agree = And(r_eq(M[t][j], M[t][j + 1]) for t in range(i))
        out.append(Imp(agree, r_le(row[j + 1], row[j])))
    return And(out)


def legal_row(M, i, row, v, k, l, u, canon=True):
    """row is a legal row i of a matrix whose rows 0..i-1 are M"""
    cs = [r_eq(row[i], 0), r_eq(Sum(row), k)]
    for j in range(i):
        cs.append(r_eq(row[j], M[j][i]))
        c = common(M[j], row)
        cs.append(r_eq(c, r_ite(r_eq(M[j][i], 1), l, u)))
    if canon: cs.append(canonical_row(M, i, row))
    return And(cs)


def valid_partial(M, v, k, l, u, canon=True):
    """M: nested list, R rows"""
    return And(legal_row(M[:i], i, M[i], v, k, l, u, canon) for i in range(len(M)))


def sym_matrix(h, name, v, R, fixed=()):
    """R x v array of symbolic bits with zero diagonal and symmetric where both entries exist; the rows in
    fixed are given"""
    F = len(fixed)
    n = sum(v - i - 1 for i in range(F, R))
    bits = rows(h.bits(name, n)) if n else None
    M = [list(r) for r in fixed]
    p = 0
    for i in range(F, R):
        row = [M[j][i] for j in range(i)] + [0]
        for j in range(i + 1, v):
            row.append(bits[p]); p += 1
        M.append(row)
    return M


def as_array(h, M, dt="int64"):
    """nested list of scalars -> the array type of this mode"""
    if h.sym:
        from . import snp
        o = np.empty((len(M), len(M[0])), dtype=object)
        for i, r in enumerate(M):
            for j, x in enumerate(r): o[i, j] = snp.conv(raw(x), np.dtype(dt))
        return snp.SA(o, np.dtype(dt))
    return np.array([[int(raw(x)) for x in r] for r in M], dtype=dt)


# -- known graphs ------------------------------------------------------------------------------
def paley(q):
    sq = {x * x % q for x in range(1, q)}
    return np.array([[1 if (i - j) % q in sq else 0 for j in range(q)] for i in range(q)])


def lattice(n):
    V = list(itertools.product(range(n), repeat=2))
    return np.array([[int(a != b and (a[0] == b[0] or a[1] == b[1])) for b in V] for a in V])


def triangular(n):
    V = list(itertools.combinations(range(n), 2))
    return np.array([[int(a != b and bool(set(a) & set(b))) for b in V] for a in V])


def clebsch():
    return np.array([[int(bin(a ^ b).count("1") in (1, 4)) for b in range(16)] for a in range(16)])


def shrikhande():
    D = {(0, 1), (0, 3), (1, 0), (3, 0), (1, 1), (3, 3)}
    V = list(itertools.product(range(4), repeat=2))
    return np.array([[int(((a[0] - b[0]) % 4, (a[1] - b[1]) % 4) in D) for b in V] for a in V])


def gq22():
    return comp(triangular(6))


def schlaefli_comp():
    """(27,10,1,5)"""
    V = [("a", i) for i in range(6)] + [("b", i) for i in range(6)] + [("c", p) for p in itertools.combinations(range(6), 2)]
    def adj(x, y):
        if x == y: return 0
        if x[0] == "c" and y[0] == "c": return int(not set(x[1]) & set(y[1]))
        if x[0] == "c": x, y = y, x
        if y[0] == "c": return int(x[1] in y[1])
        return int(x[0] != y[0] and x[1] != y[1])
    return np.array([[adj(x, y) for y in V] for x in V])


def comp(M): return 1 - M - np.identity(len(M), dtype=int)


def multipartite(parts, size):
    n = parts * size
    return np.array([[int(i // size != j // size) for j in range(n)] for i in range(n)])


GRAPHS = {
    "paley5": lambda: paley(5), "paley13": lambda: paley(13), "paley17": lambda: paley(17), "paley29": lambda: paley(29), "paley37": lambda: paley(37),
    "lat3": lambda: lattice(3), "lat4": lambda: lattice(4), "lat5": lambda: lattice(5), "lat6": lambda: lattice(6), "lat8": lambda: lattice(8), "lat10": lambda: lattice(10),
    "lat4c": lambda: comp(lattice(4)), "lat5c": lambda: comp(lattice(5)), "lat6c": lambda: comp(lattice(6)),
    "tri5": lambda: triangular(5), "petersen": lambda: comp(triangular(5)), "tri6": lambda: triangular(6), "tri7": lambda: triangular(7), "tri8": lambda: triangular(8),
    "tri7c": lambda: comp(triangular(7)), "tri8c": lambda: comp(triangular(8)),
    "gq22": gq22, "clebsch": clebsch, "clebschc": lambda: comp(clebsch()), "shrik": shrikhande, "shrikc": lambda: comp(shrikhande()), "schlc": schlaefli_comp, "schl": lambda: comp(schlaefli_comp()),
    "k333": lambda: multipartite(3, 3), "k66": lambda: multipartite(2, 6), "3k4": lambda: comp(multipartite(3, 4)), "k150": lambda: multipartite(2, 150), "cp150": lambda: multipartite(150, 2),
}


def params(M):
    v = len(M); k = int(M[0].sum())
    a = int(np.nonzero(M[0])[0][0])
    l = int(M[0] @ M[a])
    u = k * (k - l - 1) // (v - k - 1)
    return v, k, l, u


def canon(M, first=0, pick=0):
    """relabel M canonically, starting at vertex first; pick chooses among equivalent vertices"""
    v = len(M)
    cells = [[first], [x for x in range(v) if x != first]]
    seq = []
    n = pick
    while cells:
        c = cells[0]
        x = c.pop(n % len(c)); n = n * 3 + pick
        if not c: cells.pop(0)
        seq.append(x)
        new = []
        for c in cells:
            a, b = [y for y in c if M[x][y]], [y for y in c if not M[x][y]]
            if a: new.append(a)
            if b: new.append(b)
        cells = new
    return np.array(M)[np.ix_(seq, seq)]


_g = {}


def graph(name, pick=0):
    if (name, pick) not in _g: _g[name, pick] = canon(GRAPHS[name](), 0, pick)
    return _g[name, pick]


# -- relabelling -------------------------------------------------------------------------------
def find_iso(A, B, fix0=True):
    """p with B[i][j] = A[p[i]][p[j]] (p[0] = 0), or None"""
    n = len(A)
    p = [None] * n
    used = [False] * n
    sig = lambda M, i: (sum(M[i]),)
    def rec(i):
        if i == n: return True
        for x in ([0] if i == 0 and fix0 else range(n)):
            if used[x] or sig(A, x) != sig(B, i) or A[x][x] != B[i][i]: continue
            if all(B[i][j] == A[x][p[j]] and B[j][i] == A[p[j]][x] for j in range(i)):
                p[i] = x; used[x] = True
                if rec(i + 1): return True
                used[x] = False; p[i] = None
        return False
    return p if rec(0) else None


def prove_relabelled(h, label, A, B, fix0=True):
    """B is A with its vertices renamed: on every input there is such a renaming (counterexample-guided)"""
    if len(A) != len(B) or any(len(r) != len(A) for r in B):
        h.prove(label, False); return
    n = len(A)
    if not h.sym:
        h.prove(label, find_iso(A, B, fix0) is not None); return
    from .ctx import ev, Candidate
    found = []
    eqs = lambda p: And(r_eq(B[i][j], A[p[i]][p[j]]) for i in range(n) for j in range(n))
    while True:
        c = core.b_norm(Or(found))
        if type(c) is not core.BoolE:
            if c: return h.prove(label, True)
            m = h.eng.getmodel()
        else:
            m = h.eng.refute(c.e)
            if m is None: return h.prove(label, True)
        val = lambda M: [[int(ev(x, m)) for x in r] for r in M]
        p = find_iso(val(A), val(B), fix0)
        if p is None: raise Candidate(label, m)
        found.append(eqs(p))
