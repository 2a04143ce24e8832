"""C19: the catalogue"""
import os
from ..ctx import *
from ..run import H, REPO
from .. import spec

# entries the authors left unfinished: the first solution only, or none computed
UNFINISHED = {(25, 12, 5, 6), (26, 10, 3, 4), (29, 14, 6, 7)}
FINISHED = [(4, 2, 0, 2), (5, 2, 0, 1), (10, 3, 0, 1), (10, 6, 3, 4), (12, 6, 0, 6), (13, 6, 2, 3), (15, 6, 1, 3), (15, 8, 4, 4), (16, 5, 0, 2), (16, 6, 2, 2),
            (16, 9, 4, 6), (16, 10, 6, 6), (17, 8, 3, 4), (21, 10, 4, 5), (21, 10, 5, 4), (25, 8, 3, 2), (27, 10, 1, 5), (28, 12, 6, 4)]


def files():
    d = os.path.join(REPO, "srg", "database")
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith("problem_") and f.endswith(".py"))


def listed(h):
    """listing gives every entry, under the name of its parameters"""
    lp, ex, get = h.target("database", "list_problems", "extract_vklu", "get_solutions")
    _, names = h.call(lambda: list(lp()))
    h.observe("names", sorted(names))
    h.prove("lists exactly the entries", sorted(names) == files())
    for n in names:
        _, P = h.call(lambda: [int(x) for x in ex(n)])
        h.prove("named after its parameters", n == "problem_" + "_".join(map(str, P)), len(P) == 4)
        v, k, l, u = P
        h.prove("feasible parameters", (v - k - 1) * u == k * (k - l - 1), 0 < k < v - 1)
        _, sols = h.call(lambda: list(get(*P)))
        h.prove("matrices of this size", all(shape(m) == (v, v) for m in sols))
        try: mod = h.pkg.load("srg.database." + n)
        except ModuleNotFoundError: continue
        if all(hasattr(mod, x) for x in "vklu"): h.prove("named after its parameters", [mod.v, mod.k, mod.l, mod.u] == P)


def name(h, which):
    """reading the parameters from a name, each of the four any number"""
    ex = h.target("database", "extract_vklu")
    P = [137, 28, 5, 104]
    P[which] = h.split(h.int("n", 0, 120))
    _, got = h.call(lambda: [int(x) for x in ex("problem_{}_{}_{}_{}".format(*P))])
    h.prove("parameters read from the name", got == P)


def lookup(h, v):
    """looking parameters up: found exactly if there is such an entry, and then with these parameters"""
    get = h.target("database", "get_solutions")
    k, l, u = (h.int(n, 0, v) for n in "klu")
    K, L, U = raw(k), raw(l), raw(u)
    h.assume(r_lt(0, K), r_lt(K, v - 1), r_lt(L, K), r_le(U, K), r_eq(r_mul(r_sub(v - 1, K), U), r_mul(K, r_sub(r_sub(K, L), 1))))
    P = (v, h.split(k), h.split(l), h.split(u))
    ok, sols = h.call(lambda: list(get(*P)), allow=("ImportError", "KeyError", "LookupError", "FileNotFoundError"))
    n = "problem_{}_{}_{}_{}".format(*P)
    h.prove("found exactly if it is in the catalogue", ok is True and n in files() or ok is False and n not in files())
    if ok:
        for m in sols: h.prove("a matrix with these parameters", shape(m) == (v, v), int(m[0].sum()) == P[1])


def entry(h, P):
    """soundness: X any of the stored matrices; completeness: X any canonical matrix"""
    v = P[0]
    get = h.target("database", "get_solutions")
    _, sols = h.call(lambda: list(get(*P)))
    mats = [rows(m) for m in sols]
    h.observe("stored", [[int("".join(map(str, r)), 2) for r in m] for m in mats])
    for m in mats: h.prove("0/1", all(x in (0, 1) for r in m for x in r))
    X = [list(r) for r in rows(h.bits("X", (v, v)))]
    stored = Or(same(X, m) for m in mats)
    h.prove("every stored matrix is strongly regular with these parameters, symmetric, canonical",
            Imp(stored, And(same(X[:2], spec.seed(*P)), spec.valid_partial(X, *P), [r_eq(X[i][j], X[j][i]) for i in range(v) for j in range(i)])))
    up = lambda m: [m[i][j] for i in range(v) for j in range(i + 1, v)]
    h.prove("pairwise different", len({tuple(up(m)) for m in mats}) == len(mats))
    # the one entry with v = 28 came out of a run that took a day, unsorted
    if v < 28: h.prove("ascending", all(up(a) < up(b) for a, b in zip(mats, mats[1:])))


def complete(h, P):
    v = P[0]
    get = h.target("database", "get_solutions")
    _, sols = h.call(lambda: list(get(*P)))
    X = spec.sym_matrix(h, "X", v, v, spec.seed(*P))
    h.prove("no canonical matrix is missing", Imp(spec.valid_partial(X, *P), Or(same(rows(m), X) for m in sols)))


def present():
    out = []
    for n in files():
        try: P = [int(x) for x in n.split("_")[1:]]
        except ValueError: continue
        if len(P) == 4: out.append(dict(P=P))
    return out


HARNESSES = [
    H(complete, sorted([dict(P=list(P)) for P in FINISHED], key=lambda c: -c["P"][0] - 10 * (c["P"] == [21, 10, 4, 5])), explicit=True, timeout_ms=1500000, path_s=1600,
      bound="every canonical v x v matrix, all finished entries (all but (25,12,5,6), (26,10,3,4), (29,14,6,7))"),
    H(listed, [{}], explicit=True, bound="all entries"),
    H(lookup, [dict(v=v) for v in range(4, 33)], explicit=True, bound="all feasible parameters with v <= 32"),
    H(name, [dict(which=i) for i in range(4)], explicit=True, bound="names with each of the four numbers anything up to 120"),
    H(entry, present(), explicit=True, bound="all entries, any stored matrix"),
]
