"""C15: parameter arithmetic"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def lin(*ts):
    """sum of products: lin((1, a), (-2, b, c))"""
    out = []
    for t in ts:
        p = t[0]
        for x in t[1:]: p = r_mul(p, x)
        out.append(p)
    return Sum(out)


def equation(v, k, l, u): return r_eq(r_mul(r_sub(r_sub(v, k), 1), u), r_mul(k, r_sub(r_sub(k, l), 1)))


def test(h, V, lo=0):
    f = h.target("utils", "assert_srg")
    P = [h.int(t, lo, V) for t in "vklu"]
    p = [raw(t) for t in P]
    ok, _ = h.call(f, *h.go(*P), allow=("AssertionError",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if (v-k-1)u = k(k-l-1)", Iff(ok, equation(*p)))


def conference(h, V):
    f = h.target("utils", "conference")
    P = [h.int(t, 0, V) for t in "vklu"]
    v, k, l, u = [raw(t) for t in P]
    _, c = h.call(f, *h.go(*P))
    h.observe("conference", c)
    h.prove("2k+(v-1)(l-u)", r_eq(raw(c), lin((2, k), (1, lin((1, v), (-1, 1)), lin((1, l), (-1, u))))))


def number(x):
    """numerator and denominator of an int, integral float or exact fraction"""
    if isinstance(x, SFrac): return x.n, x.d
    if isinstance(x, (float,)) and not isinstance(x, np.floating) or isinstance(x, np.floating):
        n, d = float(x).as_integer_ratio()
        return n, d
    return raw(x), 1


def check_eig(h, P, p, d):
    """d: the integer with d*d = (l-u)^2 + 4(k-u)"""
    f = h.target("utils", "eig")
    v, k, l, u = p
    _, res = h.call(f, *h.go(*P))
    res = [list(t) for t in res]
    h.observe("spectrum", res)
    h.prove("three eigenvalues", len(res) == 3)
    (e0, m0), (e1, m1), (e2, m2) = [[number(t) for t in r] for r in res]
    h.prove("multiplicities are whole numbers, not negative", And(And(r_eq(m[1], 1), r_le(0, m[0])) for m in (m0, m1, m2)))
    h.prove("k once", r_eq(e0[0], r_mul(k, e0[1])), r_eq(m0[0], 1))
    h.prove("larger root first", r_lt(r_mul(e2[0], e1[1]), r_mul(e1[0], e2[1])))
    for n, q in (e1, e2):       # (n/q)^2 - (l-u) n/q - (k-u) = 0
        h.prove("root of the quadratic", r_eq(lin((1, n, n), (-1, lin((1, l), (-1, u)), n, q), (-1, lin((1, k), (-1, u)), q, q)), 0))
    h.prove("multiplicities add up to v", r_eq(Sum([m0[0], m1[0], m2[0]]), v))
    h.prove("trace zero", r_eq(lin((1, e0[0], e1[1], e2[1], m0[0]), (1, e1[0], e0[1], e2[1], m1[0]), (1, e2[0], e0[1], e1[1], m2[0])), 0))
    return e1, m1, e2, m2


def spectrum(h, V, lo=4):
    """all feasible parameters with integral spectrum: d = sqrt((l-u)^2+4(k-u)), whole multiplicities"""
    P = [h.int("v", lo, V), h.int("k", 1, V), h.int("l", 0, V), h.int("u", 0, V)]
    v, k, l, u = p = [raw(t) for t in P]
    d = raw(h.int("d", 1, 2 * V)); g = raw(h.int("g", 0, V))
    h.assume(r_le(k, r_sub(v, 2)), r_lt(l, k), r_le(u, k), equation(*p))
    lu = lin((1, l), (-1, u))
    h.assume(r_eq(r_mul(d, d), lin((1, lu, lu), (4, k), (-4, u))))
    h.assume(r_eq(r_mul(d, r_sub(r_sub(v, 1), r_mul(2, g))), lin((2, k), (1, r_sub(v, 1), lu))))      # g = ((v-1) - conference/d)/2
    check_eig(h, P, p, d)


def family(h, name, lo, hi):
    """known infinite families, the parameter n symbolic"""
    N = h.int("n", lo, hi)
    f = h.target("utils", "eig")
    m = raw(N)
    if name == "lattice": q = lambda n: (n * n, 2 * (n - 1), n - 2, 2)
    elif name == "triangular": q = lambda n: (n * (n - 1) // 2, 2 * (n - 2), n - 2, 4)
    elif name == "bipartite": q = lambda n: (2 * n, n, 0, n)
    elif name == "cliques": q = lambda n: (3 * n, n - 1, n - 2, 0)
    elif name == "lattice complement": q = lambda n: (n * n, (n - 1) * (n - 1), (n - 2) * (n - 2), (n - 1) * (n - 2))
    P = q(h.go(N))
    p = [raw(t) for t in P]
    _, res = h.call(f, *P)
    if name == "lattice": want = [(p[1], 1), (r_sub(m, 2), p[1]), (-2, lin((1, m, m), (-2, m), (1, 1)))]
    elif name == "triangular": want = [(p[1], 1), (r_sub(m, 4), r_sub(m, 1)), (-2, lin((1, p[0]), (-1, m)))]
    elif name == "bipartite": want = [(m, 1), (0, lin((2, m), (-2, 1))), (r_neg(m), 1)]
    elif name == "cliques": want = [(p[1], 1), (p[1], 2), (-1, lin((3, m), (-3, 1)))]
    else: want = [(p[1], 1), (1, lin((1, m, m), (-2, m), (1, 1))), (lin((1, 1), (-1, m)), lin((2, m), (-2, 1)))]
    res = [list(t) for t in res]
    h.observe("spectrum", res)
    h.prove("spectrum of the family", len(res) == 3, And(And(r_eq(number(e)[0], r_mul(a, number(e)[1])), r_eq(number(c)[0], r_mul(b, number(c)[1]))) for (e, c), (a, b) in zip(res, want)))


def determinant(h, V, lo=4, big=False):
    """all feasible parameters that are conference parameters or have an integral spectrum"""
    f = h.target("utils", "determinant")
    P = [h.int("v", lo, V), h.int("k", 1, V), h.int("l", 0, V), h.int("u", 0, V)]
    v, k, l, u = p = [raw(t) for t in P]
    h.assume(r_le(k, r_sub(v, 2)), r_lt(l, k), r_le(u, k), equation(*p))
    lu = lin((1, l), (-1, u))
    conf = r_eq(lin((2, k), (1, r_sub(v, 1), lu)), 0)
    d = raw(h.int("d", 1, 2 * V)); g = raw(h.int("g", 0, V))
    integral = And(r_eq(r_mul(d, d), lin((1, lu, lu), (4, k), (-4, u))), r_eq(r_mul(d, r_sub(r_sub(v, 1), r_mul(2, g))), lin((2, k), (1, r_sub(v, 1), lu))))
    h.assume(Or(integral, And(conf, r_eq(d, 1), r_eq(g, 0))))
    v, k, l, u = [h.split(x) for x in p]
    d, g = h.split(d), h.split(g)
    _, out = h.call(f, v, k, l, u)
    h.observe("determinant", str(out))
    if 2 * k + (v - 1) * (l - u) == 0: want = k * (u - k) ** ((v - 1) // 2)
    else: want = k * ((l - u + d) // 2) ** g * ((l - u - d) // 2) ** (v - 1 - g)
    h.prove("product of the eigenvalues", bool(out == want) and int(out) == want)


FAM = ("lattice", "triangular", "bipartite", "cliques", "lattice complement")

HARNESSES = [
    H(test, [dict(V=40), dict(V=10, lo=-10), dict(V=200000), dict(V=2 ** 34)], [dict(V=100)], bound="all v, k, l, u in lo..V"),
    H(conference, [dict(V=1000)], [dict(V=100000)], bound="all v, k, l, u in 0..V"),
    H(spectrum, [dict(V=20)], [dict(V=40)], bound="all feasible parameters with integral spectrum, v <= V"),
    H(family, [dict(name=n, lo=4, hi=12) for n in FAM] + [dict(name=n, lo=200, hi=201) for n in FAM], [dict(name=n, lo=4, hi=60) for n in FAM] + [dict(name=n, lo=3000, hi=3003) for n in FAM],
      bound="known families with parameter n in lo..hi"),
    H(determinant, [dict(V=50), dict(lo=51, V=100)], [dict(lo=101, V=150)], bound="all feasible parameters with v <= V that are conference parameters or have an integral spectrum"),
    H(seq(determinant), [dict(calls=[dict(V=13)] * 2)], bound="any two parameter sets, one after the other in one process"),
]
