"""C04: extending a partial matrix"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def check_step(h, M, P, arr, sound_only=False, start=None):
    """advance from the matrix arr (entries M) or the object holding it, compare with every legal next row x"""
    v, k, l, u = P
    R = len(M)
    SRG = h.target("srg", "SRG"); advance = h.target("solver", "advance")
    _, out = h.call(lambda: [s for s in advance(SRG(arr) if start is None else start)])
    mats = []
    for s in out:
        m = s.current_matrix
        h.prove("one more row", shape(m) == (R + 1, v))
        mats.append(rows(m))
    h.observe("rows", [m[R] for m in mats])
    h.keep(*(s.current_matrix for s in out))
    for m in mats:
        h.prove("old rows kept", same(m[:R], M))
        h.prove("row is legal", spec.legal_row(M, R, m[R], v, k, l, u))
    h.prove("matrix passed in is not modified", same(rows(arr), M))
    if sound_only: return out
    if all(type(e) is int for m in mats for e in m[R]):
        h.prove("no row twice", len(set(tuple(m[R]) for m in mats)) == len(mats))
    else:
        for i in range(len(mats)):
            for j in range(i):
                h.prove("no row twice", Not(same(mats[i][R], mats[j][R])))
    n = v - R - 1
    x = rows(h.bits("x", n)) if n else []
    cand = [M[j][R] for j in range(R)] + [0] + x
    h.prove("no legal row missing", Imp(spec.legal_row(M, R, cand, v, k, l, u), Or(same(m[R], cand) for m in mats)))
    return out


def symbolic(h, P, R, dt="int64"):
    """every valid canonical partial matrix of R rows"""
    v, k, l, u = P
    M = spec.sym_matrix(h, "M", v, R, spec.seed(*P))
    h.assume(spec.valid_partial(M, *P))
    arr = h.go(spec.as_array(h, M, dt))
    check_step(h, M, tuple(P), arr)


def known(h, g, R, S, pick=0):
    """R rows of a known graph, the last S of them replaced by anything legal"""
    G = spec.graph(g, pick)
    P = spec.params(G)
    v = P[0]
    M = spec.sym_matrix(h, "M", v, R, [[int(x) for x in r] for r in G[:R - S]])
    h.assume(spec.valid_partial(M, *P))
    arr = h.go(spec.as_array(h, M))
    check_step(h, M, P, arr)


def chain(h, g, R, n, pick=0):
    """n steps in a row from R rows of a known graph, each from every result of the one before"""
    G = spec.graph(g, pick)
    P = spec.params(G)
    M = [[int(x) for x in r] for r in G[:R]]
    todo = check_step(h, M, P, h.go(spec.as_array(h, M)))
    for i in range(1, n):
        new = []
        for j, s in enumerate(todo):
            arr = s.current_matrix
            M = rows(arr)
            h.prefix = f"{i}.{j}."
            if len(M) < P[0]: new += check_step(h, M, P, arr, start=s)
        todo = new
    h.prefix = ""


def walk(h, Ps, n, width, check=None):
    """the search trees of several parameter sets walked level by level in turn, n steps each, the results of at most width
    matrices per level"""
    SRG = h.target("srg", "SRG")
    trees = []
    for P in Ps:
        s = SRG(h.go(spec.as_array(h, spec.seed(*P))))
        trees.append([tuple(P), [s], n])
    while any(todo and left for P, todo, left in trees):
        for t in trees:
            P, todo, left = t
            new = []
            for s in todo[:width]:
                if not t[2]: break
                arr = s.current_matrix
                M = rows(arr)
                if len(M) == P[0]: continue
                h.prefix = f"{P}{n - t[2]}."
                t[2] -= 1
                new += (check or check_step)(h, M, P, arr, start=s)
            # some from everywhere
            t[1] = new[::max(1, len(new) // width)] if new else []
    h.prefix = ""


def sym_cfg(vs, skip=()):
    return [dict(P=list(P), R=R) for v in vs for P in spec.feasible(v) for R in range(2, v) if P not in skip]


def known_cfg(names, S, step=1, lo=2, picks=(0,)):
    out = []
    for g in names:
        v = len(spec.GRAPHS[g]())
        out += [dict(g=g, R=R, S=S, pick=p) for p in picks for R in range(max(lo, S + 2), v, step)]
    return out


BIG = [dict(g="lat8", R=R, S=0) for R in (12, 40)] + [dict(g="lat10", R=R, S=0) for R in (30, 75)]

WALKS = [dict(Ps=[[int(x) for x in P.split()] for P in Ps.split(",")], n=n, width=12) for Ps, n in (
    ("16 9 4 6,16 6 2 2,16 5 0 2", 25), ("17 8 3 4,15 6 1 3,15 8 4 4", 25), ("21 10 4 5", 50), ("21 10 5 4", 50), ("25 8 3 2", 50), ("25 12 5 6", 34), ("26 10 3 4", 60), ("27 10 1 5", 70),
    ("28 12 6 4", 60), ("29 14 6 7", 20),
    ("36 10 4 2", 40), ("35 16 6 8", 12), ("45 12 3 3", 30), ("64 14 6 2", 12), ("50 7 0 1", 30), ("100 22 0 6", 8), ("77 16 0 4", 10), ("56 10 0 2", 30), ("81 20 1 6", 8), ("100 18 8 2", 5),
    ("200 198 196 198,100 49 48 0", 4), ("19 12 8 6,19 10 5 5,23 12 6 6", 15), ("27 13 6 6", 12), ("28 18 12 10", 8), ("22 15 10 10,22 12 8 4,21 12 7 6", 15))]

HARNESSES = [
    H(symbolic, sym_cfg(range(4, 12)) + [dict(P=[13, 6, 2, 3], R=R) for R in range(2, 13)] + [dict(P=[10, 6, 3, 4], R=R, dt=dt) for R in (2, 5) for dt in ("int8", "uint8", "bool")],
      sym_cfg((12, 13), {(13, 6, 2, 3)}) + [dict(P=P, R=R) for P in ([15, 6, 1, 3], [16, 5, 0, 2], [16, 6, 2, 2]) for R in range(2, P[0])],
      bound="every canonical partial matrix of R rows: all feasible (v,k,l,u) with v <= 11 and (13,6,2,3), also as arrays of other types; thorough: v <= 13, (15,6,1,3), (16,5,0,2), (16,6,2,2)",
      may_be_empty=True),
    H(known, known_cfg(["lat4", "gq22", "clebsch", "paley17"], 1, 3) + known_cfg(["lat5", "tri7", "lat6"], 0, 7) + BIG,
      known_cfg(["lat4", "gq22", "clebsch", "clebschc", "paley17", "shrik", "tri6"], 2, 1) + known_cfg(["lat5", "tri7", "tri7c", "schlc", "tri8"], 1, 2),
      bound="rows of known graphs (v up to 100), the last S of them any legal rows; every legal next row"),
    H(chain, [dict(g="k150", R=294, n=3), dict(g="lat4", R=8, n=4), dict(g="gq22", R=9, n=3), dict(g="lat10", R=96, n=4)], [dict(g="k150", R=R, n=2) for R in (150, 200, 298)] + [dict(g="lat4", R=5, n=9)],
      bound="several steps in a row from known graphs (v up to 300)"),
    H(walk, WALKS, [dict(Ps=w["Ps"], n=4 * w["n"], width=3 * w["width"]) for w in WALKS], explicit=True, path_s=200, con_s=200,
      bound="many steps in one process from the seed on, 25 sets of parameters with v = 15 to 100, at most 12 matrices per level (thorough: 36)"),
    H(seq(symbolic), [dict(calls=[dict(P=a, R=R), dict(P=b, R=R)]) for a, b in ([[10, 3, 0, 1], [10, 6, 3, 4]], [[10, 6, 3, 4], [10, 3, 0, 1]], [[9, 4, 1, 2], [9, 6, 3, 6]], [[9, 6, 3, 6], [9, 4, 1, 2]], [[10, 6, 3, 4], [10, 6, 2, 6]], [[10, 6, 2, 6], [10, 6, 3, 4]]) for R in (2, 3, 4)] + [dict(calls=[dict(P=[9, 4, 1, 2], R=R), dict(P=[9, 4, 1, 2], R=S)]) for R, S in ((3, 3), (4, 3), (3, 4))],
      may_be_empty=True, bound="steps from any two canonical partial matrices, one after the other in one process, v = 9, 10"),
    H(seq(symbolic, reuse=True), [dict(calls=[dict(P=[8, 4, 0, 4], R=3)] * 2 + [dict(P=[8, 4, 0, 4], R=4)]), dict(calls=[dict(P=[9, 4, 1, 2], R=3), dict(P=[9, 6, 3, 6], R=3)]), dict(calls=[dict(P=[10, 3, 0, 1], R=4)] * 2)], bound="the arrays of one call written over and passed in again"),
]
