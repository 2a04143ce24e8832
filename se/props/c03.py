"""C03: the enumeration ends, never repeats a matrix and leaves its input alone"""
from ..ctx import *
from ..run import H
from .. import spec
from . import enum_, c01


def again(h, s, arr, M, out):
    """the start object and what was yielded are as they were; a second run gives the same"""
    solve = h.target("solver", "solve")
    first = [rows(m) for m in out]
    h.prove("starting matrix is not modified", same(rows(arr), M), same(rows(s.current_matrix), M))
    enum_.check_distinct(h, first)
    _, out2 = h.call(lambda: list(solve(s)))
    h.observe("yielded", first)
    h.prove("the second run yields the same in the same order", same([rows(m) for m in out2], first))
    h.prove("what was yielded is not modified", same([rows(m) for m in out], first))
    h.prove("starting matrix is not modified", same(rows(arr), M), same(rows(s.current_matrix), M))


def whole(h, P):
    s, arr, M, out = enum_.seed_run(h, tuple(P))
    again(h, s, arr, M, out)


def partial(h, P, R):
    s, arr, M, out = enum_.partial_run(h, tuple(P), R)
    again(h, s, arr, M, out)


def schedule(h, P, n):
    """two generators from one start object, consumed in any interleaving; each yielded matrix is
    compared when it comes and at the end"""
    SRG = h.target("srg", "SRG")
    solve, _seed = h.target("solver", "solve", "_seed")
    _, s = h.call(lambda: SRG(_seed(*P)))
    M = rows(s.current_matrix)
    _, ref = h.call(lambda: [rows(m) for m in solve(SRG(_seed(*P)))])
    g = [iter(solve(s)), iter(solve(s))]
    got = [[], []]
    for i in range(n):
        b = h.split(h.int(f"turn{i}", 0, 1))
        _, x = h.call(lambda: next(g[b], None))
        if x is not None: got[b].append((x, rows(x)))
    for b in (0, 1):
        _, rest = h.call(lambda: list(g[b]))
        got[b] += [(x, rows(x)) for x in rest]
    for b in (0, 1):
        h.prove("each generator yields the same matrices in the same order", same([r for _, r in got[b]], ref))
        h.prove("what was yielded is not modified", same([rows(x) for x, _ in got[b]], [r for _, r in got[b]]))
    h.prove("starting matrix is not modified", same(rows(s.current_matrix), M))
    h.observe("yielded", [[r for _, r in got[b]] for b in (0, 1)])


def abandon(h, P, n):
    """a run given up after any number of results, then a complete one"""
    SRG = h.target("srg", "SRG")
    solve, _seed = h.target("solver", "solve", "_seed")
    _, ref = h.call(lambda: [rows(m) for m in solve(SRG(_seed(*P)))])
    g = iter(solve(SRG(_seed(*P))))
    got = []
    for i in range(h.split(h.int("taken", 0, n))):
        _, x = h.call(lambda: next(g, None))
        if x is not None: got.append((x, rows(x)))
    h.call(lambda: g.close() if hasattr(g, "close") else None)
    _, out = h.call(lambda: [rows(m) for m in solve(SRG(_seed(*P)))])
    h.observe("yielded", out)
    h.prove("the same matrices in the same order", same(out, ref), same([r for _, r in got], ref[:len(got)]))
    h.prove("what was yielded is not modified", same([rows(x) for x, _ in got], [r for _, r in got]))


def step(h, P, R):
    """one step, twice, from any valid partial matrix"""
    SRG = h.target("srg", "SRG"); advance = h.target("solver", "advance")
    v = P[0]
    M = spec.sym_matrix(h, "M", v, R, spec.seed(*P))
    h.assume(spec.valid_partial(M, *P))
    arr = h.go(spec.as_array(h, M))
    s = SRG(arr)
    _, a = h.call(lambda: [x.current_matrix for x in advance(s)])
    first = [rows(m) for m in a]
    _, b = h.call(lambda: [x.current_matrix for x in advance(s)])
    h.observe("rows", [m[R:] for m in first])
    h.prove("the same step gives the same result", same([rows(m) for m in b], first))
    h.prove("earlier results are not modified", same([rows(m) for m in a], first))
    h.prove("starting matrix is not modified", same(rows(arr), M), same(rows(s.current_matrix), M))
    for i in range(len(first)):
        for j in range(i): h.prove("no row twice", Not(same(first[i][R], first[j][R])))


def search(h, depth, width):
    out, leaves = enum_.tree(h, depth, width)
    h.prove("nothing is yielded twice", len(set(out)) == len(out))


def search_big(h, widths, dead):
    """the same over large trees"""
    out, leaves = enum_.big_tree(h, widths, dead)
    h.prove("nothing is yielded twice", len(set(out)) == len(out))


def history(h, Ps):
    """several parameter sets one after the other, then the first again"""
    Ps = [tuple(P) for P in Ps]
    first = None
    for P in Ps + Ps[:1]:
        s, arr, M, out = enum_.seed_run(h, P)
        mats = [rows(m) for m in out]
        enum_.check_distinct(h, mats)
        h.prove("starting matrix is not modified", same(rows(arr), M))
        if first is None: first = out, mats
    h.observe("yielded", mats)
    h.prove("the same matrices as at first", same(mats, first[1]))
    h.prove("what was yielded is not modified", same([rows(m) for m in first[0]], first[1]))


P_ = c01.P_
HARNESSES = [
    H(whole, P_(enum_.LARGE[:1] + enum_.MEDIUM), P_(enum_.LARGE[1:]), explicit=True, path_s=200, con_s=200, bound="real runs from the seed, twice: the listed parameter sets, v <= 27"),
    H(partial, [dict(P=list(P), R=2) for P in enum_.SMALL] + enum_.PARTIAL, [dict(P=[13, 6, 2, 3], R=R) for R in range(3, 13)], path_s=60, may_be_empty=True,
      bound="the search followed to its end, twice, from every canonical partial matrix of R rows; R = 2 (the seed) for v <= 13, R >= 3 for v <= 10"),
    H(schedule, [dict(P=[9, 4, 1, 2], n=4), dict(P=[12, 8, 4, 8], n=3), dict(P=[16, 9, 4, 6], n=4)], [dict(P=[16, 9, 4, 6], n=8)], explicit=True, path_s=100,
      bound="two runs from one object, all interleavings of their first n results"),
    H(step, [dict(P=list(P), R=R) for v in range(11, 13) for P in spec.feasible(v) for R in range(2, v)], [dict(P=list(P), R=R) for P in ((13, 6, 2, 3), (15, 6, 1, 3), (16, 5, 0, 2), (16, 6, 2, 2)) for R in range(2, P[0])], may_be_empty=True,
      bound="one step, twice, from every canonical partial matrix of R rows, v = 11, 12 (thorough: 13, 15, 16)"),
    H(search, [dict(depth=3, width=2), dict(depth=2, width=3)], [dict(depth=3, width=3)], bound="the search loop over every tree of the given depth and width, the step function replaced"),
    H(history, enum_.sweep_cfgs(range(11, 31)), name="sweep", explicit=True, path_s=200, con_s=200, bound="real runs for the feasible parameters of one v = 11 to 30 that take less than a second, one after the other in one process"),
    H(history, enum_.history_cfgs(10) + [dict(Ps=[[16, 9, 4, 6], [16, 6, 2, 2], [16, 5, 0, 2], [16, 9, 2, 9], [16, 9, 4, 6]])], enum_.history_cfgs(13)[len(enum_.history_cfgs(10)):], explicit=True, path_s=150, con_s=150, bound="real runs for all feasible parameters of one v <= 10 (thorough: 13), up and down, and five of v = 16, one after the other in one process"),
    H(abandon, [dict(P=[9, 4, 1, 2], n=2), dict(P=[12, 8, 4, 8], n=2), dict(P=[16, 9, 4, 6], n=13)], [dict(P=[15, 8, 4, 4], n=3)], explicit=True, path_s=100, bound="a run given up after up to n results, then a complete one"),
    H(search_big, enum_.BIG_TREES, explicit=True, path_s=200, con_s=200, bound="the search loop over large trees (to 1600 nodes in a row, 80 levels), some nodes dead ends or not"),
]
