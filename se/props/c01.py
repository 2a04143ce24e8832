"""C01: every yielded matrix is a strongly regular graph"""
from ..ctx import *
from ..run import H
from .. import spec
from . import enum_, c04


def whole(h, P):
    """the enumeration from the seed"""
    P = tuple(P)
    s, arr, M, out = enum_.seed_run(h, P)
    h.prove("seed rows", same(M, spec.seed(*P)))
    enum_.check_sound(h, P, M, out)


def partial(h, P, R):
    """from any valid partial matrix to the end"""
    P = tuple(P)
    s, arr, M, out = enum_.partial_run(h, P, R)
    enum_.check_sound(h, P, M, out)


def step(h, P, R):
    """one step from any valid partial matrix adds a legal row: with the seed legal, every matrix reached is"""
    v = P[0]
    M = spec.sym_matrix(h, "M", v, R, spec.seed(*P))
    h.assume(spec.valid_partial(M, *P))
    c04.check_step(h, M, tuple(P), h.go(spec.as_array(h, M)), sound_only=True)


def base(h, P):
    """the seed itself is legal"""
    _seed = h.target("solver", "_seed")
    _, s = h.call(_seed, *P)
    h.prove("seed rows", same(rows(s), spec.seed(*P)), spec.valid_partial(rows(s), *P))


def known(h, g, R, S, pick=0):
    G = spec.graph(g, pick)
    P = spec.params(G)
    M = spec.sym_matrix(h, "M", P[0], R, [[int(x) for x in r] for r in G[:R - S]])
    h.assume(spec.valid_partial(M, *P))
    c04.check_step(h, M, P, h.go(spec.as_array(h, M)), sound_only=True)


def walk(h, Ps, n, width):
    """many steps in one process"""
    c04.walk(h, Ps, n, width, lambda *a, **k: c04.check_step(*a, sound_only=True, **k))


def search(h, depth, width):
    """solve yields only finished matrices the step function produced"""
    out, leaves = enum_.tree(h, depth, width)
    h.prove("only results of steps are yielded", all(p in leaves for p in out))


def search_big(h, widths, dead):
    """the same over large trees"""
    out, leaves = enum_.big_tree(h, widths, dead)
    h.prove("only results of steps are yielded", set(out) <= set(leaves))


def P_(Ps): return [dict(P=list(P)) for P in Ps]


def history(h, Ps):
    """several parameter sets one after the other in one process"""
    enum_.history(h, Ps, lambda P, M, out: enum_.check_sound(h, P, M, out))


WALKS = c04.WALKS

HARNESSES = [
    H(whole, P_(enum_.LARGE + enum_.MEDIUM), explicit=True, hang_ok=True, path_s=200, con_s=200, bound="real runs from the seed: the listed parameter sets, v <= 27"),
    H(partial, [dict(P=list(P), R=2) for P in enum_.SMALL] + enum_.PARTIAL, [dict(P=[13, 6, 2, 3], R=R) for R in range(3, 13)], hang_ok=True, path_s=60, may_be_empty=True,
      bound="the search followed to its end from every canonical partial matrix of R rows; R = 2 (the seed) for v <= 13, R >= 3 for v <= 10"),
    H(base, P_(P for v in range(4, 31) for P in spec.feasible(v)), bound="all feasible (v,k,l,u) with v <= 30"),
    H(step, [dict(P=list(P), R=R) for v in range(11, 13) for P in spec.feasible(v) for R in range(2, v)], c04.sym_cfg((13,)) + [dict(P=P, R=R) for P in ([15, 6, 1, 3], [16, 5, 0, 2], [16, 6, 2, 2]) for R in range(2, P[0])],
      hang_ok=True, may_be_empty=True, bound="one step from every canonical partial matrix of R rows, v = 11, 12 (thorough: 13, 15, 16)"),
    H(known, c04.known_cfg(["lat4", "gq22", "clebsch", "paley17"], 1, 4) + c04.known_cfg(["lat5", "tri7", "lat6"], 0, 9), c04.known_cfg(["lat4", "gq22", "clebschc", "paley17", "shrik"], 2, 1) + c04.known_cfg(["lat5", "schlc", "tri8"], 1, 2) + c04.BIG, hang_ok=True, bound="one step from rows of known graphs, the last S of them any legal rows"),
    H(walk, WALKS, explicit=True, hang_ok=True, path_s=200, con_s=200, bound="many steps in one process from the seed on, 25 sets of parameters with v = 15 to 100, at most 12 matrices per level"),
    H(search, [dict(depth=3, width=2), dict(depth=2, width=3)], [dict(depth=3, width=3)], hang_ok=True, bound="the search loop over every tree of the given depth and width, the step function replaced"),
    H(history, enum_.sweep_cfgs(range(11, 31)), name="sweep", explicit=True, path_s=200, con_s=200, hang_ok=True, bound="real runs for the feasible parameters of one v = 11 to 30 that take less than a second, one after the other in one process"),
    H(history, enum_.history_cfgs(10) + [dict(Ps=[[16, 9, 4, 6], [16, 6, 2, 2], [16, 5, 0, 2], [16, 9, 2, 9], [16, 9, 4, 6]])], enum_.history_cfgs(13)[len(enum_.history_cfgs(10)):], explicit=True, path_s=150, con_s=150, hang_ok=True, bound="real runs for all feasible parameters of one v <= 10 (thorough: 13), up and down, and five of v = 16, one after the other in one process"),
    H(search_big, enum_.BIG_TREES, explicit=True, path_s=200, con_s=200, hang_ok=True, bound="the search loop over large trees (to 1600 nodes in a row, 80 levels), some nodes dead ends or not"),
]
