"""C07: the simplification steps and branching"""
from ..ctx import *
from ..run import H, seq
from .. import spec
from .c06 import contiguous, graphs

STEPS = ("reduce_col", "eliminate", "zero_in_b", "only_1_element_in_row")


class State:
    """what a question says, read off once"""
    def __init__(self, h, q):
        a = q.answer
        if not hasattr(a, "_v") or not hasattr(a, "_loc"): h.skip("Answer._v, Answer._loc")
        self.A, self.b, self.quota, self.bounds = rows(q.A), rows(q.b), raw(q.quota), rows(q.bounds)
        self.C = shape(q.A)[1]
        self.v, self.loc, self.len = rows(a._v), rows(a._loc), len(a)
        self.loc = [h.split(x) for x in self.loc]
        self.unknown = [i for i, x in enumerate(self.v) if not isinstance(x, SymE) and x == -1]
        h.prove("fixed values are counts", And(r_le(0, x) for i, x in enumerate(self.v) if i not in self.unknown))
        h.prove("one column per unknown", self.C == len(self.unknown) == len(self.bounds), len(self.A) == len(self.b), all(len(r) == self.C for r in self.A), len(self.v) == len(self.loc))

    def all(self): return [self.A, self.b, self.quota, self.bounds, self.v, self.loc, self.len]

    def sat(self, X):
        """X: a count per bucket"""
        x = [X[i] for i in self.unknown]
        return And([r_eq(X[i], t) for i, t in enumerate(self.v) if i not in self.unknown], [r_eq(dot(a, x), t) for a, t in zip(self.A, self.b)], r_eq(Sum(x), self.quota),
                   [And(r_le(0, y), r_le(y, t)) for y, t in zip(x, self.bounds)])


def apply(h, name, q, S, n, top):
    """one step on q (state S); n: running number. The new state, or None after NoSolution"""
    f = h.target("solver", name)
    ok, _ = h.call(f, q, allow=("NoSolution",))
    h.observe(f"{n} {name}", ok)
    X = rows(h.ints(f"X{n}", len(S.v), 0, top))
    if not ok:
        h.prove(f"{name}: no solution reported only if there is none", Not(S.sat(X)))
        return None
    T = State(h, q)
    h.observe("state", T.all())
    if T.loc == S.loc:
        h.prove(f"{name}: same solutions", T.len == S.len, Iff(S.sat(X), T.sat(X)))
        return T
    # buckets merged
    h.prove(f"{name}: buckets merged", T.len == S.len, set(T.loc) <= set(S.loc), 0 in T.loc)
    part = [[i for i, p in enumerate(S.loc) if p >= a and p < b] for a, b in zip(T.loc, T.loc[1:] + [T.len])]
    h.prove(f"{name}: merged buckets are all unknown", all(len(p) == 1 or set(p) <= set(S.unknown) for p in part))
    h.prove(f"{name}: solutions survive merging", Imp(S.sat(X), T.sat([Sum(X[i] for i in p) for p in part])))
    Y = rows(h.ints(f"Y{n}", len(T.v), 0, top * max(len(p) for p in part)))
    Z = [None] * len(S.v)
    for p, y in zip(part, Y):
        for i in p[:-1]:
            t = core.r_min(y, S.bounds[S.unknown.index(i)])
            Z[i], y = t, core.r_sub(y, t)
        Z[p[-1]] = y
    h.prove(f"{name}: merging adds none", Imp(T.sat(Y), S.sat(Z)))
    return T


def fork(h, q, S, n, top):
    f = h.target("solver", "fork_enum")
    ok, qs = h.call(lambda: list(f(q)), allow=("NoSolution",))
    if not ok: qs = []
    Ts = [State(h, x) for x in qs]
    h.observe(f"{n} fork", [t.all() for t in Ts])
    X = rows(h.ints(f"X{n}", len(S.v), 0, top))
    h.prove("fork: one unknown less", all(len(t.unknown) == len(S.unknown) - 1 and t.loc == S.loc and t.len == S.len for t in Ts))
    h.prove("fork: solutions of the branches are solutions", And(Imp(t.sat(X), S.sat(X)) for t in Ts))
    h.prove("fork: each solution in a branch", Imp(S.sat(X), Or(t.sat(X) for t in Ts)))
    h.prove("fork: in one branch only", And(Not(And(a.sat(X), b.sat(X))) for i, a in enumerate(Ts) for b in Ts[:i]))
    return qs, Ts


def apart(h, q, qs):
    """writing into one question shows in no other"""
    allq = [q] + list(qs)
    for i, x in enumerate(allq):
        before = [[rows(t) for t in (y.A, y.b, y.bounds, y.answer._v, y.answer._loc)] for y in allq]
        for t in (x.A, x.b, x.bounds, x.answer._v, x.answer._loc):
            if 0 not in shape(t): t[...] = 77
        for j, y in enumerate(allq):
            if j != i: h.prove("fork: branches share nothing", same([rows(t) for t in (y.A, y.b, y.bounds, y.answer._v, y.answer._loc)], before[j]))


def question(h, A0, b0, bounds, v, loc, ln):
    Question, Answer = h.target("srg", "Question", "Answer")
    A = h.go(spec.as_array(h, A0)); b, bd, v = (h.go(spec.as_array(h, [t]))[0] for t in (b0, bounds, v))
    ans = Answer(value=v, location=h.go(h.const(loc, "int64")), len=ln)
    return Question(A, b, quota=b[len(b0) - 1], bounds=bd, ans=ans)


def buckets(h, loc, ln, fixed):
    sizes = [b - a for a, b in zip(loc, loc[1:] + [ln])]
    free = [i for i in range(len(loc)) if i not in fixed]
    v = [-1] * len(loc)
    for i in fixed: v[i] = raw(h.int(f"fixed{i}", 0, sizes[i]))
    bounds = [raw(h.int(f"bound{i}", 0, sizes[i])) for i in free]
    return free, sizes, v, bounds


def step(h, name, R, B, loc, ln, fixed=()):
    """any question whose rows are R symbolic ones and the all-ones row"""
    free, sizes, v, bounds = buckets(h, loc, ln, fixed)
    C = len(free)
    A0 = rows(h.bits("A", (R, C))) + [[1] * C]
    b0 = rows(h.ints("b", R, 0, B)) + [raw(h.int("t", 0, B))]
    if name == "reduce_col":
        h.assume(contiguous(A0, C))
        for c in range(C - 1):      # nothing fixed between equal columns
            if free[c + 1] != free[c] + 1: h.assume(Not(And(r_eq(r[c], r[c + 1]) for r in A0)))
    q = question(h, A0, b0, bounds, v, loc, ln)
    S = State(h, q)
    if name == "fork_enum":
        qs, _ = fork(h, q, S, 0, ln + 1)
        apart(h, q, qs)
    else:
        apply(h, name, q, S, 0, ln + 1)
        h.keep(q.A, q.b, q.bounds, q.answer._v, q.answer._loc)


def wide(h, name, C, known, free, R=3):
    """many unknowns: R rows of ones over neighbouring stretches, the last of which ends before the last column, and the all-ones row; the entries in free, the right-hand sides (0 or 1 off) and
    the bounds at these columns symbolic; the first known buckets are fixed to 1, 0, 1, ..."""
    n = C + known
    A0 = [[int(r * C // (R + 1) <= c < (r + 1) * C // (R + 1)) for c in range(C)] for r in range(R)] + [[1] * C]
    for (r, c), e in zip(free, rows(h.bits("A", len(free)))): A0[r][c] = e
    b0 = rows(h.ints("b", R, 0, 1)) + [raw(h.int("t", 2, 3))]
    bounds = [1] * C
    for i, c in enumerate(sorted({c for r, c in free})): bounds[c] = raw(h.int(f"bound{c}", 0, 1))
    h.assume(contiguous(A0, C))
    q = question(h, A0, b0, bounds, [(i + 1) % 2 for i in range(known)] + [-1] * C, list(range(n)), n)
    S = State(h, q)
    if name == "fork_enum":
        qs, _ = fork(h, q, S, 0, 2)
        apart(h, q, qs)
    else: apply(h, name, q, S, 0, 2)


def tall(h, R, gap, free):
    """many rows: column c has a single one, in row c, but the last columns have theirs in row c + gap; the entries in free symbolic"""
    rows_of = list(range(0, R, max(1, R // 12)))
    rows_of += [r + gap for r in rows_of if r + gap < R and r + gap not in rows_of]
    C = len(rows_of)
    A0 = [[int(r == rows_of[c]) for c in range(C)] for r in range(R)] + [[1] * C]
    for (r, c), e in zip(free, rows(h.bits("A", len(free)))): A0[r][c] = e
    b0 = [0] * R + [raw(h.int("t", 0, C))]
    for r, e in zip(rows_of, rows(h.ints("b", C, 0, 1))): b0[r] = e
    h.assume(contiguous(A0, C))
    q = question(h, A0, b0, [1] * C, [-1] * C, list(range(C)), C)
    S = State(h, q)
    apply(h, "reduce_col", q, S, 0, 2)


def chain(h, g, R, slack, rounds=9, branches=2, pick=0):
    """all steps in turn, from a row system of a known graph with any right-hand side, into the branches"""
    G = spec.graph(g, pick)
    n = len(G) - R - 1
    A0 = [[int(x) for x in r[R + 1:]] for r in G[:R]] + [[1] * n]
    real = [sum(a * int(y) for a, y in zip(row, G[R][R + 1:])) for row in A0]
    b0 = [Sum([t, e]) for t, e in zip(real, rows(h.ints("e", R + 1, -slack, slack, "int64")))]
    h.assume(And(r_le(0, t) for t in b0), And(r_le(t, sum(a)) for a, t in zip(A0, b0)))
    q = question(h, A0, b0, [1] * n, [-1] * n, list(range(n)), n)
    todo = [(q, State(h, q), branches)]
    num = 0
    while todo:
        q, S, br = todo.pop()
        for _ in range(rounds):
            q0 = q.copy()
            for name in STEPS:
                num += 1
                S = apply(h, name, q, S, num, n + 1)
                if S is None: break
            if S is None or q == q0: break
        if S is None or not S.unknown or not br: continue
        num += 1
        qs, Ts = fork(h, q, S, num, n + 1)
        todo += [(x, t, br - 1) for x, t in zip(qs, Ts)]


def st(name, R, B, **kw): return dict(name=name, R=R, B=B, **kw)
ALL = STEPS + ("fork_enum",)

HARNESSES = [
    H(step, [st(n, 2, 2, loc=[0, 1, 2], ln=3) for n in ALL] + [st(n, 1, 4, loc=[0, 1, 3, 4], ln=6, fixed=[1]) for n in ALL] + [st(n, 1, 300, loc=[0, 90, 200], ln=290) for n in STEPS]
        + [st(n, 2, 5, loc=[0, 2, 3, 5], ln=7, fixed=[3]) for n in ("reduce_col", "only_1_element_in_row", "fork_enum")] + [st("fork_enum", 2, 12, loc=[0, 3, 7, 9], ln=15)],
      [st(n, 3, 2, loc=[0, 1, 2], ln=3) for n in ALL] + [st(n, 2, 4, loc=[0, 1, 3, 4], ln=6, fixed=[1]) for n in ALL] + [st(n, 1, 4, loc=[0, 1, 3, 4], ln=6) for n in ALL]
        + [st("eliminate", 2, 40, loc=[0, 10, 20], ln=40), st("reduce_col", 3, 2, loc=[0, 1, 2, 3], ln=4), st("only_1_element_in_row", 3, 2, loc=[0, 1, 2, 3], ln=4), st("fork_enum", 2, 30, loc=[0, 13, 20], ln=30)],
      bound="questions of R symbolic 0/1 rows and the all-ones row over given buckets (starts loc, length ln), some counts already fixed; symbolic right-hand sides 0..B and bounds"),
    H(chain, graphs(["petersen"], (2, 4, 6), 1) + graphs(["lat4"], (4, 9), 1) + graphs(["paley13"], (2, 8), 1) + graphs(["gq22"], (6, 12), 1) + graphs(["lat6", "tri7"], (2, 6, 12), 0), graphs(["paley13", "gq22", "lat4", "clebsch"], range(2, 13), 1) + graphs(["lat6", "tri8", "schlc"], range(2, 24, 3), 0),
      bound="every step and branch from row systems of known graphs, right-hand sides within slack of the real ones"),
    H(seq(step), [dict(calls=[st(n, 1, 2, loc=[0, 1], ln=3)] * 2) for n in ALL] + [dict(calls=[st(n, 1, 1, loc=[0, 1, 2], ln=3), st(n, 2, 1, loc=[0, 1], ln=2)]) for n in ("reduce_col", "only_1_element_in_row", "fork_enum")], [dict(calls=[st(n, 1, 1, loc=[0, 1, 2], ln=3), st(n, 2, 1, loc=[0, 1], ln=2)]) for n in ("eliminate", "zero_in_b")], bound="the same step on any two questions, one after the other in one process"),
    H(wide, [dict(name=n, C=C, known=k, free=[[0, 0], [2, C - 1], [1, C // 2]]) for n in ALL for C, k in ((20, 2), (70, 1), (140, 3)) if n != "reduce_col"]
        + [dict(name="reduce_col", C=C, known=k, free=[[0, 0], [2, C - 1], [1, C // 2]]) for C, k in ((20, 2), (70, 1))], bound="every step on questions with up to 140 unknowns, a few entries symbolic"),
    H(tall, [dict(R=R, gap=g, free=[[0, 1], [R - 1, 0]]) for R, g in ((40, 31), (70, 52), (70, 53), (70, 60), (70, 61), (70, 62), (70, 63), (70, 64), (140, 64), (140, 127), (140, 61), (140, 122))], bound="merging columns of up to 140 rows"),
    H(seq(step, reuse=True), [dict(calls=[st(n, 1, 1, loc=[0, 1], ln=2)] * 2) for n in ALL], bound="the arrays of one call written over and passed in again"),
]
