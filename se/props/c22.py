"""C22: the self-check of a question is exact, tracing a step changes nothing"""
import contextlib, io
from ..ctx import *
from ..run import H
from .. import spec

FIELDS = ("_b", "_bounds", "_quota", "_ans")


def build(h, R, C, nb, nc, known, lo, hi):
    """a question of any content: sizes and signs need not fit. known: one entry per bucket, whether its count is known"""
    Question, Answer = h.target("srg", "Question", "Answer")
    A = h.bits("A", (R, C)) if R * C else h.const(np.zeros((R, C)), "int64")
    b, bd = h.ints("b", nb, lo, hi), h.ints("bounds", nc, lo, hi)
    n = len(known)
    v = h.ints("v", n, 0, 3)
    loc = h.const([2 * i for i in range(n)], "int64")
    v0 = rows(v)
    A_, b_, d_, v_, loc_ = h.go(A, b, bd, v, loc)
    for i, kn in enumerate(known):
        if not kn: v_[i] = -1
    q = Question(h.go(h.const(np.zeros((1, 1)), "int64")), h.go(h.const([0], "int64")), 0, h.go(h.const([0], "int64")))
    if not all(hasattr(q, f) for f in FIELDS): h.skip("fields of a question have other names")
    q.A, q._b, q._bounds, q._quota, q._ans = A_, b_, d_, 0, Answer(value=v_, location=loc_, len=2 * n)
    vals = [t if kn else -1 for t, kn in zip(v0, known)]
    good = And([r_le(0, x) for x in rows(b) + rows(bd)], nb == R, nc == C, sum(not k for k in known) == C,
               [r_le(x, 2) for x in vals], [r_eq(x, 0) for x in rows(b)] if C == 0 else True)
    return q, good


def content(q): return [rows(q.A), rows(q._b), rows(q._bounds), rows(q._ans._v), rows(q._ans._loc), len(q._ans)]


def selfcheck(h, R, C, nb, nc, known, lo=-1, hi=2):
    q, good = build(h, R, C, nb, nc, known, lo, hi)
    if not hasattr(q, "_invariant_check"): h.skip("no self-check")
    before = content(q)
    ok, _ = h.call(q._invariant_check, allow=("AssertionError",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if sizes agree, nothing is negative, counts fit their buckets and nothing is left over", Iff(ok, good))
    h.prove("not modified", same(content(q), before))


def traced(h, R, C, known, change, fail):
    """debug(step): the step runs once on the same question; same result, same error, same effect"""
    debug = h.target("utils", "debug"); NoSolution = h.target("srg", "NoSolution")
    q, good = build(h, R, C, R, C, known, -1 if change else 0, 2)
    if not change: h.assume(good)
    new = h.go(h.ints("new", R, -1, 2)) if change else None
    calls, token = [], object()

    def step(x):
        calls.append(x)
        if change: x._b = new
        if fail: raise NoSolution("none")
        return token
    h.assume([r_le(0, x) for x in rows(q._b) + rows(q._bounds)])        # what can be copied
    want = content(q)
    if change: want[1] = rows(new)
    f = debug(step)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if fail: ok, out = h.call(f, q, allow=("NoSolution",))
        else: ok, out = h.call(f, q, allow=("AssertionError",))
    h.observe("ended well", ok)
    h.prove("runs once on this question", len(calls) == 1, all(x is q for x in calls))
    h.prove("same effect", same(content(q), want))
    if fail: h.prove("same error", not ok)
    else:
        bad = Or(Not(And(r_le(0, x) for x in want[1])), [r_lt(2, x) for x in want[3]], Not(And(r_eq(x, 0) for x in want[1])) if C == 0 else False)
        h.prove("fails exactly if the self-check fails", Iff(ok, Not(bad)))
        if ok: h.prove("same result", out is token)


def both(h, name, R, C):
    """a real step with and without tracing"""
    debug = h.target("utils", "debug"); f = h.target("solver", name)
    Question, Answer = h.target("srg", "Question", "Answer")
    A, b, bd, t = h.bits("A", (R, C)), h.ints("b", R, 0, 2), h.ints("bounds", C, 1, 2), h.int("quota", 0, 3)
    h.assume([r_eq(x, 1) for x in rows(A)[R - 1]], r_eq(rows(b)[R - 1], raw(t)))
    loc = [0]
    for x in rows(bd)[:-1]: loc.append(loc[-1] + h.split(x))
    loc_ = h.const(loc, "int64")
    ln = loc[-1] + h.split(rows(bd)[-1])
    out = []
    for g in (f, debug(f)):
        A_, b_, d_, t_, l_ = h.go(A.copy(), b.copy(), bd.copy(), h.split(t), loc_.copy())
        q = Question(A_, b_, t_, d_, Answer(value=h.go(h.const([-1] * C, "int64")), location=l_, len=ln))
        with contextlib.redirect_stdout(io.StringIO()):
            ok, r = h.call(g, q, allow=("NoSolution", "AssertionError"))
        out.append((ok, content(q) + [raw(q.quota)], r is None))
    h.observe("result", out[1][:2])
    h.prove("same error, effect and result", out[0][0] == out[1][0], same(out[0][1], out[1][1]), out[0][2] == out[1][2])


K2 = [False, True]
SIZES = [dict(R=2, C=1, nb=2, nc=1, known=K2), dict(R=2, C=2, nb=2, nc=2, known=[False, False]), dict(R=2, C=1, nb=1, nc=1, known=K2), dict(R=2, C=1, nb=2, nc=2, known=K2),
         dict(R=1, C=2, nb=1, nc=2, known=[False, True, True]), dict(R=2, C=0, nb=2, nc=0, known=[True, True]), dict(R=1, C=1, nb=1, nc=1, known=[True]), dict(R=1, C=0, nb=1, nc=0, known=[False]),
         dict(R=70, C=1, nb=70, nc=1, known=[False]), dict(R=70, C=1, nb=69, nc=1, known=[False]), dict(R=1, C=40, nb=1, nc=40, known=[False] * 40 + [True] * 30), dict(R=66, C=0, nb=66, nc=0, known=[True])]
HARNESSES = [
    H(selfcheck, SIZES, [dict(R=3, C=2, nb=3, nc=2, known=[False, True, False, True]), dict(R=3, C=0, nb=3, nc=0, known=[True] * 3)], bound="the listed sizes, any entries -1..2, counts 0..3"),
    H(traced, [dict(R=2, C=1, known=K2, change=c, fail=f) for c in (False, True) for f in (False, True)] + [dict(R=2, C=0, known=[True], change=True, fail=False)], bound="any question of the listed sizes, a step that changes the right-hand sides to anything, fails or not"),
    H(both, [dict(name=n, R=2, C=2) for n in ("reduce_col", "eliminate", "zero_in_b", "only_1_element_in_row")], [dict(name=n, R=3, C=3) for n in ("reduce_col", "eliminate", "zero_in_b", "only_1_element_in_row")], bound="any question of 2 (thorough: 3) rows and columns"),
]
