"""C21: malformed systems, answers and rows are refused"""
from ..ctx import *
from ..run import H
from .. import spec


def question(h, R, C, nb, nc, lo=-2, hi=3):
    """any right-hand side of nb entries, any bounds of nc, any total, for an R x C matrix"""
    Question = h.target("srg", "Question")
    A = h.bits("A", (R, C)) if R * C else h.const(np.zeros((R, C)), "int64")
    b, bd, t = h.ints("b", nb, lo, hi), h.ints("bounds", nc, lo, hi), h.int("quota", lo, hi)
    b0, d0, t0, A0 = rows(b), rows(bd), raw(t), rows(A)
    good = And(nb == R, nc == C, [r_le(0, x) for x in b0 + d0 + [t0]])
    A_, b_, d_, t_ = h.go(A, b, bd, t if not h.explicit else h.split(t))
    ok, q = h.call(lambda: Question(A_, b_, t_, d_), allow=("Exception",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if well-formed", Iff(ok, good))
    if not ok: return
    h.prove("holds what was given", same([rows(q.A), rows(q.b), rows(q.bounds), raw(q.quota)], [A0, b0, d0, t0]))
    h.prove("nothing known yet", rows(q.answer.unknown_loc) == list(range(C)), len(q.answer) == C)


def assign(h, field, R, C):
    """assigning b, bounds, total: refused exactly if negative, and then nothing has changed"""
    Question = h.target("srg", "Question")
    A = h.bits("A", (R, C)); b, bd, t = h.ints("b", R, 0, 3), h.ints("bounds", C, 0, 3), h.int("quota", 0, 3)
    start = [rows(A), rows(b), rows(bd), raw(t)]
    new = dict(b=lambda: h.ints("new", R, -2, 3), bounds=lambda: h.ints("new", C, -2, 3), quota=lambda: h.int("new", -2, 3))[field]()
    n0 = rows(new)
    if h.explicit and field == "quota": new = h.split(new)
    A_, b_, d_, t_, new_ = h.go(A, b, bd, t if not h.explicit else h.split(t), new)
    _, q = h.call(lambda: Question(A_, b_, t_, d_))
    if not isinstance(getattr(type(q), field, None), property): h.skip(f"Question.{field} is no property")
    ok, _ = h.call(lambda: setattr(q, field, new_), allow=("Exception",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if not negative", Iff(ok, And(r_le(0, x) for x in (n0 if isinstance(n0, list) else [n0]))))
    i = dict(b=1, bounds=2, quota=3)[field]
    want = start[:i] + [n0 if ok else start[i]] + start[i + 1:]
    h.prove("only this changed", same([rows(q.A), rows(q.b), rows(q.bounds), raw(q.quota)], want))


def answer(h, n, m, ln, hi):
    """any m locations, n counts, for a row of length ln"""
    Answer = h.target("srg", "Answer")
    v = h.ints("v", n, -1, 2)
    loc = h.ints("loc", m, -1, hi)
    l0, v0 = rows(loc), rows(v)
    good = And(n == m, r_eq(l0[0], 0), [r_lt(a, b) for a, b in zip(l0, l0[1:])], r_lt(l0[-1], ln)) if m else n == m
    v_, loc_ = h.go(v, loc)
    ok, a = h.call(lambda: Answer(value=v_, location=loc_, len=ln), allow=("Exception",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if the locations start at 0, ascend and lie in the row", Iff(ok, good))
    if ok: h.prove("bucket sizes", same(rows(a.quota), [r_sub(b, a_) for a_, b in zip(l0, l0[1:] + [ln])]) if m else True)


def answer_of(h, C, n):
    """giving a question of C unknowns an answer with any n counts: refused exactly if the unknowns do not match"""
    Question, Answer = h.target("srg", "Question", "Answer")
    A = h.bits("A", (1, C)) if C else h.const(np.zeros((1, 0)), "int64")
    v = h.ints("v", n, -1, 1)
    v0 = rows(v)
    A_, v_, b_, d_, loc_ = h.go(A, v, h.const([1], "int64"), h.const([1] * C, "int64"), h.const(list(range(n)), "int64"))
    _, q = h.call(lambda: Question(A_, b_, 1, d_))
    _, a = h.call(lambda: Answer(value=v_, location=loc_, len=n))
    old = q.answer
    ok, _ = h.call(lambda: setattr(q, "answer", a), allow=("Exception",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if as many unknowns as columns", Iff(ok, r_eq(Sum(core.b2i(r_eq(x, -1)) for x in v0), C)))
    h.prove("in place exactly if accepted", (q.answer is a) == ok, ok or q.answer is old)


def append(h, v, R, n):
    """a new row for R rows of v columns from n free entries: refused exactly if n is not v-R-1"""
    SRG = h.target("srg", "SRG")
    M = spec.sym_matrix(h, "M", v, R)
    arr = h.go(spec.as_array(h, M))
    x = h.bits("x", n) if n else h.const([], "int64")
    x0 = rows(x)
    x_ = h.go(x)
    _, s = h.call(lambda: SRG(arr))
    ok, t = h.call(lambda: s.append_and_return_new(x_), allow=("Exception",))
    h.observe("accepted", ok)
    h.prove("accepted exactly if the row has the right length", ok == (n == v - R - 1))
    h.prove("the old matrix stays", same(rows(s.current_matrix), M), same(rows(arr), M))
    if ok:
        m = rows(t.current_matrix)
        h.observe("matrix", m)
        h.prove("the known column, a zero, the free entries", same(m, M + [[M[j][R] for j in range(R)] + [0] + x0]))
        h.prove("solved exactly if square", bool(t.solved()) == (R + 1 == v), bool(s.solved()) == (R == v))


def seqs(lo, hi): return range(lo, hi + 1)


HARNESSES = [
    H(question, [dict(R=R, C=C, nb=nb, nc=nc) for R in (1, 2) for C in (0, 1, 2) for nb in (1, 2, 3) for nc in (1, 2, 3) if nb - R <= 1 and nc - C <= 1] + [dict(R=3, C=4, nb=3, nc=4), dict(R=3, C=3, nb=4, nc=3, lo=0), dict(R=1, C=1, nb=1, nc=1, lo=-300, hi=300), dict(R=70, C=2, nb=70, nc=2, lo=-1, hi=1), dict(R=2, C=130, nb=2, nc=130, lo=-1, hi=1), dict(R=6, C=8, nb=6, nc=8)],
      [dict(R=20, C=20, nb=20, nc=20)], bound="R x C matrices up to 3 x 4 (6 x 8), right-hand sides, bounds and totals -2..3"),
    H(assign, [dict(field=f, R=R, C=C) for f in ("b", "bounds", "quota") for R, C in ((1, 1), (2, 3), (5, 6))], [dict(field=f, R=70, C=130) for f in ("b", "bounds", "quota")], bound="2 x 3 (5 x 6) questions, new values -2..3"),
    H(answer, [dict(n=n, m=m, ln=ln, hi=ln + 1) for n in (1, 2, 3) for m in (1, 2, 3) for ln in (1, 3, 4)] + [dict(n=4, m=4, ln=6, hi=6), dict(n=2, m=2, ln=300, hi=400), dict(n=5, m=5, ln=8, hi=9)], [dict(n=7, m=7, ln=12, hi=13)], bound="up to 4 (5) locations -1..length+1"),
    H(answer_of, [dict(C=C, n=n) for C in (0, 1, 2, 3) for n in (1, 2, 3, 4)], [dict(C=4, n=6)], bound="up to 3 columns, up to 4 counts"),
    H(append, [dict(v=v, R=R, n=n) for v in (4, 5) for R in range(1, v) for n in range(0, v)] + [dict(v=70, R=2, n=n) for n in (66, 67, 68)] + [dict(v=130, R=1, n=128)] + [dict(v=8, R=R, n=7 - R) for R in range(1, 8)], [dict(v=20, R=R, n=19 - R) for R in range(1, 20)], bound="v = 4, 5 (8), any symmetric rows, any free entries"),
]
