"""C17: what an answer stands for"""
from ..ctx import *
from ..run import H, seq
from .. import spec


def check(h, loc, ln, v):
    """v: array of counts; loc: bucket starts"""
    Answer = h.target("srg", "Answer")
    v0 = rows(v)
    n = len(loc)
    size = [b - a for a, b in zip(loc, loc[1:] + [ln])]
    v_, loc_ = h.go(v, h.const(loc, "int64"))
    _, a = h.call(lambda: Answer(value=v_, location=loc_, len=ln))
    _, q = h.call(lambda: a.quota)
    h.observe("sizes", q)
    h.prove("bucket sizes are the gaps", same(rows(q), size))
    _, unk = h.call(lambda: a.unknown_loc)
    unk = [h.split(x) for x in rows(unk)]
    h.observe("unknown", unk)
    h.prove("exactly the unknown ones are listed", And(Iff(r_eq(x, -1), i in unk) for i, x in enumerate(v0)), unk == sorted(set(unk)))
    _, any_ = h.call(lambda: a.unknown)
    h.prove("unknown at all", same(b_norm(raw(any_)) if not isinstance(any_, bool) else any_, Or(r_eq(x, -1) for x in v0)))
    h.prove("length", len(a) == ln)
    bad = Or(Or(r_eq(x, -1), r_lt(s, x)) for x, s in zip(v0, size))
    ok, row = h.call(a.binarize, allow=("Exception",))
    h.observe("row", rows(row) if ok else None)
    if not ok: h.prove("refused only with an unknown or oversized count", bad)
    else:
        h.prove("refused with an unknown or oversized count", Not(bad))
        r = rows(row)
        h.prove("row", len(r) == ln, And(r_eq(r[p + i], core.b2i(r_lt(i, x))) for p, s, x in zip(loc, size, v0) for i in range(s)))
    h.keep(q, *([row] if ok else []))
    h.prove("not modified", same(rows(v_), v0), same(rows(loc_), loc), same(rows(a.quota), size))


def every(h, L):
    """every way to cut a row of length L into buckets, every count from unknown to one too many"""
    cut = rows(h.bits("cut", L - 1)) if L > 1 else []
    loc = [0] + [i + 1 for i, c in enumerate(cut) if h.split(c)]
    size = [b - a for a, b in zip(loc, loc[1:] + [L])]
    check(h, loc, L, h.ints(f"v{len(loc)}", len(loc), -1, max(size) + 1))


def some(h, loc, ln, lo=-1, dt="int64"):
    size = [b - a for a, b in zip(loc, loc[1:] + [ln])]
    check(h, loc, ln, h.ints("v", len(loc), lo, max(size) + 1, dt))


def near(h, loc, ln, slack):
    """large buckets, counts close to the bucket size"""
    size = [b - a for a, b in zip(loc, loc[1:] + [ln])]
    v = h.ints("v", len(loc), min(size) - slack, max(size) + 1)
    h.assume(And(r_le(s - slack, x) for s, x in zip(size, rows(v))))
    check(h, loc, ln, v)


def many(h, n, free):
    """n buckets of one to three; the counts in free between unknown and one too many, the others right"""
    size = [1 + i % 3 for i in range(n)]
    loc = [sum(size[:i]) for i in range(n)]
    v = [(i * 5) % (size[i] + 1) for i in range(n)]
    for i, e in zip(free, rows(h.ints("v", len(free), -1, 4))): v[i] = e
    check(h, loc, sum(size), h.lift(v) if hasattr(h, "lift") else spec.as_array(h, [v])[0])


def default(h, L):
    """the answer that knows nothing"""
    Answer = h.target("srg", "Answer")
    _, a = h.call(Answer.default, L)
    h.observe("all unknown", [rows(a.unknown_loc), len(a)])
    h.prove("all unknown", rows(a.unknown_loc) == list(range(L)), len(a) == L, rows(a.quota) == [1] * L)
    ok, _ = h.call(a.binarize, allow=("Exception",))
    h.prove("refused", (not ok) or L == 0)


HARNESSES = [
    H(every, [dict(L=1), dict(L=2), dict(L=3), dict(L=4), dict(L=5)], [dict(L=6)], bound="every division of a row of length L into buckets, counts from unknown to one too many"),
    H(some, [dict(loc=[0, 3, 7], ln=13), dict(loc=[0, 1, 2, 6], ln=7, lo=0, dt="int8"), dict(loc=[0], ln=20), dict(loc=[0, 3, 7, 11], ln=13), dict(loc=[0, 12, 30], ln=40)], [dict(loc=[0, 5, 10, 15], ln=20), dict(loc=[0, 1, 2, 3, 4, 5, 6], ln=10)], bound="buckets starting at loc in a row of length ln"),
    H(near, [dict(loc=[0, 130], ln=260, slack=2), dict(loc=[0, 64, 128], ln=200, slack=1), dict(loc=[0, 128, 256], ln=400, slack=2)], [dict(loc=[0, 300], ln=700, slack=1)], bound="large buckets, counts at most slack below the size"),
    H(default, [dict(L=L) for L in (1, 2, 5, 130)], [], bound="rows of length L"),
    H(seq(some), [dict(calls=[dict(loc=[0, 2], ln=3)] * 2), dict(calls=[dict(loc=[0, 2], ln=3), dict(loc=[0, 1], ln=3)]), dict(calls=[dict(loc=[0, 1], ln=3), dict(loc=[0, 1], ln=4)])], bound="any two answers, one after the other in one process"),
    H(many, [dict(n=40, free=[0, 20, 39]), dict(n=130, free=[127, 129])], bound="n buckets, the counts in free symbolic"),
    H(seq(some, reuse=True), [dict(calls=[dict(loc=[0, 2], ln=3)] * 2)], bound="the arrays of one call written over and passed in again"),
]
