"""C18: copies and equality"""
from ..ctx import *
from ..run import H
from .. import spec


def parts(h, R, C, B, tag, loc, ln):
    return dict(A=h.bits("A" + tag, (R, C)), b=h.ints("b" + tag, R, 0, B), quota=h.int("quota" + tag, 0, B), bounds=h.ints("bounds" + tag, C, 0, B),
                v=h.ints("v" + tag, len(loc), -1, B), loc=h.const(loc, "int64"), ln=ln)


def make(h, p):
    Question, Answer = h.target("srg", "Question", "Answer")
    A, b, q, bd, v, loc = h.go(p["A"], p["b"], p["quota"], p["bounds"], p["v"], p["loc"])
    ok, a = h.call(lambda: Answer(value=v, location=loc, len=p["ln"]))
    _, x = h.call(lambda: Question(A, b, quota=q, bounds=bd, ans=a))
    return x


def plain(p): return [rows(p["A"]), rows(p["b"]), raw(p["quota"]), rows(p["bounds"]), rows(p["v"]), rows(p["loc"]), p["ln"]]


def state(h, q):
    if not hasattr(q.answer, "_v") or not hasattr(q.answer, "_loc"): h.skip("Answer._v, Answer._loc")
    return [rows(q.A), rows(q.b), raw(q.quota), rows(q.bounds), rows(q.answer._v), rows(q.answer._loc), len(q.answer)]


def truth(x):
    if isinstance(x, SBool): return x.raw
    return bool(x) if isinstance(x, (bool, np.bool_)) else raw(x)


def equality(h, s1, s2, B):
    """two questions of the given shapes [rows, columns, bucket starts, row length]"""
    p1 = parts(h, s1[0], s1[1], B, "1", s1[2], s1[3]); p2 = parts(h, s2[0], s2[1], B, "2", s2[2], s2[3])
    want = And(shape(p1["A"]) == shape(p2["A"]), same(plain(p1), plain(p2)))
    q1, q2 = make(h, p1), make(h, p2)
    _, e = h.call(lambda: q1 == q2)
    h.observe("equal", truth(e))
    h.prove("equal exactly if all parts agree", Iff(truth(e), want))
    _, n = h.call(lambda: q1 != q2)
    h.prove("unequal exactly if not equal", Iff(truth(n), Not(want)))
    wa = same([rows(p1["v"]), rows(p1["loc"]), p1["ln"]], [rows(p2["v"]), rows(p2["loc"]), p2["ln"]])
    _, e = h.call(lambda: q1.answer == q2.answer)
    h.prove("answers equal exactly if their parts agree", Iff(truth(e), wa))
    h.prove("comparing modifies nothing", same(state(h, q1), plain(p1)), same(state(h, q2), plain(p2)))


def fields(q): return [q.A, q.b, q.bounds, q.answer._v, q.answer._loc]


def copies(h, R, C, B, loc, ln):
    p = parts(h, R, C, B, "", loc, ln)
    S = plain(p)
    q = make(h, p)
    _, c = h.call(q.copy)
    h.prove("copy has the same parts", same(state(h, c), S))
    h.prove("original unmodified by copying", same(state(h, q), S))
    _, e = h.call(lambda: q == c)
    h.prove("copy equals original", truth(e))
    h.observe("copy", state(h, c))
    _, c2 = h.call(c.copy)
    for t in fields(c):
        if 0 not in shape(t): t[...] = 77
    c.quota = 76
    h.prove("writing into the copy does not show in the original", same(state(h, q), S))
    h.prove("writing into the copy does not show in its copy", same(state(h, c2), S))
    c.A, c.b, c.bounds = c.A[:0], c.b[:0], c.bounds[:0]
    h.prove("assigning to the copy does not show in the original", same(state(h, q), S))


def copies2(h, R, C, B, loc, ln):
    """the other way round: the original is written into"""
    p = parts(h, R, C, B, "", loc, ln)
    S = plain(p)
    q = make(h, p)
    _, c = h.call(q.copy)
    for t in fields(q):
        if 0 not in shape(t): t[...] = 77
    q.quota = 76
    h.observe("copy", state(h, c))
    h.prove("writing into the original does not show in the copy", same(state(h, c), S))
    Answer = h.target("srg", "Answer")
    v = h.ints("w", len(loc), -1, B)
    v0 = rows(v)
    v_, loc_ = h.go(v, h.const(loc, "int64"))
    a = Answer(value=v_, location=loc_, len=ln)
    _, b = h.call(a.copy)
    _, e = h.call(lambda: a == b)
    h.prove("answer equals its copy", truth(e), same(rows(b._v), v0), rows(b._loc) == loc, len(b) == ln)
    b._v[...] = 55; b._loc[...] = 55
    h.prove("writing into the copied answer does not show in the original", same(rows(a._v), v0), rows(a._loc) == loc)
    _, b = h.call(a.copy)
    a._v[...] = 55; a._loc[...] = 55
    h.prove("writing into the original answer does not show in the copy", same(rows(b._v), v0), rows(b._loc) == loc)


X = [0, 1, 2]
S22 = [2, 2, [0, 1], 2]
HARNESSES = [
    H(equality, [dict(s1=S22, s2=S22, B=3), dict(s1=[1, 3, [0, 1, 3], 5], s2=[1, 3, [0, 1, 3], 5], B=9), dict(s1=[3, 2, [0, 1], 2], s2=S22, B=2), dict(s1=[2, 3, [0, 1, 2], 3], s2=[2, 2, [0, 1], 3], B=2),
                 dict(s1=[2, 2, [0, 1], 3], s2=[2, 2, [0, 2], 3], B=2), dict(s1=S22, s2=[2, 2, [0, 1], 3], B=2), dict(s1=[2, 2, [0, 1, 2], 4], s2=[2, 2, [0, 1], 4], B=2), dict(s1=[1, 4, X, 3], s2=[4, 1, X, 3], B=1),
                 dict(s1=[1, 0, [], 0], s2=[1, 0, [], 3], B=1), dict(s1=[1, 0, [0, 2], 5], s2=[1, 0, [0, 2], 4], B=1), dict(s1=[0, 2, [0, 1], 2], s2=[0, 2, [0, 1], 2], B=2), dict(s1=[2, 0, [], 0], s2=[1, 0, [], 0], B=1),
                 dict(s1=[70, 2, [0, 1], 2], s2=[70, 2, [0, 1], 2], B=300), dict(s1=[2, 130, X, 130], s2=[2, 130, X, 130], B=1), dict(s1=[1, 1, [2 * i for i in range(70)], 150], s2=[1, 1, [2 * i for i in range(70)], 150], B=200), dict(s1=[4, 4, [0, 1, 3, 4], 6], s2=[4, 4, [0, 1, 3, 4], 6], B=127), dict(s1=[6, 3, X, 9], s2=[6, 3, X, 9], B=300)],
      [dict(s1=[30, 40, X, 40], s2=[30, 40, X, 40], B=1), dict(s1=[3, 3, [0, 1, 2], 7000], s2=[3, 3, [0, 1, 2], 7000], B=70000)], bound="two questions of given shapes [rows, columns, bucket starts, row length], all values 0..B"),
    H(copies, [dict(R=2, C=2, B=5, loc=[0, 1], ln=3), dict(R=1, C=4, B=5, loc=[0, 1, 3], ln=5), dict(R=3, C=70, B=300, loc=list(range(70)), ln=90), dict(R=5, C=5, B=127, loc=[0, 1, 2, 3, 4], ln=5)], [dict(R=30, C=30, B=70000, loc=list(range(30)), ln=33)], bound="questions with R rows and C columns, values 0..B"),
    H(copies2, [dict(R=2, C=2, B=5, loc=[0, 1], ln=3), dict(R=1, C=4, B=5, loc=[0, 1, 3], ln=5), dict(R=3, C=70, B=300, loc=list(range(70)), ln=90), dict(R=5, C=5, B=127, loc=[0, 1, 2, 3, 4], ln=5)], [dict(R=30, C=30, B=70000, loc=list(range(30)), ln=33)], bound="questions with R rows and C columns, values 0..B"),
]
