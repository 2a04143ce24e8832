"""C20: the command line"""
import contextlib, io, os, re, runpy, sys
from ..ctx import *
from ..run import H
from .. import spec, load
from . import c19


def run_main(h, mod, argv, after=None):
    """(refused, printed text) of python -m mod argv"""
    buf = io.StringIO()
    old = sys.argv, sys.stdout
    refused = False
    if h.sym and not h.explicit: snp.PRINTED = []
    load.SymArg.words.clear()
    words = [a if isinstance(a, str) else load.SymArg(a) if isinstance(a, SInt) else str(a) for a in argv]
    try:
        sys.argv, sys.stdout = ["python -m " + mod] + words, buf
        with np.printoptions():
            if isinstance(h.pkg, RealPkg):
                h.pkg.load(mod)
                runpy.run_module(mod, run_name="__main__")
            else:
                h.pkg.load(mod)
                h.pkg.load(mod + ".__main__", run_name="__main__")
    except SystemExit as e: refused = e.code not in (None, 0)
    except Exception as e: refused = type(e).__name__
    finally:
        sys.argv, sys.stdout = old
        printed, snp.PRINTED = snp.PRINTED, None
    return refused, buf.getvalue(), printed


def printed_rows(text, printed):
    """the matrix rows in the text, in order"""
    out = []
    for m in re.finditer(r"<printed (\d+)>|\[([\s,\d]+)\]", text):
        if m.group(1) is not None:
            a = printed[int(m.group(1))]
            out += rows(a) if a.ndim == 2 else [rows(a)] if a.ndim == 1 else []
        else:
            out.append([int(x) for x in re.split(r"[\s,]+", m.group(2).strip(" \n,")) if x])
    return out


def sym_graphs(h, n, s):
    """n different symmetric 0/1 matrices of s vertices, and the arrays the code gets"""
    mats = []
    for i in range(n): mats.append(spec.sym_matrix(h, f"m{i}", s, s))
    up = lambda m: [m[i][j] for i in range(s) for j in range(i + 1, s)]
    h.assume([Not(same(up(mats[i]), up(mats[j]))) for i in range(n) for j in range(i)])
    return mats, [h.go(spec.as_array(h, m)) for m in mats], up


def patched(mod, **kw):
    class P:
        def __enter__(s):
            s.old = {k: getattr(mod, k) for k in kw}
            for k, x in kw.items(): setattr(mod, k, x)
        def __exit__(s, *a):
            for k, x in s.old.items(): setattr(mod, k, x)
    return P()


def params(h, lo, hi, vhi):
    P = [h.int("v", lo, vhi)] + [h.int(n, lo, hi) for n in "klu"]
    v, k, l, u = map(raw, P)
    eq = r_eq(r_mul(r_sub(r_sub(v, k), 1), u), r_mul(k, r_sub(r_sub(k, l), 1)))
    proper = And(eq, r_lt(0, k), r_lt(k, r_sub(v, 1)), r_le(0, l), r_lt(l, k), r_le(0, u), r_le(u, k))
    return P, eq, proper


def solve_cmd(h, n, s, lo=-2, hi=60, vhi=130):
    """python -m srg v k l u, the solver replaced by one that yields any n matrices"""
    solver = h.target("solver", "_seed", "solve") and h.target("solver")
    h.target("sorter", "sort")
    P, eq, proper = params(h, lo, hi, vhi)
    mats, arrs, up = sym_graphs(h, n, s)
    seeds, starts = [], []
    mark = h.const([[0, 1, 1, 0], [1, 0, 0, 1]], "int64")

    def _seed(*a, **k):
        seeds.append([*a, *k.values()])
        return mark

    def solve(x):
        starts.append(x)
        yield from list(arrs)

    with patched(solver, _seed=_seed, solve=solve):
        refused, text, printed = run_main(h, "srg", P if h.sym and not h.explicit else [raw(h.split(x)) for x in P])
    h.observe("refused", bool(refused))
    if refused:
        h.prove("refused only if infeasible", Not(proper))
        h.prove("refused before solving", not starts)
        return
    h.prove("infeasible parameters are refused", eq)
    if not starts or not seeds: h.skip("the solver is not called this way")
    h.prove("solved for the given parameters", len(seeds) == 1, len(starts) == 1, same([raw(x) for x in seeds[0]], [raw(x) for x in P]),
            same(rows(starts[0].current_matrix), rows(mark)))
    got = printed_rows(text, printed)
    h.observe("printed", got)
    h.prove("as many rows as the matrices have", len(got) == n * s)
    got = [got[i * s:i * s + s] for i in range(n)]
    h.prove("exactly the solver's matrices", [Or(same(g, m) for m in mats) for g in got], [Or(same(g, m) for g in got) for m in mats])
    h.prove("in ascending order", [lex_lt(up(a), up(b)) for a, b in zip(got, got[1:])])


def solve_real(h, P):
    """python -m srg, everything real"""
    P = tuple(P)
    SRG = h.target("srg", "SRG"); solve, _seed = h.target("solver", "solve", "_seed")
    want = [rows(m) for m in solve(SRG(_seed(*P)))]
    v = P[0]
    want.sort(key=lambda m: [m[i][j] for i in range(v) for j in range(i + 1, v)])
    refused, text, printed = run_main(h, "srg", list(P))
    h.prove("not refused", not refused)
    got = printed_rows(text, printed)
    h.observe("printed", len(got))
    h.prove("prints exactly the solver's matrices in ascending order", got == [r for m in want for r in m])


def refuse_real(h, v):
    """python -m srg, any infeasible parameters"""
    k, l, u = (h.int(n, 0, v) for n in "klu")
    K, L, U = raw(k), raw(l), raw(u)
    h.assume(Not(r_eq(r_mul(r_sub(v - 1, K), U), r_mul(K, r_sub(r_sub(K, L), 1)))))
    solver = h.target("solver", "solve") and h.target("solver")
    called = []
    with patched(solver, solve=lambda s: called.append(s) or []):
        refused, text, printed = run_main(h, "srg", [v] + [h.split(x) for x in (k, l, u)])
    h.prove("refused", bool(refused), not called)


def catalogue_cmd(h, cmd, n=2, s=3, lo=-2, hi=60, vhi=130):
    """python -m srg.database cmd v k l u, the catalogue replaced by any n matrices"""
    db = h.target("database", "get_solutions", "draw") and h.target("database")
    P, eq, proper = params(h, lo, hi, vhi)
    mats, arrs, up = sym_graphs(h, n, s)
    asked, drawn = [], []
    def get(*a, **k):
        asked.append([*a, *k.values()])
        return list(arrs)
    def draw(*a, **k): drawn.append([*a, *k.values()])
    with patched(db, get_solutions=get, draw=draw):
        refused, text, printed = run_main(h, "srg.database", [cmd] + (P if h.sym and not h.explicit else [raw(h.split(x)) for x in P]))
    h.observe("refused", bool(refused))
    want = [raw(x) for x in P]
    got = printed_rows(text, printed)
    if refused:
        h.prove("refused only if infeasible or unknown", Or(Not(proper), cmd not in ("list", "draw")))
        h.prove("nothing shown when refused", not drawn, not got)
        return
    h.prove("infeasible parameters and unknown commands are refused", eq, cmd in ("list", "draw"))
    if not asked and not drawn: h.skip("the catalogue is not read this way")
    if cmd == "list":
        h.prove("the catalogue is asked for these parameters", bool(asked), [same([raw(x) for x in a], want) for a in asked], not drawn)
        h.observe("printed", got)
        h.prove("exactly the stored matrices, in order", same(got, [r for m in mats for r in m]))
    else:
        h.prove("draws these parameters", len(drawn) == 1, [same([raw(x) for x in a], want) for a in drawn])


def catalogue_list(h, argv):
    refused, text, printed = run_main(h, "srg.database", list(argv))
    h.prove("not refused", not refused)
    names = re.findall(r"problem(?:_\d+){4}", text)
    h.observe("names", sorted(names))
    h.prove("lists exactly the entries", sorted(names) == c19.files(), not printed_rows(text, printed))


def catalogue_real(h, P):
    get = h.target("database", "get_solutions")
    want = [r for m in get(*P) for r in rows(m)]
    refused, text, printed = run_main(h, "srg.database", ["list"] + list(P))
    h.prove("not refused", not refused)
    got = printed_rows(text, printed)
    h.observe("printed", len(got))
    h.prove("prints exactly the stored matrices", got == want)


class Plotting:
    """matplotlib replaced by something that accepts every call, networkx' drawing functions by recorders"""
    def __init__(self):
        import types
        log = self.log = []

        class Any:
            def __init__(s, *a, **k): pass
            def __getattr__(s, n):
                if n.startswith("__"): raise AttributeError(n)
                if n == "savefig": return lambda name, *a, **k: log.append(("save", str(name)))
                if n == "subplots": return lambda *a, **k: (Any(), Any())
                return Any()
            def __call__(s, *a, **k): return Any()
            def __iter__(s): return iter(())

        def module(name):
            m = types.ModuleType(name)
            m.__getattr__ = lambda n: getattr(Any(), n)
            return m
        self.new = {n: module(n) for n in ("matplotlib", "matplotlib.pyplot")}
        self.new["matplotlib"].pyplot = self.new["matplotlib.pyplot"]

    def __enter__(self):
        import networkx as nx
        self.nx = nx
        self.old = {k: sys.modules.get(k) for k in self.new}
        sys.modules.update(self.new)
        self.funcs = {k: getattr(nx, k) for k in dir(nx) if k == "draw" or k.startswith("draw_")}
        for k in self.funcs: setattr(nx, k, self.recorder(k))
        return self.log

    def recorder(self, name):
        def record(g, *a, **k):
            if name in ("draw_networkx_labels", "draw_networkx_nodes", "draw_networkx_edge_labels"): return
            self.log.append(("draw", (set(g.nodes), {frozenset((int(x), int(y))) for x, y in (k.get("edgelist") or g.edges)})))
        return record

    def __exit__(self, *a):
        for k, f in self.funcs.items(): setattr(self.nx, k, f)
        for k, x in self.old.items():
            if x is None: sys.modules.pop(k, None)
            else: sys.modules[k] = x


def pictures(h, log, mats, P, text):
    s = P[0]
    pics, now = [], set()
    for what, x in log:
        if what == "draw": now = now | x[1]
        else: pics.append((x, now)); now = set()
    h.observe("pictures", len(pics))
    h.prove("one picture per matrix", len(pics) == len(mats))
    for (name, edges), m in zip(pics, mats):
        h.prove("exactly the edges", [Iff(r_eq(m[i][j], 1), frozenset((i, j)) in edges) for i in range(s) for j in range(i + 1, s)], all(len(e) == 2 for e in edges))
    h.prove("different files", len({n for n, _ in pics}) == len(pics))
    h.prove("named after the parameters", all([int(x) for x in re.findall(r"\d+", os.path.basename(n))][:4] == list(P) for n, _ in pics))
    h.prove("the names are printed", all(n in text for n, _ in pics))


def draw_cmd(h, s, n=2):
    """draw: one picture per stored matrix, with exactly its edges, each in a file of its own"""
    db = h.target("database", "get_solutions", "draw") and h.target("database")
    mats, arrs, up = sym_graphs(h, n, s)
    with Plotting() as log, patched(db, get_solutions=lambda *a: list(arrs)):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): h.call(db.draw, s, 2, 1, 0)
    pictures(h, log, mats, (s, 2, 1, 0), buf.getvalue())


def draw_real(h, P):
    """python -m srg.database draw v k l u, only the plotting library replaced"""
    get = h.target("database", "get_solutions")
    mats = [rows(m) for m in get(*P)]
    with Plotting() as log:
        refused, text, printed = run_main(h, "srg.database", ["draw"] + list(P))
    h.prove("not refused", not refused)
    pictures(h, log, mats, P, text)


HARNESSES = [
    H(solve_cmd, [dict(n=0, s=3, lo=-2, hi=28, vhi=60)] + [dict(n=n, s=s, lo=0, hi=4, vhi=7) for n, s in ((1, 3), (2, 3), (3, 3), (2, 4))], [dict(n=n, s=s, lo=0, hi=4, vhi=7) for n, s in ((4, 3), (3, 4))] + [dict(n=0, s=3, lo=-2, hi=120, vhi=250)],
      bound="arguments: all integers -2..28 (v: ..60; thorough: -2..120, v: ..250), the solver yielding nothing; all integers 0..4 (v: ..7), the solver yielding any 1..3 (4) different matrices of 3 or 4 vertices"),
    H(solve_real, [dict(P=P) for P in ([5, 2, 0, 1], [9, 4, 1, 2], [10, 6, 3, 4], [13, 6, 2, 3], [16, 9, 4, 6], [15, 8, 4, 4], [28, 3, 2, 0], [32, 1, 0, 0], [33, 2, 1, 0])], [dict(P=P) for P in ([17, 8, 3, 4], [16, 10, 6, 6], [21, 10, 5, 4], [40, 1, 0, 0], [40, 3, 2, 0])],
      explicit=True, path_s=150, con_s=150, bound="the real command, text output read back, the listed parameters up to v = 40"),
    H(refuse_real, [dict(v=v) for v in range(4, 8)], [dict(v=v) for v in range(8, 12)], explicit=True, bound="the real command, all infeasible parameters, v <= 7 (thorough: 11)"),
    H(catalogue_cmd, [dict(cmd=c, lo=-2, hi=28, vhi=60) for c in ("list", "draw", "show", "lis", "")], [dict(cmd="list", n=4, s=4, lo=0, hi=15, vhi=30), dict(cmd="list", n=0, lo=-2, hi=120, vhi=250)], bound="arguments: all integers -2..28 (v: ..60; thorough: -2..120, v: ..250); any 2 (thorough: 4) matrices in the catalogue"),
    H(catalogue_list, [dict(argv=[]), dict(argv=["list"])], explicit=True, bound="no parameters"),
    H(catalogue_real, c19.present(), explicit=True, path_s=120, con_s=120, bound="the real command, all entries"),
    H(draw_cmd, [dict(s=3), dict(s=4, n=1)], [dict(s=5, n=1)], explicit=True, bound="any 2 different graphs on 3 vertices, any graph on 4 (thorough: 5)"),
    H(draw_real, [p for p in c19.present() if p["P"][0] <= 16], [p for p in c19.present() if p["P"][0] > 16], explicit=True, path_s=150, con_s=150, bound="the real command, entries up to 16 vertices (thorough: all), only the plotting library replaced"),
]
