"""Runs the harnesses of one property: python3-vt -m se.run C06 [--tier thorough] [--only harness]"""
import argparse, importlib, json, multiprocessing, multiprocessing.connection, os, re, subprocess, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_REAL = "/opt/venv/bin/python"
BUDGET = {"quick": 240, "thorough": 3000}


class H:
    """a harness: fn(h, **cfg) and the configurations it is run with"""
    def __init__(self, fn, quick, thorough=(), bound="", path_s=60, con_s=60, hash_mode="values", name=None, validate=None, timeout_ms=60000, explicit=False, may_be_empty=False, hang_ok=False):
        self.fn, self.quick, self.extra = fn, list(quick), list(thorough)
        self.name = name or fn.__name__
        self.hang_ok = hang_ok          # running for long says nothing about this property
        self.may_be_empty = may_be_empty    # the solver may find that no input meets the assumptions
        self.explicit = explicit        # the code itself runs on given inputs; only the specification is symbolic
        self.bound, self.path_s, self.con_s, self.hash_mode, self.validate, self.timeout_ms = bound, path_s, con_s, hash_mode, validate, timeout_ms

    def configs(self, tier): return self.quick if tier == "quick" else self.quick + self.extra


def seq(fn, reuse=False):
    """the harness on several independent inputs, one after the other in one process: an earlier call must not show in a later one.
    reuse: the later inputs are written into the arrays of the earlier ones"""
    def f(h, calls):
        for i, c in enumerate(calls):
            h.prefix = f"{i}."
            if reuse: h.reused = (h.reused[1] if h.reused else [], [])
            fn(h, **c)
        h.prefix = ""
        if not reuse: h.check_kept()
    f.__name__ = fn.__name__ + ("_reuse" if reuse else "_seq")
    return f


ZERO = dict(paths=0, infeasible=0, decisions=0, queries=0, solver_s=0.0, goals=0, trivial=0, validated=0, inconclusive=0, explicit_paths=0)


# ---------------------------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------------------------
class Worker:
    def __init__(self, prop):
        from . import core, load, ctx
        self.core, self.load, self.ctx = core, load, ctx
        self.mod = importlib.import_module(f"se.props.{prop.lower()}")
        self.hs = {h.name: h for h in self.mod.HARNESSES}
        self.key = None

    def explore(self, hname, cfg, prefixes, slice_s, explicit, deadline):
        core, ctx = self.core, self.ctx
        H_ = self.hs[hname]
        key = (hname, json.dumps(cfg, sort_keys=True), explicit)
        if key != self.key:
            self.eng = core.Engine(timeout_ms=H_.timeout_ms)
            self.key = key
        eng = self.eng
        st = dict(ZERO); out = dict(stats=st, rest=[], violation=None, need_explicit=None, notes=[], funcs=[], samples=[], done=0)
        core.HASH["mode"] = H_.hash_mode
        t_end = time.time() + slice_s
        stack = list(prefixes)
        q0, s0, d0 = eng.queries, eng.solver_s, eng.decisions
        first = True
        while stack:
            if not first and time.time() > t_end: break
            first_path = first and stack[-1] == []
            first = False
            prefix = stack.pop()
            r = self.path(H_, cfg, prefix, explicit, st, out, first_path, deadline)
            if r == "stop": stack = []; break
            stack.extend(eng.pending())
        out["rest"] = stack
        st["queries"], st["solver_s"], st["decisions"] = eng.queries - q0, eng.solver_s - s0, eng.decisions - d0
        return out

    def con(self, H_, cfg, inputs, limit):
        pkg = self.load.Package(sym=False)
        return self.ctx.run_con(H_.fn, cfg, pkg, inputs, limit)

    def path(self, H_, cfg, prefix, explicit, st, out, prof, deadline):
        core, ctx, eng = self.core, self.ctx, self.eng
        pkg = self.load.Package(sym=not explicit)
        funcs = set()
        mon = sys.monitoring
        def started(c, offset):
            if c.co_filename.startswith(REPO): funcs.add(f"{os.path.relpath(c.co_filename, REPO)}:{c.co_qualname}")
            return mon.DISABLE
        cand = None
        eng.deadline = None
        h = ctx.SymCtx(eng, pkg, explicit)
        try:
            with ctx.quiet(), ctx.time_limit(min(H_.path_s, max(1, deadline - time.time()))):
                eng.start(prefix)
                if prof:
                    mon.use_tool_id(4, "functions encoded")
                    mon.register_callback(4, mon.events.PY_START, started)
                    mon.set_events(4, mon.events.PY_START)
                    mon.restart_events()
                try: H_.fn(h, **cfg)
                finally:
                    if mon.get_tool(4): mon.set_events(4, 0); mon.free_tool_id(4)
                st["goals"] += len(h.goals)
                h.flush()
                model = eng.getmodel()
        except core.Infeasible:
            st["infeasible"] += 1
            return
        except ctx.Missing as e:
            out["notes"].append(f"{H_.name}: not run, missing {e}")
            out["skipped"] = True
            return "stop"
        except ctx.Candidate as e: cand = (e.label, e.model)
        except core.Inconclusive as e:
            st["inconclusive"] += 1
            out["notes"].append(f"{H_.name} {cfg}: solver gave no answer ({e})")
            return
        except ctx.Hang:
            if time.time() > deadline - 1:
                st["inconclusive"] += 1
                out["notes"].append(f"{H_.name} {cfg}: out of time")
                return
            if H_.hang_ok:
                st["inconclusive"] += 1
                out["notes"].append(f"{H_.name} {cfg}: not finished within {H_.path_s} s")
                return
            cand = ("does not finish", None)
        except core.NonDet:
            out["need_explicit"] = "execution depends on state kept between calls"
            return "stop"
        except Exception as e:
            cand = (f"{type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].name}", None)
        finally:
            core.Engine.cur = eng
        if funcs: out["funcs"] = sorted(funcs)
        st["paths"] += 1
        st["trivial"] += h.trivial
        if explicit: st["explicit_paths"] += 1
        if cand is None:
            n = H_.validate
            if explicit:
                st["validated"] += 1        # the real code ran on this path
                if len(out["samples"]) < 1: out["samples"].append(dict(harness=H_.name, config=cfg, inputs=h.values(model), observed=h.observed(model)))
                return
            if n is not None and st["validated"] >= n: return
            vals = h.values(model)
            kind, res = self.con(H_, cfg, vals, H_.con_s)
            if kind == "ok":
                mine = h.observed(model)
                if mine == res:
                    st["validated"] += 1
                    if len(out["samples"]) < 1: out["samples"].append(dict(harness=H_.name, config=cfg, inputs=vals, observed=res))
                    return
                d = [(a, b) for a, b in zip(mine, res) if a != b]
                out["notes"].append(f"{H_.name} {cfg}: encoding disagrees with the code: {str(d)[:600]} on {str(vals)[:400]}")
                out["need_explicit"] = "encoding disagrees with the code"
                return "stop"
            if kind == "violation":
                out["violation"] = dict(harness=H_.name, config=cfg, inputs=vals, label=res)
                return "stop"
            out["notes"].append(f"{H_.name} {cfg}: {kind} {res} on {str(vals)[:300]}")
            out["need_explicit"] = f"{kind}: {res}"
            return "stop"
        label, model = cand
        try:
            if model is None: model = eng.getmodel()
        except (core.Infeasible, core.Inconclusive):
            st["inconclusive"] += 1
            return
        vals = h.values(model)
        kind, res = self.con(H_, cfg, vals, H_.con_s)
        if kind == "violation":
            out["violation"] = dict(harness=H_.name, config=cfg, inputs=vals, label=res, symbolic=label)
            return "stop"
        out["notes"].append(f"{H_.name} {cfg}: not reproduced: {label} ({kind} {str(res)[:200]}) on {str(vals)[:400]}")
        if explicit: st["inconclusive"] += 1; return
        out["need_explicit"] = f"not reproduced: {label}"
        return "stop"


def worker_main(conn, prop):
    os.setpgid(0, 0) if False else None
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import warnings; warnings.simplefilter("ignore")
    try: w = Worker(prop)
    except BaseException:
        conn.send(("fatal", traceback.format_exc())); return
    while True:
        try: msg = conn.recv()
        except EOFError: return
        if msg is None: return
        try: conn.send(("ok", w.explore(*msg)))
        except BaseException:
            w.key = None
            conn.send(("error", traceback.format_exc()))


# ---------------------------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------------------------
def known():
    """open findings: lines 'open: property=<id> harness=<name> config=<json> label=<regex>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) harness=(\S+) config=(\{.*?\}) label=(.*)$", l.strip())
            if m: out.append(m.groups())
    return out


def replay_file(prop, v):
    d = os.path.join(VERIF, "out"); os.makedirs(d, exist_ok=True)
    body = dict(property=prop, **v)
    n = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{v['harness']}-{n}.json")
    json.dump(body, open(p, "w"), indent=1)
    return p


def confirm(path, limit):
    """re-run the counterexample on the real package in a fresh interpreter"""
    py = PY_REAL if os.path.exists(PY_REAL) else sys.executable
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    try:
        r = subprocess.run([py, "-m", "se.replay", path, "--limit", str(limit)], env=env, cwd=VERIF, capture_output=True, text=True, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return True, f"does not finish within {limit} s"
    return r.returncode == 1, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--budget", type=float); ap.add_argument("-v", action="store_true")
    ap.add_argument("--cfg"); ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    deadline = t0 + (a.budget or BUDGET[tier])
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"se.props.{prop.lower()}")
    mp = multiprocessing.get_context("fork")

    tasks = []          # (harness, cfg, prefixes, explicit)
    per = {}            # (harness, cfg json) -> dict
    for h in mod.HARNESSES:
        if a.only and h.name != a.only: continue
        for c in h.configs(tier):
            if a.cfg and json.loads(a.cfg) != c: continue
            tasks.append((h.name, c, [[]], h.explicit))
            per[h.name, json.dumps(c, sort_keys=True)] = dict(stats=dict(ZERO), open=1, funcs=set(), explicit="by design" if h.explicit else None, t=0.0, state="run", last=0)
    tasks.reverse()
    hs = {h.name: h for h in mod.HARNESSES}
    samples, notes, violation, kf = [], [], None, []
    workers = {}

    def spawn():
        p, c = mp.Pipe()
        w = mp.Process(target=worker_main, args=(c, prop), daemon=True); w.start(); c.close()
        workers[p] = dict(proc=w, task=None)

    for _ in range(min(a.j, max(1, len(tasks) * 2))): spawn()
    slice_s = 1.0

    def stopped(k): return per[k]["state"] != "run"

    def finish(k): per[k]["state"] = "done"

    while True:
        now = time.time()
        for p, w in list(workers.items()):
            if w["task"] is None and tasks and now < deadline and violation is None:
                while tasks:
                    t = tasks.pop()
                    k = (t[0], json.dumps(t[1], sort_keys=True))
                    if stopped(k) or bool(per[k]["explicit"]) != t[3]: continue
                    w["task"] = t; w["t"] = now
                    p.send((t[0], t[1], t[2], slice_s, t[3], deadline))
                    break
        busy = [p for p, w in workers.items() if w["task"] is not None]
        if not busy: break
        if violation is not None or now > deadline + 30: break
        for p in multiprocessing.connection.wait(busy, timeout=1.0):
            w = workers[p]; t = w["task"]; w["task"] = None
            hn, cfg, _, expl = t
            k = (hn, json.dumps(cfg, sort_keys=True)); R = per[k]
            try: kind, res = p.recv()
            except (EOFError, OSError):
                notes.append(f"{hn} {cfg}: worker ended"); R["state"] = "inconclusive"
                del workers[p]; spawn(); continue
            if kind == "fatal":
                print(res); sys.exit(2)
            if kind == "error":
                notes.append(f"{hn} {cfg}: internal error\n{res}"); R["state"] = "inconclusive"
                continue
            R["open"] -= 1
            R["t"] += time.time() - w["t"]
            R["last"] = time.time() - t0
            for x, y in res["stats"].items(): R["stats"][x] += y
            R["funcs"].update(res["funcs"])
            if len(samples) < 6: samples.extend(res["samples"][:1] if not any(s["harness"] == hn for s in samples) else [])
            for n in res["notes"]:
                if len(notes) < 200: notes.append(n)
            if res.get("skipped"): R["state"] = "skipped"; continue
            if res["violation"]:
                v = res["violation"]
                f = replay_file(prop, v)
                ok, why = confirm(f, hs[hn].con_s)
                if ok:
                    hit = [x for x in known() if x[0] == prop and x[1] == hn and json.loads(x[2]) == cfg and re.search(x[3], v["label"])]
                    if hit:
                        print(f"KNOWN-FINDING: property={prop} {hn} {cfg}: {v['label']}"); R["state"] = "known finding"
                        kf.append(v)
                        continue
                    violation = (f, v, why); break
                notes.append(f"{hn} {cfg}: counterexample did not reproduce in a fresh interpreter: {v['label']} / {why}")
                res["need_explicit"] = "not reproduced"
            if res["need_explicit"]:
                if R["explicit"]:
                    R["state"] = "inconclusive"
                else:
                    R["explicit"] = res["need_explicit"]
                    R["open"] = 1
                    tasks.append((hn, cfg, [[]], True))
                continue
            if bool(R["explicit"]) != expl: continue
            rest = res["rest"]
            if rest:
                n = min(len(rest), a.j)
                for i in range(n):
                    ch = rest[i::n]
                    tasks.append((hn, cfg, ch, expl)); R["open"] += 1
            elif R["open"] == 0: finish(k)
    for p, w in workers.items():
        w["proc"].terminate()
    # -- report
    wall = time.time() - t0
    tot = dict(ZERO)
    hrep = []
    for (hn, ck), R in per.items():
        if R["state"] == "run": R["state"] = "not exhausted (time)" if violation is None else "stopped"
        if R["state"] == "done" and R["stats"]["inconclusive"]: R["state"] = "partly inconclusive"
        if R["state"] == "done" and R["stats"]["paths"] == 0: R["state"] = "no such input" if hs[hn].may_be_empty else "vacuous"
        for x, y in R["stats"].items(): tot[x] += y
        hrep.append(dict(harness=hn, config=json.loads(ck), state=R["state"], paths=R["stats"]["paths"], queries=R["stats"]["queries"],
                         solver_s=round(R["stats"]["solver_s"], 2), cpu_s=round(R["t"], 2), validated=R["stats"]["validated"],
                         proved=R["stats"]["goals"], evaluated=R["stats"]["trivial"], **({"explicit": R["explicit"]} if R["explicit"] else {})))
    bad = [r for r in hrep if r["state"] not in ("done", "no such input")]
    for r in bad[:20]: notes.append(f"{r['harness']} {r['config']}: {r['state']}")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=tot["validated"],
                            samples=samples[:6] or [dict(note="no path finished")], exhaustive=not bad and violation is None,
                            assertions_proved_by_solver=tot["goals"], assertions_decided_on_path=tot["trivial"],
                            queries=tot["queries"], solver_s=round(tot["solver_s"], 1), infeasible_paths=tot["infeasible"],
                            inconclusive_paths=tot["inconclusive"], explicit_paths=tot["explicit_paths"],
                            functions_encoded=sorted(set().union(*[R["funcs"] for R in per.values()])) if per else [],
                            bounds={h.name: h.bound for h in mod.HARNESSES}, harnesses=hrep, notes=notes[:60],
                            explanation="states: execution paths of the real code explored symbolically; transitions: branch decisions; "
                                        "traces_validated_against_impl: paths whose solver model was run on the unmodified code with the same observations"),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    if a.v:
        for r in hrep: print(r)
    for n in notes[: 200 if a.v else 15]: print("note:", n)
    print(f"{prop} {tier}: {tot['paths']} paths, {tot['queries']} queries, {tot['solver_s']:.1f} s solver, {tot['validated']} validated, "
          f"{len(per) - len(bad)}/{len(per)} harness runs exhausted, {wall:.1f} s")
    if violation:
        f, v, why = violation
        print(f"{v['harness']} {v['config']}: {why}")
        print(f"VIOLATION property={prop} replay={f}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
