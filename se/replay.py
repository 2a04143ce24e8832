"""Re-runs one counterexample on the real package: python -m se.replay FILE  (exit 1: it fails)"""
import importlib, json, os, sys


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("--limit", type=float, default=60)
    a = ap.parse_args()
    import warnings; warnings.simplefilter("ignore")
    from . import ctx
    d = json.load(open(a.file))
    mod = importlib.import_module(f"se.props.{d['property'].lower()}")
    fn = {h.name: h.fn for h in mod.HARNESSES}[d["harness"]]
    pkg = ctx.RealPkg(os.environ.get("VERIF_REPO", "/repo"))
    kind, res = ctx.run_con(fn, d["config"], pkg, d["inputs"], a.limit)
    print(kind, res if kind != "ok" else "")
    sys.exit(1 if kind == "violation" else 0)


if __name__ == "__main__":
    main()
