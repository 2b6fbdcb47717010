"""check <PROPERTY> [--tier quick|thorough] [--facet NAME ...] [--replay FILE] [--jobs N]"""
import argparse, importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append(HYP)
import numpy, scipy, pandas  # resolve from the library's own environment first
import matplotlib
matplotlib.use("Agg")
import pycircstat2
if not os.path.realpath(pycircstat2.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print("harness error: pycircstat2 resolved to", pycircstat2.__file__); sys.exit(2)
import core
MODULES = {"U": "p_utils", "D": "p_descriptive", "C": "p_objects", "A": "p_correlation", "H": "p_hypothesis",
           "F": "p_distributions", "K": "p_clustering", "R": "p_regression", "V": "p_visual"}


EXTRA = {"D03": ["p_hypothesis"], "C04": ["p_histories"], "C05": ["p_histories"]}


def load(prop):
    mods = [MODULES[prop[0]]] + EXTRA.get(prop, [])
    for m in mods:
        if os.path.exists(os.path.join(HERE, m + ".py")):
            importlib.import_module(m)


def main():
    if sys.argv[1:] == ["--selftest"]:
        print("ok", pycircstat2.__file__); return 0
    if sys.argv[1:] == ["--list"]:
        for k in list(MODULES) + list(EXTRA):
            load(k)
        print(" ".join(sorted(core.REGISTRY))); return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--facet", action="append"); ap.add_argument("--replay"); ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    load(a.prop)
    if a.prop not in core.REGISTRY:
        print("harness error: no facets for", a.prop); return 2
    if a.replay:
        d = json.load(open(a.replay))
        f = core.REGISTRY[d["property"]][d["facet"]]
        try:
            import signal
            signal.signal(signal.SIGALRM, core._alarm); signal.alarm(f.case_timeout)
            core.run_case(f, d["case"])
            signal.alarm(0)
        except core.CaseTimeout:
            print(f"the library did not return within {f.case_timeout} s"); print(f"VIOLATION property={d['property']} replay={a.replay}"); return 1
        except core.Skip:
            print("case is outside the domain"); return 0
        except core.Violation as v:
            print(core._tb(v)); print("message:", v)
            print(f"VIOLATION property={d['property']} replay={a.replay}"); return 1
        print("replay passes"); return 0
    ev, replays, errors, known = core.run_property(a.prop, a.tier, a.seed, a.facet, a.jobs)
    cov = ev["coverage"]
    for n, p in cov["facets"].items():
        print(f"  {a.prop}/{n}: {p['evaluations']} cases, {p['nontrivial']} non-trivial, {p['discarded']} discarded, {p['wall']}s"
              + (" BUDGET" if p["budget_hit"] else "") + (" " + json.dumps(dict(sorted(p["labels"].items(), key=lambda kv: -kv[1])[:14])) if p["labels"] else ""))
    print(f"{a.prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, wall {ev['wall_s']}s")
    for line in known:
        print(line)
    for path, r in replays:
        print(f"  [{r['facet']}] {r['violation']['message'][:600]}")
        print("  case:", json.dumps(r["violation"]["case"])[:1500])
        print(f"VIOLATION property={a.prop} replay={path}")
    for r in errors:
        print(f"  harness error in {r['facet']} shard {r['shard']}: {r['error'][-2500:]}")
    if replays:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
