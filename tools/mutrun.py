"""mutrun.py PROP[,PROP...] : all quick facets of the given properties in one pool, no shrinking, stops at the first violation."""
import sys, os, types, time, multiprocessing
HERE = os.environ.get("VERIF_HARNESS") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
src = open(os.path.join(HERE, "core.py")).read().replace("phases = [Phase.generate, Phase.shrink]", "phases = [Phase.generate]")
core = types.ModuleType("core"); core.__file__ = os.path.join(HERE, "core.py"); sys.modules["core"] = core
sys.argv[0] = os.path.join(HERE, "main.py")
exec(compile(src, core.__file__, "exec"), core.__dict__)
import main
props = sys.argv[1].split(",")
for p in props:
    main.load(p)
tasks = []
for p in props:
    for name, f in core.REGISTRY.get(p, {}).items():
        for s in range(f.shards):
            tasks.append((p, name, s, f.shards, "quick", int(os.environ.get("VERIF_SEED", "1")), 200.0))
# round-robin over the properties
order = {p: 0 for p in props}; keyed = []
for t in tasks:
    keyed.append((order[t[0]], t)); order[t[0]] += 1
tasks = [t for _, t in sorted(keyed, key=lambda kt: kt[0])]
t0 = time.time(); n = 0
pool = multiprocessing.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "8")), maxtasksperchild=1)
for r in pool.imap_unordered(core.run_facet, tasks):
    n += r["evaluations"]
    if r["violation"]:
        print("KILLED", r["prop"], r["facet"], r["violation"]["message"][:160].replace("\n", " "), f"[{time.time()-t0:.0f}s]"); break
    if r["error"]:
        print("ERROR", r["prop"], r["facet"], r["error"][-200:].replace("\n", " "), f"[{time.time()-t0:.0f}s]"); break
else:
    print("SURVIVED", n, "cases", f"[{time.time()-t0:.0f}s]")
pool.terminate()
