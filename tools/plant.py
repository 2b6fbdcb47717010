"""Creates and confirms a planted bug from a spec file, in a scratch copy of /repo.

usage: plant.py SPEC.py [--check] -- SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
(python source).  Writes /verif/seeded/<ID>/ only when the existing tests still pass with the change and the
demonstration passes without it and fails with it.  With --check, runs the property's quick check on the copy.
"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
copy = os.path.join(base, "repo")
try:
    subprocess.check_call(["cp", "-a", "/repo", copy])
    out = os.path.join(VERIF, "seeded", ID)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# Fails when the planted change is present.\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2\nPYTHONPATH=$PWD exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    def demo(): return subprocess.run(["timeout", "280", "bash", os.path.join(out, "demo.sh")], cwd=copy, capture_output=True, text=True)
    d0 = demo()
    first = subprocess.check_output(["git", "-C", copy, "log", "--format=%H", "--max-parents=0"], text=True).split()[0]
    for f, old, new in spec["EDITS"]:
        before = set(subprocess.check_output(["git", "-C", copy, "show", f"{first}:{f}"], text=True).splitlines())
        gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        if not any(l in before for l in gone):
            print("   note: no changed line belongs to the original tree", gone)
        p = os.path.join(copy, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    d1 = demo()
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=copy)
    t = subprocess.run("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 2>&1 | tail -4", shell=True, cwd=copy, env=env, capture_output=True, text=True)
    where = subprocess.check_output(["/opt/venv/bin/python", "-c", "import pycircstat2; print(pycircstat2.__file__)"], cwd=copy, env=env, text=True).strip()
    ok = d0.returncode == 0 and d1.returncode != 0 and " failed" not in t.stdout and " passed" in t.stdout and where.startswith(copy)
    print(ID, "demo without:", d0.returncode, "with:", d1.returncode, "| tests:", t.stdout.strip().splitlines()[-1], "|", "KEEP" if ok else "REJECT")
    if not ok:
        print(d0.stdout[-500:], d0.stderr[-500:], "---", d1.stdout[-500:], d1.stderr[-500:], t.stdout)
        shutil.rmtree(out)
    elif "--check" in sys.argv:
        env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
        props = [spec["PROPERTY"]] + sys.argv[sys.argv.index("--check") + 1:]
        for pr in props:
            r = subprocess.run(["./check", pr, "--tier", "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print("   check", pr, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and lines else "MISSED", lines[:2])
            if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
finally:
    shutil.rmtree(base)
