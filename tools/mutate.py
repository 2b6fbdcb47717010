"""mutate.py FILE.py N SEED PROPS [--jobs J] [--func REGEX] : samples N single-point mutants of pycircstat2/FILE.py and reports the survivors."""
import ast, os, random, re, shutil, subprocess, sys, tempfile
TOOLS = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
fname, N, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
func = re.compile(sys.argv[sys.argv.index("--func") + 1]) if "--func" in sys.argv else None
skip = re.compile(r"__repr__|__str__|summary|_clean_loglik|print")
path = os.path.join(REPO, "pycircstat2", fname)
src = open(path).read(); lines = src.splitlines(keepends=True)
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()))
bsrc = src.encode()
def pos(l, c): return off[l - 1] + c
muts = []
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "+"}
def seg(n): return bsrc[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
def add(fn, n, new): muts.append((fn, n.lineno, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new))
def walk(n, fn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        fn2 = (fn + "." if fn else "") + n.name
        for c in n.body: walk(c, fn2)
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None: walk(d, fn2)
        return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
    if isinstance(n, ast.Raise): return
    if isinstance(n, ast.AnnAssign):
        if n.value is not None: walk(n.value, fn)
        return
    if fn:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(fn, n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(fn, n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})")
                if random.Random(pos(n.lineno, n.col_offset)).random() < .3: add(fn, n, f"({seg(n.left)})")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            add(fn, n, repr(v + 1) if isinstance(v, int) else repr(v * 1.1 if v else 0.1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(fn, n, repr(not n.value))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(fn, n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            add(fn, n, f"({seg(n.operand)})")
        elif isinstance(n, ast.If):
            add(fn, n.test, "(True)"); add(fn, n.test, "(False)")
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and isinstance(n.targets[0], ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value))):
            add(fn, n, "pass")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1 and n.args:
                    s = pos(k.lineno, k.col_offset); e = pos(k.end_lineno, k.end_col_offset)
                    m = re.match(rb"\s*,", bsrc[e:]); e2 = e + (m.end() if m else 0)
                    muts.append((fn, k.lineno, s, e2, ""))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("clip", "maximum", "minimum", "abs", "sort", "round", "mod", "log1p", "asarray") and n.args:
                add(fn, n, f"({seg(n.args[0])})")
            elif seg(n.func) in ("angmod", "abs", "max", "min") and n.args:
                add(fn, n, f"({seg(n.args[0])})")
    for c in ast.iter_child_nodes(n): walk(c, fn)
walk(ast.parse(src), "")
muts = [m for m in muts if not skip.search(m[0]) and (func is None or func.search(m[0]))]
byf = {}
for m in muts: byf.setdefault(m[0], []).append(m)
rng = random.Random(seed)
for v in byf.values(): rng.shuffle(v)
names = sorted(byf); rng.shuffle(names)
# functions weighted by the square root of their number of mutants
chosen = []; 
want = {k: max(1, round(N * len(byf[k]) ** .6 / sum(len(x) ** .6 for x in byf.values()))) for k in names}
for k in names: chosen += byf[k][:want[k]]
rng.shuffle(chosen)
chosen = chosen[:N]
print(len(muts), "mutants,", len(chosen), "chosen", flush=True)
base = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
shutil.copytree(os.path.join(REPO, "pycircstat2"), os.path.join(base, "pycircstat2"), ignore=shutil.ignore_patterns("__pycache__"))
res = {}
try:
    for fn, ln, s, e, new in chosen:
        out = bsrc[:s] + new.encode() + bsrc[e:]
        try: compile(out, fname, "exec")
        except SyntaxError: continue
        open(os.path.join(base, "pycircstat2", fname), "wb").write(out)
        env = dict(os.environ, VERIF_REPO=base, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=base)
        try:
            r = subprocess.run(["/opt/venv/bin/python", os.path.join(TOOLS, "mutrun.py"), props], env=env, cwd=base, capture_output=True, text=True, timeout=1500)
            last = [l for l in r.stdout.splitlines() if l.split(" ")[0] in ("KILLED", "SURVIVED", "ERROR")]
            verdict = last[-1] if last else "CRASH " + r.stderr[-200:].replace("\n", " ")
        except subprocess.TimeoutExpired:
            verdict = "TIMEOUT"
        res[verdict.split(" ")[0]] = res.get(verdict.split(" ")[0], 0) + 1
        tag = "" if verdict.startswith("SURVIVED") else " | "
        print(("*** " if verdict.startswith("SURV") else "    ") + f"{fn}:{ln}: `{bsrc[s:e].decode()[:110]}` -> `{new[:110]}`  {verdict[:150]}".replace("\n", "\\n"), flush=True)
finally:
    shutil.rmtree(base)
print(res, flush=True)
