"""Property-based-testing runner: facets, Hypothesis driver, evidence, replay.

A *facet* is one executable check belonging to one property.  It has a
Hypothesis strategy producing JSON-serialisable cases and a check function
``check(case, t)`` that raises :class:`Violation` when the property is broken.
All randomness comes from Hypothesis, seeded by VERIF_SEED; cases that need
bulk numbers carry an integer seed (drawn by Hypothesis) that is expanded
deterministically.
"""
import hashlib, json, math, os, sys, time, traceback, warnings, multiprocessing, signal

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_DIR = os.path.join(os.path.realpath(REPO), "pycircstat2") + os.sep
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TWO_PI = 2.0 * math.pi


class Violation(AssertionError):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's domain (counted as discarded)."""


class CaseTimeout(BaseException):
    pass


class T:
    """Per-case context: classification and assertion helpers."""

    def __init__(self):
        self.nontriv = False
        self.labels = []

    def nontrivial(self, flag=True):
        self.nontriv = self.nontriv or bool(flag)

    def label(self, s):
        self.labels.append(str(s))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def true(self, cond, msg, key=None):
        if not bool(cond):
            raise Violation(msg, key)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-9, key=None, nan_ok=True):
        g = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float)
        w = np.asarray(want, dtype=complex if np.iscomplexobj(want) else float)
        if g.shape != w.shape:
            try:
                np.broadcast_shapes(g.shape, w.shape)
            except ValueError:
                raise Violation(f"{msg}: shape {g.shape} != {w.shape}", key)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=nan_ok):
            with np.errstate(all="ignore"):
                d = np.abs(g - w)
            raise Violation(f"{msg}: got {_short(got)} want {_short(want)} maxdiff={np.nanmax(d) if np.any(np.isfinite(d)) else 'nan/inf'}", key)

    def angle_close(self, got, want, msg, atol=1e-8, key=None, period=TWO_PI):
        g = np.asarray(got, float); w = np.asarray(want, float)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} != {w.shape}", key)
        bad_nan = np.isnan(g) != np.isnan(w)
        with np.errstate(invalid="ignore"):
            d = np.abs((g - w + period / 2) % period - period / 2)
        if np.any(bad_nan) or np.any(d[~np.isnan(d)] > atol if d.ndim else (d > atol)):
            raise Violation(f"{msg}: got angle {_short(got)} want {_short(want)}", key)


def _short(x):
    s = np.array2string(np.asarray(x), precision=12, threshold=12) if not isinstance(x, (float, int)) else repr(x)
    return s.replace("\n", " ")[:300]


class Facet:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, shards=1, examples=(), case_timeout=120):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.examples = list(examples)
        self.case_timeout = case_timeout


REGISTRY = {}


def facet(prop, name, strategy, quick=100, thorough=None, rule="", shards=1, examples=()):
    def deco(fn):
        f = Facet(prop, name, strategy, fn, quick, thorough if thorough is not None else quick * 20, rule, shards, examples)
        fs = REGISTRY.setdefault(prop, {})
        assert name not in fs, (prop, name)
        fs[name] = f
        return fn
    return deco


def _from_library(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG_DIR):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise CaseTimeout("case exceeded its time limit")


def run_case(f, case):
    """Runs one case.  Returns T; raises Violation / Skip / other (harness error)."""
    t = T()
    before = np.random.get_state()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            f.check(case, t)
    except (Violation, Skip):
        raise
    except Exception as e:
        if _from_library(e.__traceback__):
            v = Violation(f"library raised {type(e).__name__}: {str(e)[:300]}")
            v.__cause__ = e
            raise v
        raise
    return t


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def _facet_seed(seed, f, shard):
    h = hashlib.sha256(f"{seed}:{f.prop}:{f.name}:{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_facet(args):
    prop, name, shard, nshards, tier, seed, budget_s = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    f = REGISTRY[prop][name]
    known = {k["key"] for k in load_known() if k.get("property") == prop}
    total = f.quick if tier == "quick" else f.thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(math.ceil(total * scale / nshards)))
    st = dict(prop=prop, facet=name, shard=shard, evaluations=0, discarded=0, nontrivial=0, labels={}, samples=[],
              violation=None, error=None, known_hits={}, budget_hit=False, planned=n)
    seen = set()
    t0 = time.time()
    last = {}

    class Stop(Exception):
        pass

    def one(case, reject):
        if last.get("fail") is None and time.time() - t0 > budget_s:
            st["budget_hit"] = True
            return
        counting = last.get("fail") is None
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, f.case_timeout)      # processor time: independent of the load of the machine
        signal.alarm(4 * f.case_timeout)
        try:
            t = run_case(f, case)
        except Skip:
            if counting:
                st["discarded"] += 1
            reject()
            return
        except Violation as v:
            if counting:
                st["evaluations"] += 1
            if v.key is not None and v.key in known:
                st["known_hits"][v.key] = st["known_hits"].get(v.key, 0) + 1
                return
            last["fail"] = (case, str(v), _tb(v))
            raise
        except CaseTimeout:
            if last.get("fail") is None:
                st["evaluations"] += 1
                st["violation"] = dict(case=case, message=f"the library did not return within {f.case_timeout} s of processor time", traceback="")
            raise Stop()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
        if counting:
            st["evaluations"] += 1
            for lb in t.labels:
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if t.nontriv:
                h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
                if h not in seen:
                    seen.add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)

    class Rej(Exception):
        pass

    try:
        if shard == 0:
            def rej0():
                pass
            for ex in f.examples:
                one(ex, rej0)
        phases = [Phase.generate, Phase.shrink]

        @hypothesis.seed(_facet_seed(seed, f, shard))
        @settings(max_examples=n, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False)
        @given(f.strategy)
        def test(case):
            one(case, hypothesis.reject)

        test()
    except Violation as v:
        case, msg, tb = last["fail"]
        st["violation"] = dict(case=case, message=msg, traceback=tb)
    except Stop:
        if last.get("fail") is not None and st["violation"] is None:
            case, msg, tb = last["fail"]
            st["violation"] = dict(case=case, message=msg, traceback=tb)
    except BaseException as e:
        if st["violation"] is not None:
            pass                    # a case that did not return; hypothesis reports it as flaky
        elif last.get("fail") is not None and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            # e.g. hypothesis Flaky: keep the observed failure, but verify it again
            case, msg, tb = last["fail"]
            try:
                run_case(f, case)
                st["error"] = f"flaky: {type(e).__name__}: {e}: case no longer fails: {json.dumps(case)[:1500]} ({msg})"
            except Violation as v:
                st["violation"] = dict(case=case, message=str(v), traceback=_tb(v))
            except BaseException as e2:
                st["error"] = "".join(traceback.format_exception(e2))[-3000:]
        else:
            st["error"] = "".join(traceback.format_exception(e))[-3000:]
    st["nontrivial"] = len(seen)
    st["wall"] = time.time() - t0
    return st


def _tb(v):
    e = v.__cause__ or v
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]


def run_property(prop, tier, seed, only=None, jobs=None):
    t0 = time.time()
    facets = REGISTRY[prop]
    budget = float(os.environ.get("VERIF_FACET_BUDGET", "240" if tier == "quick" else "7200"))
    tasks = []
    for name, f in facets.items():
        if only and name not in only:
            continue
        sh = f.shards if tier == "quick" else max(f.shards, 8)
        for s in range(sh):
            tasks.append((prop, name, s, sh, tier, seed, budget))
    # longest first is unknown; keep declaration order
    jobs = jobs or min(len(tasks), int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    results = []
    if jobs <= 1:
        results = [run_facet(a) for a in tasks]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs, maxtasksperchild=1) as pool:
            it = [pool.apply_async(run_facet, (a,)) for a in tasks]
            limit = t0 + (840 if tier == "quick" else 36000)
            for a, r in zip(tasks, it):
                try:
                    results.append(r.get(max(1.0, limit - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(prop=prop, facet=a[1], shard=a[2], evaluations=0, discarded=0, nontrivial=0, labels={},
                                        samples=[], violation=None, error="facet timed out (inconclusive)", known_hits={},
                                        budget_hit=True, wall=0, planned=0))
            pool.terminate()
    # known findings: re-run the stored reproducers
    known_lines = []
    for k in load_known():
        if k.get("property") != prop or k.get("facet") not in facets:
            continue
        try:
            run_case(facets[k["facet"]], k["case"])
        except Violation as v:
            if v.key == k["key"]:
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
            else:
                results.append(dict(prop=prop, facet=k["facet"], shard=-1, evaluations=1, discarded=0, nontrivial=1, labels={}, samples=[],
                                    violation=dict(case=k["case"], message=str(v), traceback=_tb(v)), error=None, known_hits={}, budget_hit=False, wall=0, planned=1))
        except Skip:
            pass
    return summarise(prop, tier, seed, results, known_lines, time.time() - t0)


def summarise(prop, tier, seed, results, known_lines, wall):
    per = {}
    for r in results:
        p = per.setdefault(r["facet"], dict(evaluations=0, discarded=0, nontrivial=0, labels={}, wall=0.0, budget_hit=False))
        p["evaluations"] += r["evaluations"]; p["discarded"] += r["discarded"]; p["nontrivial"] += r["nontrivial"]
        p["wall"] = round(max(p["wall"], r.get("wall", 0)), 2); p["budget_hit"] |= r["budget_hit"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append(dict(facet=r["facet"], case=s))
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    rules = {n: f.rule for n, f in REGISTRY[prop].items() if n in per}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()),
                            distinct_nontrivial=sum(p["nontrivial"] for p in per.values()),
                            rule="Hypothesis-generated cases per facet; non-trivial means: " + "; ".join(f"[{n}] {r}" for n, r in rules.items()),
                            samples=samples, facets=per, discarded=sum(p["discarded"] for p in per.values())),
              wall_s=round(wall, 2))
    khits = {}
    for r in results:
        for k, v in r["known_hits"].items():
            khits[k] = khits.get(k, 0) + v
    if khits:
        ev["coverage"]["known_finding_hits"] = khits
    replays = []
    for r in violations:
        d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
        h = hashlib.md5(json.dumps(r["violation"]["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{prop}-{r['facet']}-{h}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, facet=r["facet"], case=r["violation"]["case"], message=r["violation"]["message"],
                           seed=seed, how=f"./check {prop} --replay {path}"), fh, indent=1)
        replays.append((path, r))
    ev["violations"] = len(replays)
    d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    return ev, replays, errors, known_lines
