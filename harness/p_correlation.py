import math
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm as gauss, chi2, rankdata
from pycircstat2 import Circular
from pycircstat2.correlation import circ_corrcc, circ_corrcl
from core import facet, Skip
import gen
from gen import *

PAIR = st.builds(lambda n, mu, k, b, s, noise, grid: dict(n=n, mu=mu, kappa=k, slope=b, seed=s, noise=noise, grid=grid),
                 st.integers(5, 60), ANGLE, log_uniform(0.2, 30.0), st.sampled_from([-2, -1, 0, 0, 1, 1, 2]), SEEDS, log_uniform(0.1, 50.0), st.sampled_from([0, 0, 0, 12, 36]))
SMALL_PAIR = st.builds(lambda a, b: dict(a=a, b=b), st.lists(ANGLE, min_size=5, max_size=10), st.lists(ANGLE, min_size=10, max_size=10))


def pair(c):
    if "a" in c:
        return np.array(c["a"]), np.array(c["b"][:len(c["a"])])
    r = np.random.default_rng(c["seed"])
    a = gen.vm_draw(r, c["mu"], c["kappa"], c["n"])
    b = norm(c["slope"] * a + r.vonmises(0, c["noise"], c["n"]) + 1.0)
    if c["grid"]:
        a, b = norm(np.round(a * c["grid"] / TWO_PI) * TWO_PI / c["grid"]), norm(np.round(b * c["grid"] / TWO_PI) * TWO_PI / c["grid"])
    return a, b


def near_ties(a):
    u = np.unique(norm(a))
    return np.any(np.diff(u) < 1e-9) or (u.size > 1 and u[0] + TWO_PI - u[-1] < 1e-9)


def one_zero(a, seed):
    """One of the observations on the origin is given as a full turn."""
    z = np.flatnonzero(a == 0)
    b = a.copy()
    if z.size:
        b[z[seed % z.size]] = TWO_PI
    return b


def exact_turns(a, shifts):
    """Whole turns of single observations, kept only where they come off again without rounding."""
    b = a + TWO_PI * np.where(a == 0, np.sign(gen.turn_counts(a, shifts)), gen.turn_counts(a, shifts))
    return np.where(np.mod(b, TWO_PI) == a, b, a)


def fl(a, b):
    i, j = np.triu_indices(len(a), 1)
    x, y = np.sin(a[i] - a[j]), np.sin(b[i] - b[j])
    return np.sum(x * y), math.sqrt(np.sum(x * x) * np.sum(y * y))


def js(a, b):
    z, w = np.exp(1j * a), np.exp(1j * b)
    x, y = (z * np.conj(z.mean()) / abs(z.mean())).imag, (w * np.conj(w.mean()) / abs(w.mean())).imag
    return x, y


def nonpar(a, b):
    n = len(a)
    u, v = TWO_PI * rankdata(norm(a)) / n, TWO_PI * rankdata(norm(b)) / n
    return (abs(np.sum(np.exp(1j * (u - v)))) ** 2 - abs(np.sum(np.exp(1j * (u + v)))) ** 2) / n**2


def admissible(method, a, b):
    if method == "fl":
        return fl(a, b)[1] > 1e-4
    if method == "js":
        if min(abs(np.exp(1j * a).mean()), abs(np.exp(1j * b).mean())) < 1e-3:
            return False
        x, y = js(a, b)
        return math.sqrt(np.sum(x * x) * np.sum(y * y)) > 1e-4
    return True


METHOD = st.sampled_from(["fl", "js", "nonparametric"])


@facet("A01", "group_action", st.fixed_dictionaries(dict(p=st.one_of(PAIR, PAIR, SMALL_PAIR), m=METHOD, ra=ROT, rb=ROT, ta=SHIFT, tb=SHIFT, pseed=SEEDS, refl=st.sampled_from(["a", "b", "both"]))),
       quick=2000, shards=2, rule="coefficient not within 0.001 of zero")
def a01_group(c, t):
    a, b = pair(c["p"]); m = c["m"]
    if not admissible(m, a, b):
        raise Skip()
    ties = len(set(a)) < len(a) or len(set(b)) < len(b)
    if m == "nonparametric" and (near_ties(a) or near_ties(b)):
        raise Skip()   # rounding may make or break a tie
    t.label(m)
    f = lambda x, y: float(circ_corrcc(x, y, method=m, strict=False))
    r = f(a, b)
    t.true(-1 - 1e-9 <= r <= 1 + 1e-9, f"coefficient {r} outside [-1,1]")
    t.nontrivial(abs(r) > 1e-3)
    tol = 1e-7
    t.close(f(b, a), r, f"{m}: swap", atol=tol)
    p = perm(len(a), c["pseed"])
    t.close(f(a[p], b[p]), r, f"{m}: reordering pairs", atol=tol)
    s = -1 if c["refl"] != "both" else 1
    if m == "nonparametric" and ties:
        t.label("ties")
        for x, y in ((a, one_zero(b, c["pseed"])), (one_zero(a, c["pseed"]), b)):
            t.close(f(x, y), r, f"{m}: origin given as a full turn {list(x)} {list(y)}", atol=tol)
        a2, b2 = exact_turns(a, c["ta"]), exact_turns(b, c["tb"])
        if np.any(a2 != a) or np.any(b2 != b):
            t.label("turns of tied data")
            t.close(f(a2, b2), r, f"{m}: whole turns of tied directions {list(a2)} {list(b2)}", atol=tol)
        return
    t.close(f(a + c["ra"], b + c["rb"]), r, f"{m}: rotation", atol=tol)
    t.close(f(norm(a + c["ra"]), norm(b + c["rb"])), r, f"{m}: rotation", atol=tol)
    gap = min(np.min(np.diff(np.sort(norm(a)))), np.min(np.diff(np.sort(norm(b)))), np.min(norm(a)), np.min(norm(b)), TWO_PI - np.max(norm(a)), TWO_PI - np.max(norm(b)))
    if m != "nonparametric" or gap > 1e-9:
        t.close(f(add_turns(a, c["ta"]), add_turns(b, c["tb"])), r, f"{m}: whole turns", atol=tol)
    x = -a if c["refl"] in ("a", "both") else a
    y = -b if c["refl"] in ("b", "both") else b
    t.close(f(x, y), s * r, f"{m}: reflection of {c['refl']}", atol=tol)


@facet("A01", "extremes", st.fixed_dictionaries(dict(n=st.integers(5, 50), mu=ANGLE, k=log_uniform(0.2, 20), seed=SEEDS, off=ANGLE, m=METHOD, sign=st.sampled_from([1, -1]))), quick=600, rule="always")
def a01_extreme(c, t):
    a = gen.vm_draw(np.random.default_rng(c["seed"]), c["mu"], c["k"], c["n"])
    b = norm(c["sign"] * a + c["off"])
    if not admissible(c["m"], a, b):
        raise Skip()
    t.nontrivial(True); t.label(c["m"])
    t.close(circ_corrcc(a, b, method=c["m"], strict=False), float(c["sign"]), "perfect association", atol=1e-6)


@facet("A02", "circular_circular", st.fixed_dictionaries(dict(p=st.one_of(PAIR, PAIR, SMALL_PAIR), m=METHOD, form=st.sampled_from(["array", "list", "object", "mixed"]), case=st.booleans())),
       quick=1500, shards=2, rule="coefficient not within 0.001 of zero")
def a02_cc(c, t):
    a, b = pair(c["p"]); m = c["m"]
    if not admissible(m, a, b):
        raise Skip()
    n = len(a)
    if m == "fl" and min(fl(np.delete(a, i), np.delete(b, i))[1] for i in range(n)) < 1e-4:
        raise Skip()   # the jackknife leaves a degenerate sample
    if m == "js":
        x, y = js(a, b)
        if np.mean(x**2 * y**2) < 1e-6:
            raise Skip()
    ka, kb = a.copy(), b.copy()
    mk = lambda x: Circular(x, unit="radian", kwargs_median={"method": "none"})
    form = c["form"]
    if form in ("object", "mixed") and 8 <= n < 25:
        form = "array"   # building such objects runs a bootstrap
    A = mk(a) if form in ("object", "mixed") else (a.tolist() if form == "list" else a)
    B = mk(b) if form == "object" else (b.tolist() if form == "list" else b)
    t.label(m + "/" + form)
    meth = m.upper() if c["case"] else m
    r = circ_corrcc(A, B, method=meth, strict=False)
    res = circ_corrcc(A, B, method=meth, test=True, strict=False)
    t.close(res.r, r, "coefficient with and without test")
    if m == "fl":
        num, den = fl(a, b)
        t.close(r, num / den, "T-linear association", atol=1e-9)
        sub = []
        for i in range(n):
            u, v = fl(np.delete(a, i), np.delete(b, i))
            sub.append(u / v)
        ctr = n * (num / den) - (n - 1) * np.mean(sub); hw = gauss.ppf(0.975) * math.sqrt(np.var(sub, ddof=1) / n)
        if min(abs(ctr - hw), abs(ctr + hw)) > 1e-7:
            t.true(bool(res.reject_null) == (not (ctr - hw <= 0 <= ctr + hw)), f"jackknife decision {res.reject_null}; interval {ctr - hw},{ctr + hw}")
            t.label("reject" if res.reject_null else "keep")
    elif m == "js":
        x, y = js(a, b)
        want = np.sum(x * y) / math.sqrt(np.sum(x * x) * np.sum(y * y))
        t.close(r, want, "sine correlation", atol=1e-8)
        if np.mean(x**2 * y**2) > 1e-6:
            z = math.sqrt(n) * math.sqrt(np.mean(x * x) * np.mean(y * y) / np.mean(x * x * y * y)) * want
            t.close(res.test_stat, z, "test statistic", rtol=1e-6, atol=1e-7)
            t.close(res.p_value, 2 * gauss.sf(abs(z)), "p-value", atol=1e-7)
    else:
        gaps = np.r_[np.diff(np.sort(a)), np.diff(np.sort(b))]
        if np.any((gaps > 0) & (gaps < 1e-9)):
            raise Skip()   # unit conversion may turn near-ties into ties
        want = nonpar(a, b)
        t.close(r, want, "rank coefficient", atol=1e-9)
        if abs((n - 1) * want - (2.99 + 2.16 / n)) > 1e-9:
            t.true(bool(res.reject_null) == ((n - 1) * want > 2.99 + 2.16 / n), "rank decision")
            t.label("reject" if res.reject_null else "keep")
    t.nontrivial(abs(r) > 1e-3)
    t.true(np.array_equal(a, ka) and np.array_equal(b, kb), "inputs modified")


@facet("A02", "strict", st.fixed_dictionaries(dict(n=st.one_of(st.integers(5, 7), st.integers(25, 60)), k1=log_uniform(0.05, 3), k2=log_uniform(0.05, 3), seed=SEEDS, arrays=st.booleans())), quick=300, rule="one variable looks uniform, the other anything",
       examples=[dict(n=30, k1=0.01, k2=0.01, seed=1, arrays=False)])
def a02_strict(c, t):
    r = np.random.default_rng(c["seed"])
    a, b = gen.vm_draw(r, 1.0, c["k1"], c["n"]), gen.vm_draw(r, 2.0, c["k2"], c["n"])
    if not admissible("js", a, b):
        raise Skip()
    A, B = Circular(a, unit="radian"), Circular(b, unit="radian")
    pa, pb = float(A.mean_test_result.pval), float(B.mean_test_result.pval)
    if min(abs(pa - 0.05), abs(pb - 0.05)) < 1e-6:
        raise Skip()
    bad = max(pa, pb) >= 0.05
    t.nontrivial(bad); t.label("uniform" if bad else "directed")
    want = circ_corrcc(a, b, method="js", strict=False)
    t.close(circ_corrcc(A, B, method="js", strict=False), want, "lenient mode", atol=1e-10)
    try:
        got = circ_corrcc(A, B, method="js", strict=True)
    except ValueError:
        got = None
    t.true((got is None) == bad, f"strict mode with p-values {pa},{pb}: {'refused' if got is None else 'accepted'}")
    if got is not None:
        t.close(got, want, "strict mode value", atol=1e-10)
        t.close(circ_corrcc(A, B, method="js"), want, "strict is the default", atol=1e-10)
    else:
        try:
            t.fail(f"a uniform sample was accepted by default: {circ_corrcc(A, B, method='js')}")
        except ValueError:
            pass


@facet("A02", "circular_linear", st.fixed_dictionaries(dict(p=st.one_of(PAIR, SMALL_PAIR), beta=finite(-3, 3), g=finite(-3, 3), noise=finite(0.01, 3), seed=SEEDS, rot=ROT, refl=st.booleans(), sc=st.one_of(finite(0.1, 50), finite(-50, -0.1)), sh=finite(-100, 100), pseed=SEEDS, turns=SHIFT, obj=st.booleans())),
       quick=1200, rule="coefficient between 0.01 and 0.999")
def a02_cl(c, t):
    a, _ = pair(c["p"]); n = len(a)
    x = c["beta"] * np.cos(a) + c["g"] * np.sin(a) + c["noise"] * np.random.default_rng(c["seed"]).normal(size=n)
    co, si = np.cos(a), np.sin(a)
    if min(co.std(), si.std()) < 1e-3 or x.std() < 1e-3 or 1 - np.corrcoef(co, si)[0, 1] ** 2 < 1e-4:
        raise Skip()
    if n >= 25 and c["obj"]:
        res = circ_corrcl(Circular(a, unit="radian", kwargs_median={"method": "none"}), x); t.label("object")
    else:
        res = circ_corrcl(a, x)
    X = np.c_[np.ones(n), co, si]
    beta = np.linalg.lstsq(X, x, rcond=None)[0]
    r2 = 1 - np.sum((x - X @ beta) ** 2) / np.sum((x - x.mean()) ** 2)   # multiple correlation on cos, sin
    r2 = max(r2, 0)
    t.nontrivial(1e-4 < r2 < 0.998)
    t.close(res.r**2, r2, "multiple correlation with cosine and sine", atol=1e-7)
    t.close(res.p_value, chi2.sf(n * r2, 2), "p-value", atol=1e-6, rtol=1e-5)
    t.true(0 <= res.r <= 1 + 1e-9, "coefficient in [0,1]")
    b = -a if c["refl"] else a
    p = perm(n, c["pseed"])
    g = circ_corrcl(add_turns(norm(b + c["rot"]), c["turns"])[p], (c["sc"] * x + c["sh"])[p])
    co2, si2 = np.cos(b + c["rot"]), np.sin(b + c["rot"])
    if 1 - np.corrcoef(co2, si2)[0, 1] ** 2 < 1e-4:
        return
    t.close(g.r**2, r2, "rotation, reflection, affine change, reordering", atol=1e-7)


@facet("A02", "refuse", st.fixed_dictionaries(dict(n=st.integers(3, 9), m=st.text(max_size=6))), quick=60, rule="always")
def a02_refuse(c, t):
    t.nontrivial(True)
    a = np.linspace(0, 3, c["n"]); b = np.linspace(1, 2, c["n"] + 1)
    bad = [lambda m=m: circ_corrcc(a, b, method=m) for m in ("fl", "js", "nonparametric")] + [lambda: circ_corrcl(a, b), lambda: circ_corrcl(b, a), lambda: circ_corrcl(a, a[:, None]), lambda: circ_corrcl(a[:2], b[:2])]
    if c["m"].lower() not in ("fl", "js", "nonparametric"):
        bad.append(lambda: circ_corrcc(a, a[::-1], method=c["m"]))
    for f in bad:
        try:
            f()
        except ValueError:
            continue
        t.fail("unequal lengths or unknown method accepted")


@facet("A02", "rank_decision", st.fixed_dictionaries(dict(n=st.integers(5, 12), seed=SEEDS)), quick=60, rule="the two closest orderings are decided differently")
def a02_rank_decision(c, t):
    """Orderings whose statistic falls just below and just above the published 5% point (Fisher 1993, section 6.3.4)."""
    n = c["n"]; r = np.random.default_rng(c["seed"]); base = np.arange(n); C = TWO_PI / n
    stat = lambda o: (abs(np.exp(1j * C * (base - o)).sum()) ** 2 - abs(np.exp(1j * C * (base + o + 2)).sum()) ** 2) / n**2
    pool = [r.permutation(n) for _ in range(300)]
    for i in range(20):       # orderings close to perfect agreement, where the decision lies for small samples
        o = base.copy()
        for _ in range(r.integers(1, 4)):
            j = r.integers(0, n); o[[j, (j + 1) % n]] = o[[(j + 1) % n, j]]
        pool.append(o)
    m = np.array([(n - 1) * stat(o) - 2.99 - 2.16 / n for o in pool])
    a = np.sort(r.uniform(0, TWO_PI, n)); b = np.sort(r.uniform(0, TWO_PI, n))
    seen = set()
    for side in (m > 1e-9, m < -1e-9):
        if not side.any():
            continue
        i = np.flatnonzero(side)[np.argmin(np.abs(m[side]))]
        g = circ_corrcc(a, b[pool[i]], method="nonparametric", test=True)
        t.close(g.r, stat(pool[i]), "rank correlation", atol=1e-9)
        t.true(bool(g.reject_null) == bool(m[i] > 0), f"decision at margin {m[i]}: {g.reject_null}"); seen.add(bool(m[i] > 0))
    t.nontrivial(len(seen) == 2)
