import math
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, norm as gauss
from scipy.special import i0e, i1e
from scipy.optimize import brentq
from pycircstat2 import descriptive as D, utils as U
from core import facet, Skip
import gen
from gen import *

C2 = lambda a, w, p=1, m=0.0: complex(np.sum((np.ones(len(a)) if w is None else w) * np.exp(1j * p * (np.asarray(a) - m))) / (len(a) if w is None else np.sum(w)))


def kappa_formula(r, n=None):
    k = 2 * r + r**3 + 5 * r**5 / 6 if r < 0.53 else (-0.4 + 1.39 * r + 0.43 / (1 - r) if r < 0.85 else 1 / (r**3 - 4 * r**2 + 3 * r))
    if n is not None and n <= 15:
        k2 = (max(k - 2 / (n * k), 0) if k > 0 else 0.0) if k < 2 else (n - 1) ** 3 * k / (n**3 + n)
        return (k2, k2) if r < 0.7 else (k, k2)
    return (k, k)


def call_w(fn, a, w, **kw):
    """Alternates between omitting and passing the weights."""
    return fn(a, **kw) if w is None else fn(a, w, **kw)


# ------------------------------------------------------------------ D01
@facet("D01", "moments", st.fixed_dictionaries(dict(s=spread_sample(1, 60), w=OPT_W, p=st.integers(-3, 6), mean=st.one_of(st.none(), ANY_ANGLE), aslist=st.booleans())),
       quick=1500, rule="at least two distinct angles")
def d01_moments(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"]); p = c["p"]
    t.nontrivial(len(set(a.tolist())) > 1); t.label("weighted" if w is not None else "plain")
    z = C2(a, w)
    r = call_w(D.circ_r, a, w)
    t.close(r, abs(z), "resultant length", atol=1e-12)
    t.true(0 <= r <= 1, f"resultant length {r!r} outside [0,1]")
    cb, sb = D.compute_C_and_S(a, np.ones(len(a)) if w is None else w)
    t.close([cb, sb], [z.real, z.imag], "mean cosine and sine", atol=1e-12)
    t.close(D.circ_r(Cbar=cb, Sbar=sb), abs(z), "resultant length from components", atol=1e-12)
    m = call_w(D.circ_mean, a, w); m2, r2 = call_w(D.circ_mean_and_r, a, w)
    t.close(r2, abs(z), "resultant length (joint)", atol=1e-12)
    if abs(z) > 1e-7:
        t.angle_close(m, np.angle(z), "mean direction", atol=1e-8)
        t.angle_close(m2, np.angle(z), "mean direction (joint)", atol=1e-8)
        t.true(0 <= m < TWO_PI and 0 <= m2 < TWO_PI, f"mean {m} not within one turn")
    elif abs(z) < 1e-14:
        t.label("zero resultant")
        t.true(np.isnan(m) and np.isnan(m2), f"mean direction of balanced data reported as {m},{m2}")
    # moments of order p
    mean = c["mean"]
    if mean is None:
        t.close(call_w(D.circ_moment, a, w, p=p), C2(a, w, p), f"raw moment of order {p}", atol=1e-11)
        if abs(z) > 1e-6:
            t.close(call_w(D.circ_moment, a, w, p=p, centered=True), C2(a, w, p, np.angle(z)), f"centred moment {p}", atol=1e-7)
    else:
        t.close(call_w(D.circ_moment, a, w, p=p, mean=mean), C2(a, w, p, mean), f"moment of order {p} about {mean}", atol=1e-11)
        t.close(call_w(D.circ_moment, a, w, p=p, mean=mean, centered=True), C2(a, w, p, mean), f"moment of order {p} about given mean", atol=1e-11)
    mp = C2(a, w, p)
    u, rho = D.convert_moment(mp)
    t.close(rho, abs(mp), "moment modulus", atol=1e-12)
    if abs(mp) > 1e-9:
        t.angle_close(u, np.angle(mp), "moment angle", atol=1e-12)
        t.true(0 <= u < TWO_PI, "moment angle within one turn")


@facet("D01", "spread", st.fixed_dictionaries(dict(s=spread_sample(1, 60), w=OPT_W, bin=st.one_of(st.none(), st.just(0), finite(0.01, 1.5)), given_r=st.booleans())),
       quick=1500, rule="0 < resultant < 1")
def d01_spread(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"]); b = c["bin"]
    r = min(1.0, abs(C2(a, w)))
    if w is not None and b is None and not np.all(w == w[0]):
        d = np.diff(np.sort(a))
        if len(a) < 2 or 0 < d.min() <= 1e-6 or d.min() > 3:
            b = 0
            t.label("explicit zero bin")
        else:
            t.label("inferred bin")
    kw = {} if b is None else {"bin_size": b}
    eff = b
    if b is None and w is not None and not np.all(w == w[0]):
        eff = float(np.diff(np.sort(a)).min())
    rc = r if not eff else r * (eff / 2) / math.sin(eff / 2)
    args = dict(alpha=a, w=w) if not c["given_r"] else dict(alpha=a, w=w, r=r)
    t.nontrivial(1e-9 < r < 1 - 1e-9); t.label("bin" if eff else "nobin")
    t.close(D.circ_var(**args, **kw), 1 - rc, "circular variance", atol=1e-12)
    t.close(D.angular_var(**args, **kw), 2 * (1 - rc), "angular variance", atol=1e-12)
    if rc < 1 - 1e-9:
        t.close(D.angular_std(**args, **kw), math.sqrt(2 * (1 - rc)), "angular deviation", atol=1e-7)
        if rc > 1e-8:
            t.close(D.circ_std(**args, **kw), math.sqrt(-2 * math.log(rc)), "circular standard deviation", rtol=1e-7, atol=1e-7)
    elif not eff:
        t.label("coincident")
        t.close(D.circ_std(**args, **kw), 0, "standard deviation of coincident data", atol=1e-4, nan_ok=False)
        t.close(D.angular_std(**args, **kw), 0, "angular deviation of coincident data", atol=1e-4, nan_ok=False)


@facet("D01", "shape", st.fixed_dictionaries(dict(s=spread_sample(2, 80), w=OPT_W)), quick=1500, rule="resultant and its complement both above 0.01")
def d01_shape(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"])
    z1, z2 = C2(a, w), C2(a, w, 2)
    r, r2 = abs(z1), abs(z2)
    t.nontrivial(0.01 < r < 0.99)
    if r > 1e-4:
        t.close(call_w(D.circ_dispersion, a, w), (1 - r2) / (2 * r * r), "dispersion", rtol=1e-7, atol=1e-8)
    if r > 1e-4 and 1 - r > 1e-5:
        m = np.angle(z1)
        tol = 1e-11 / (1 - r) ** 2.5 + 1e-9 / r
        t.close(call_w(D.circ_skewness, a, w), (z2 * np.exp(-2j * m)).imag / (1 - r) ** 1.5, "skewness", rtol=1e-7, atol=tol)
        t.close(call_w(D.circ_kurtosis, a, w), ((z2 * np.exp(-2j * m)).real - r**4) / (1 - r) ** 2, "kurtosis", rtol=1e-7, atol=tol)


@facet("D01", "grand_mean", st.fixed_dictionaries(dict(ss=st.lists(spread_sample(2, 20), min_size=1, max_size=6), via=st.sampled_from(["arrays", "objects"]))), quick=300, rule="two or more groups")
def d01_grand(c, t):
    aa = [angles(s) for s in c["ss"]]
    zs = [C2(a, None) for a in aa]
    if any(abs(z) < 1e-3 for z in zs):
        raise Skip()
    t.nontrivial(len(aa) > 1); t.label(c["via"])
    if c["via"] == "arrays":
        m, r = D.circ_mean_and_r_of_means(ms=np.angle(zs), rs=np.abs(zs))
    else:
        class O:
            pass
        objs = []
        for z in zs:
            o = O(); o.mean = float(np.angle(z)); o.r = abs(z); objs.append(o)
        m, r = D.circ_mean_and_r_of_means(objs)
    Z = np.mean(zs)
    t.close(r, abs(Z), "grand resultant", atol=1e-12)
    if abs(Z) > 1e-6:
        t.angle_close(m, np.angle(Z), "grand mean", atol=1e-8)
    t.true(0 <= m < TWO_PI or np.isnan(m), "within one turn")
    th = np.angle(zs).tolist(); rs = np.abs(zs).tolist()
    for kw in (dict(), dict(ms=th), dict(rs=rs), dict(ms=th, rs=rs + [0.5]), dict(ms=[th], rs=[rs]), dict(ms=th, rs=[rs]), dict(ms=[], rs=[]), dict(circs=[])):
        try:
            g = D.circ_mean_and_r_of_means(**kw)
        except (ValueError, IndexError):
            continue
        t.fail(f"grand mean of {kw} not refused: {g}")


# ------------------------------------------------------------------ D02
def _all_desc(a, w):
    out = dict(r=call_w(D.circ_r, a, w), mean=call_w(D.circ_mean, a, w), mean2=call_w(D.circ_mean_and_r, a, w)[0], r2=call_w(D.circ_mean_and_r, a, w)[1],
               var=D.circ_var(a, w, bin_size=0), std=D.circ_std(a, w, bin_size=0), avar=D.angular_var(a, w, bin_size=0), astd=D.angular_std(a, w, bin_size=0),
               disp=call_w(D.circ_dispersion, a, w), skew=call_w(D.circ_skewness, a, w), kurt=call_w(D.circ_kurtosis, a, w),
               cm2=call_w(D.circ_moment, a, w, p=2, centered=True), cm3=call_w(D.circ_moment, a, w, p=3, centered=True))
    return out


@facet("D02", "group_action", st.fixed_dictionaries(dict(s=spread_sample(2, 60), w=OPT_W, rot=ROT, pseed=SEEDS, turns=SHIFT, ops=st.sets(st.sampled_from(["rot", "refl", "perm", "turn"]), min_size=1).map(sorted))),
       quick=2000, shards=2, rule="resultant in (0.01, 0.99) and the transformation is not the identity")
def d02_group(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"])
    r = abs(C2(a, w))
    if not 1e-3 < r < 1 - 1e-4:
        raise Skip()
    base = _all_desc(a, w)
    b, wb, off, sgn = a.copy(), w, 0.0, 1.0
    for op in c["ops"]:
        t.label(op)
        if op == "rot":
            b = b + c["rot"]; off = off + c["rot"]
        elif op == "refl":
            b = -b; off = -off; sgn = -sgn
        elif op == "perm":
            p = perm(len(b), c["pseed"]); b = b[p]; wb = None if wb is None else wb[p]
        elif op == "turn":
            b = add_turns(b, c["turns"])
    t.nontrivial(0.01 < r < 0.99)
    got = _all_desc(b, wb)
    tol = 1e-11 / (1 - r) ** 2.5 + 1e-10 / r**2
    for k in base:
        if k in ("mean", "mean2"):
            t.angle_close(got[k], sgn * base[k] + off, f"{k} under {c['ops']}", atol=1e-10 / r)
        elif k == "skew":
            t.close(got[k], sgn * base[k], f"skewness under {c['ops']}", rtol=1e-7, atol=tol)
        elif k in ("cm2", "cm3"):
            want = base[k] if sgn > 0 else np.conj(base[k])
            t.close(got[k], want, f"{k} under {c['ops']}", atol=1e-9 / r)
        else:
            t.close(got[k], base[k], f"{k} under {c['ops']}", rtol=1e-7, atol=max(tol, 1e-9))


# ------------------------------------------------------------------ D03 (descriptive part)
@facet("D03", "descriptive", st.fixed_dictionaries(dict(s=spread_sample(2, 25), w=INT_W, drop=st.booleans())), quick=1200, rule="weights not all equal and resultant in (0.001, 0.9999)")
def d03_desc(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"]).astype(int)
    if c["drop"]:
        t.label("dropping zero weights")
        a2, w2 = a[w > 0], w[w > 0]
        ref = _all_desc(a2, w2)
    else:
        ref = _all_desc(np.repeat(a, w), None)
    r = ref["r"]
    got = _all_desc(a, w)
    if not 1e-3 < r < 1 - 1e-4:
        t.close(got["r"], r, "resultant length", atol=1e-12); return
    t.nontrivial(len(set(w.tolist())) > 1); t.label("has zeros" if (w == 0).any() else "no zeros")
    tol = 1e-11 / (1 - r) ** 2.5 + 1e-10 / r**2
    for k in ref:
        if k.startswith("mean"):
            t.angle_close(got[k], ref[k], f"{k}: weights vs repetition", atol=1e-9 / r)
        else:
            t.close(got[k], ref[k], f"{k}: weights vs repetition", rtol=1e-7, atol=tol)
    n = int(w.sum())
    full = np.repeat(a, w)
    for method in ("approximate", "dispersion"):
        for ci in (0.95, 0.8):
            try:
                e = D.circ_mean_ci(alpha=full, method=method, ci=ci)
            except ValueError:
                e = None
            try:
                g = D.circ_mean_ci(alpha=a, w=w, method=method, ci=ci)
            except ValueError:
                g = None
            if (e is None) != (g is None):
                rm = math.sqrt(chi2.isf(1 - ci, 1) / (2 * n))
                if abs(r - rm) < 1e-9:
                    continue
                t.fail(f"{method} interval defined for only one of weights/repetition: {g} vs {e}")
            if e is not None and not np.any(np.isnan(e)):
                t.label("ci " + method)
                t.angle_close(g, e, f"{method} interval: weights vs repetition", atol=1e-7)


# ------------------------------------------------------------------ D04
def near_dupes(a, tol=1e-6):
    return bool(np.any((arc(a[:, None], a[None, :]) < tol) & (a[:, None] != a[None, :])))


def dev_at(a, x):
    return float(np.mean(arc(a, x)))


@facet("D04", "deviation_median", st.fixed_dictionaries(dict(s=spread_sample(3, 40), rot=ROT, pseed=SEEDS, avg=st.sampled_from(["all", "unique"]))),
       quick=1200, shards=2, rule="the minimiser is not shared by all observations")
def d04_dev(c, t):
    a = angles(c["s"])
    dv = np.array([dev_at(a, x) for x in a])
    best = dv.min()
    if np.ptp(dv) < 2e-5:
        if np.ptp(a) == 0:
            t.label("coincident")
            t.angle_close(D.circ_median(a), a[0], "median of coincident data", atol=1e-9)
            return
        raise Skip()
    t.nontrivial(True)
    cand = np.atleast_1d(D.circ_median(a, return_average=False))
    t.true(not np.any(np.isnan(cand)), "median undefined although the minimiser is not shared by all")
    for x in cand:
        t.true(np.min(arc(a, x)) < 1e-9, f"median {x} is not an observation")
        t.true(dev_at(a, x) <= best + 1.1e-5, f"median {x} has deviation {dev_at(a, x)} > best {best}")
    # every clear minimiser is reported
    for x, d in zip(a, dv):
        if d < best + 1e-12:
            t.true(np.min(arc(cand, x)) < 1e-9, f"minimiser {x} missing from {cand}")
    grid = np.abs((dv * 1e5) % 1 - 0.5)
    near = dv < best + 2e-5
    if np.any(grid[near] < 1e-4):
        raise Skip()
    t.label("unique" if len(cand) == 1 else "several")
    med = D.circ_median(a, average_method=c["avg"])
    pts = cand if c["avg"] == "all" else np.unique(cand)
    if c["avg"] == "unique" and near_dupes(a):
        raise Skip()
    z = C2(pts, None)
    if abs(z) > 1e-6:
        t.angle_close(med, np.angle(z), "averaged median", atol=1e-7)
        t.true(0 <= med < TWO_PI, "median within one turn")
    b = norm(a + c["rot"])[perm(len(a), c["pseed"])]
    cand2 = np.atleast_1d(D.circ_median(b, return_average=False))
    t.true(len(cand2) == len(cand), f"number of medians changes under rotation/reordering: {cand} -> {cand2}")
    for x in cand2:
        t.true(np.min(arc(cand + c["rot"], x)) < 1e-8, "medians rotate with the data")
    if abs(z) > 1e-6 and c["avg"] == "all":
        t.angle_close(D.circ_median(b), med + c["rot"], "averaged median rotates", atol=1e-7)
    sh = add_turns(a, [0, 1, -1])
    t.true(len(np.atleast_1d(D.circ_median(sh, return_average=False))) == len(cand), "whole turns change the median")
    for x in np.atleast_1d(D.circ_median(sh, return_average=False)):
        t.true(np.min(arc(cand, x)) < 1e-8, "whole turns change the median")


@facet("D04", "count_median", st.fixed_dictionaries(dict(s=spread_sample(3, 40), rot=ROT, pseed=SEEDS)), quick=1000, rule="some observation balances better than another")
def d04_count(c, t):
    a = angles(c["s"])
    if abs(C2(a, None)) > 1 - 1e-9:
        raise Skip()

    def imbalance(x):
        d = np.mod(a - x, TWO_PI)
        ex = np.minimum(arc(a, x), arc(a, x + math.pi)) < 2e-5
        if np.any((arc(a, x) < 1e-4) & (a != x)) or np.any((arc(a, x + math.pi) < 1e-4) & (arc(a, x + math.pi) > 1e-9)):
            raise Skip()  # too close to the rounding used to call two angles equal
        return abs(np.sum((d < math.pi) & ~ex) - np.sum((d > math.pi) & ~ex))
    im = np.array([imbalance(x) for x in a])
    got = np.atleast_1d(D.circ_median(a, method="count", return_average=False))
    if im.min() == im.max():
        t.true(np.all(np.isnan(got)), f"every observation balances equally but median is {got}"); return
    t.nontrivial(True); t.label(f"best imbalance {int(im.min())}")
    want = a[im == im.min()]
    t.true(got.shape == want.shape, f"counting medians {got} want {want}")
    t.true(all(np.sum(arc(got, x) < 1e-8) == np.sum(arc(want, x) < 1e-8) for x in want), f"counting medians {got} want {want}")
    z = C2(want, None)
    if abs(z) > 1e-6:
        m = D.circ_median(a, method="count")
        t.angle_close(m, np.angle(z), "average of counting medians", atol=1e-7)
        b = norm(a + c["rot"])[perm(len(a), c["pseed"])]
        t.angle_close(D.circ_median(b, method="count"), m + c["rot"], "counting median rotates", atol=1e-7)
    t.true(np.all(np.isnan(D.circ_median(a, method="none"))), "method none")
    for kw in (dict(method="counting"), dict(method="deviation", average_method="mean")):
        try:
            g = D.circ_median(a, **kw)
        except ValueError:
            continue
        t.fail(f"median with {kw} not refused: {g}")


@facet("D04", "mean_deviation", st.fixed_dictionaries(dict(s=spread_sample(1, 50), b=st.lists(ANGLE, min_size=1, max_size=30), chunk=st.integers(1, 40), aslist=st.booleans(), big=st.integers(0, 40))),
       quick=800, rule="more evaluation points than one chunk")
def d04_meandev(c, t):
    a = angles(c["s"]); b = np.array(c["b"])
    if c["big"] == 40:
        b = np.resize(b, 2500); t.label("default chunk exceeded")
    want = np.array([dev_at(a, x) for x in b])
    aa, bb = (a.tolist(), b.tolist()) if c["aslist"] else (a, b)
    t.nontrivial(len(b) > c["chunk"])
    g = D.circ_mean_deviation(aa, bb)
    t.close(g, want, "mean angular deviation", atol=6e-6, rtol=0)
    t.true(np.shape(g) == b.shape, "shape")
    h = D.circ_mean_deviation_chunked(aa, bb, chunk_size=c["chunk"])
    t.true(np.shape(h) == b.shape, "shape (chunked)")
    t.close(h, want, "mean angular deviation, chunked", atol=6e-6, rtol=0)
    t.close(D.circ_mean_deviation_chunked(aa, bb), want, "mean angular deviation, default chunk", atol=6e-6, rtol=0)
    t.close(D.circ_mean_deviation(aa, float(b[0])), want[:1], "scalar evaluation point", atol=6e-6, rtol=0)
    for bad in (0, -3):
        try:
            D.circ_mean_deviation_chunked(aa, bb, chunk_size=bad)
        except ValueError:
            continue
        t.fail("non-positive chunk accepted")


@facet("D04", "large_median", st.fixed_dictionaries(dict(n=st.integers(10001, 10040), mu=ANGLE, seed=SEEDS)), quick=2, thorough=40, rule="sample above the chunking threshold")
def d04_large(c, t):
    a = gen.vm_draw(np.random.default_rng(c["seed"]), c["mu"], 2.0, c["n"])
    med = np.atleast_1d(D.circ_median(a, return_average=False))
    t.nontrivial(True)
    t.true(not np.any(np.isnan(med)), "undefined")
    idx = np.random.default_rng(c["seed"] + 1).integers(0, len(a), 200)
    best = min(dev_at(a, x) for x in a[idx])
    near = a[np.argsort(arc(a, med[0]))[:50]]
    best = min(best, min(dev_at(a, x) for x in near))
    for x in med[:5]:
        t.true(dev_at(a, x) <= best + 1.1e-5, "large-sample median is not a minimiser")


def concentrated(min_n, max_n):
    return st.builds(lambda n, mu, kap, seed: {"k": "vm", "n": n, "mu": mu, "kappa": kap, "seed": seed},
                     st.integers(min_n, max_n), ANGLE, finite(2.0, 60.0), SEEDS)


@facet("D04", "median_ci", st.fixed_dictionaries(dict(s=st.one_of(concentrated(3, 15), concentrated(16, 90), spread_sample(16, 60)), rot=ROT, pseed=SEEDS, ci=st.sampled_from([0.8, 0.9, 0.95, 0.99]), give=st.booleans())),
       quick=1500, shards=2, rule="data lie within a half circle",
       examples=[dict(s=dict(k="list", a=[6.0, 6.1, 6.2, 0.05, 0.1, 0.3, 0.4]), rot=1.0, pseed=1, ci=0.95, give=True),
                 dict(s=dict(k="vm", n=40, mu=0.0, kappa=5.0, seed=3), rot=1.0, pseed=1, ci=0.95, give=True)])
def d04_ci(c, t):
    a = angles(c["s"]); n = len(a); rot = c["rot"]
    med = float(D.circ_median(a))
    if np.isnan(med):
        raise Skip()
    lb, ub, lvl = D.circ_median_ci(median=med if c["give"] else None, alpha=a, ci=c["ci"])
    t.true(0 <= lb < TWO_PI and 0 <= ub < TWO_PI, f"bounds {lb},{ub}")
    t.true(np.min(arc(a, lb)) < 1e-9 and np.min(arc(a, ub)) < 1e-9, f"bounds {lb},{ub} are not observations")
    half = np.all(arc(a, med) < math.pi / 2)
    if not half:
        t.label("dispersed"); return
    t.nontrivial(True); t.label("small" if n <= 15 else "large")
    span = float(np.mod(ub - lb, TWO_PI))
    t.true(np.mod(med - lb, TWO_PI) <= span + 1e-5 or TWO_PI - np.mod(med - lb, TWO_PI) < 1e-5, f"median {med} outside its interval [{lb},{ub}] (walking counter-clockwise)")
    # rank of the bounds around the median
    dev = np.sort(np.mod(a - med + math.pi, TWO_PI) - math.pi)
    i = int(np.argmin(np.abs(dev - (np.mod(lb - med + math.pi, TWO_PI) - math.pi))))
    j = int(np.argmin(np.abs(dev - (np.mod(ub - med + math.pi, TWO_PI) - math.pi))))
    from scipy.stats import binom
    if np.diff(dev).min() < 3e-5:
        t.label("ties")
        if n > 15 and not np.any(np.abs(np.abs(dev) - 5e-6) < 2e-6):
            # the rule of Fisher's (4.19) read on values: m observations below, m above, one observation at the median left out
            m = 1 + int(math.floor(0.5 * math.sqrt(n) * gauss.ppf(0.5 + 0.5 * c["ci"])))
            pos = int(np.sum(dev < -5e-6)); eq = bool(np.any(np.abs(dev) <= 5e-6))
            t.angle_close([lb - med, ub - med], [dev[max(pos - m, 0)], dev[min(pos - 1 + m + eq, n - 1)]], f"n={n}: bounds {m} observations either side of the median", atol=1e-7)
    elif n <= 15:
        cov = 1 - 2 * binom.cdf(min(i, n - 1 - j), n, 0.5) if i <= n - 1 - j else 1 - binom.cdf(i, n, .5) - binom.cdf(n - 1 - j, n, .5)
        t.true(cov >= lvl - 0.006, f"n={n}: order statistics {i},{j} cover {cov:.4f} < reported {lvl}")
        t.true(lvl <= 1 and lvl >= 0.7, "reported level")
        t.true(i == n - 1 - j, f"n={n}: order statistics {i},{j} leave out unequal tails")
        t.true(cov <= lvl + 0.03, f"n={n}: order statistics {i},{j} cover {cov:.4f}, far more than the reported {lvl}")
    else:
        t.close(lvl, c["ci"], "reported level")
        m = 1 + int(math.floor(0.5 * math.sqrt(n) * gauss.ppf(0.5 + 0.5 * c["ci"])))
        pos = int(np.sum(dev < -1e-5))
        eq = int(np.sum(np.abs(dev) <= 1e-5))
        t.true(pos - m <= i <= pos - m + 1 and pos + eq + m - 2 <= j <= pos + eq + m, f"n={n}: ranks {i},{j} around median at {pos}(+{eq}) with offset {m}")
        if eq <= 1:
            t.true((i, j) == (max(pos - m, 0), min(pos - 1 + m + eq, n - 1)), f"n={n}: ranks {i},{j} are not {m} observations either side of the median at {pos}(+{eq})")
        l8, u8, _ = D.circ_median_ci(median=med, alpha=a, ci=0.5)
        l9, u9, _ = D.circ_median_ci(median=med, alpha=a, ci=0.98)
        t.true(np.mod(u9 - l9, TWO_PI) >= np.mod(u8 - l8, TWO_PI) - 1e-9, "interval shrinks as the level rises")
    b = norm(a + rot)[perm(n, c["pseed"])]
    med2 = float(D.circ_median(b))
    if arc(med2, med + rot) > 1e-7:
        return
    gap = np.abs(dev); gap = gap[gap > 1e-9]
    if np.any(np.abs(gap - 1e-5) < 6e-6):
        return
    lb2, ub2, lvl2 = D.circ_median_ci(median=med2 if c["give"] else None, alpha=b, ci=c["ci"])
    t.angle_close([lb2, ub2], [lb + rot, ub + rot], "median interval rotates with the data", atol=1e-7)
    t.close(lvl2, lvl, "level unchanged by rotation")


# ------------------------------------------------------------------ D05
def ref_ci(method, a, w, ci):
    w = np.ones(len(a)) if w is None else w
    n = w.sum(); z1 = C2(a, w); r = abs(z1); m = np.angle(z1)
    q = chi2.ppf(ci, 1)
    if method == "dispersion":
        d = (1 - abs(C2(a, w, 2))) / (2 * r * r)
        return m, math.asin(math.sqrt(d / n) * gauss.ppf(0.5 + ci / 2))
    R = n * r
    if r <= 0.9:
        return m, math.acos(math.sqrt(2 * n * (2 * R * R - n * q) / (4 * n - q)) / R)
    return m, math.acos(math.sqrt(n * n - (n * n - R * R) * math.exp(q / n)) / R)


@facet("D05", "analytic", st.fixed_dictionaries(dict(s=spread_sample(8, 90), w=st.one_of(st.none(), POS_INT_W), method=st.sampled_from(["approximate", "dispersion"]), ci=st.one_of(st.sampled_from([0.95, 0.99, 0.9]), finite(0.3, 0.995)), rot=ROT, pseed=SEEDS, form=st.sampled_from(["alpha", "alpha+mean", "mean_r_n"]))),
       quick=2000, shards=2, rule="the interval is defined and not degenerate")
def d05_analytic(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"]); meth, ci = c["method"], c["ci"]
    n = len(a) if w is None else w.sum()
    z = C2(a, w); r = abs(z)
    if meth == "dispersion" and n < 25:
        for al in (a,):
            try:
                D.circ_mean_ci(alpha=a, w=w, method=meth, ci=ci)
            except ValueError:
                return
            t.fail("dispersion interval for n < 25 not refused")
    try:
        m, d = ref_ci(meth, a, w, ci)
    except (ValueError, ZeroDivisionError):
        d = None
    q = chi2.ppf(ci, 1)
    if meth == "approximate" and (r < math.sqrt(q / (2 * n)) * (1 + 1e-9)):
        d = None
    kw = dict(alpha=a, w=w, method=meth, ci=ci)
    if c["form"] == "alpha+mean":
        kw["mean"] = float(np.angle(z))
    elif c["form"] == "mean_r_n" and meth == "approximate":
        kw = dict(mean=float(np.angle(z)), r=r, n=n, method=meth, ci=ci)
    if d is None or r < 1e-4 or abs(r - 0.9) < 1e-9 or 1 - r < 1e-9:
        raise Skip()
    if meth == "dispersion" and (1 - abs(C2(a, w, 2))) < 1e-9:
        raise Skip()
    t.nontrivial(d > 1e-6); t.label(meth + "/" + c["form"])
    lb, ub = D.circ_mean_ci(**kw)
    tol = 1e-7 + 1e-9 / max(d, 1e-3)
    t.true(0 <= lb < TWO_PI and 0 <= ub < TWO_PI, "bounds within one turn")
    t.angle_close(lb, m - d, f"{meth} lower bound", atol=tol); t.angle_close(ub, m + d, f"{meth} upper bound", atol=tol)
    if c["form"] == "mean_r_n":
        return
    p = perm(len(a), c["pseed"])
    g = D.circ_mean_ci(alpha=norm(a + c["rot"])[p], w=None if w is None else w[p], method=meth, ci=ci)
    t.angle_close(g, [lb + c["rot"], ub + c["rot"]], "interval rotates", atol=10 * tol)
    lo = D.circ_mean_ci(alpha=a, w=w, method=meth, ci=ci * 0.9)
    t.true(np.mod(lo[1] - lo[0], TWO_PI) <= np.mod(ub - lb, TWO_PI) + tol, "interval grows as the level falls")
    if meth == "approximate" and ci == 0.95:
        t.angle_close(D.circ_mean_ci(alpha=a, w=w), [lb, ub], "defaults", atol=tol)


@facet("D05", "undefined", st.fixed_dictionaries(dict(n=st.integers(8, 60), j=st.integers(2, 8), method=st.sampled_from(["approximate", "dispersion", "bootstrap", "nonsense", "Approximate"]))), quick=150, rule="always")
def d05_undef(c, t):
    """Balanced data have no mean direction; small n and unknown methods are refused."""
    t.nontrivial(True); t.label(c["method"])
    a = np.tile(np.arange(c["j"]) * TWO_PI / c["j"], c["n"])
    if c["method"] in ("approximate", "bootstrap", "nonsense", "Approximate"):
        try:
            g = D.circ_mean_ci(alpha=a, method=c["method"], B=50)
        except ValueError:
            g = None
        t.true(g is None or np.any(np.isnan(g)), f"interval {g} reported for balanced data")
    try:
        D.circ_mean_ci(alpha=np.array([0.1, 0.2, 0.3, 0.4, 0.5]), method="approximate")
    except ValueError:
        pass
    else:
        t.fail("approximate interval for n<8 not refused")


@facet("D05", "bootstrap_gate", st.fixed_dictionaries(dict(s=st.one_of(spread_sample(3, 60), continuous_sample(3, 40, finite(0, 1.5))), B=st.sampled_from([-1, 0, 1, 2]))), quick=600, rule="Rayleigh p-value between 0.001 and 0.5")
def d05_gate(c, t):
    """A bootstrap interval is refused exactly when the sample could be uniform (Rayleigh test at 5 %)."""
    a = angles(c["s"]); n = len(a); R = n * abs(C2(a, None))
    p = math.exp(math.sqrt(1 + 4 * n + 4 * max(n * n - R * R, 0.0)) - (1 + 2 * n))
    if abs(p - 0.05) < 1e-9:
        raise Skip()
    t.nontrivial(0.001 < p < 0.5)
    state = np.random.get_state()
    try:
        g = D.circ_mean_ci(alpha=a, method="bootstrap", B=c["B"])
    except ValueError as e:
        t.label("refused")
        t.true(p > 0.05 or c["B"] < 1 or "zero-length" in str(e), f"interval refused although the Rayleigh p-value is {p} (n={n}): {e}")
        return
    finally:
        np.random.set_state(state)
    t.label("given")
    t.true(c["B"] >= 1, f"interval {g} from {c['B']} resamples")
    t.true(p < 0.05, f"interval {g} given although the Rayleigh p-value is {p} (n={n})")


def _boot_ref(a, B, ci, rng):
    n = len(a)
    X = np.c_[np.cos(a), np.sin(a)]
    z0 = X.mean(0)
    S = np.cov(X.T, bias=True)
    ev, V = np.linalg.eigh(S); v0 = (V * np.sqrt(np.maximum(ev, 0))) @ V.T
    out = np.empty(B)
    for b in range(B):
        Y = X[rng.integers(0, n, n)]
        zb = Y.mean(0); Sb = np.cov(Y.T, bias=True)
        eb, Vb = np.linalg.eigh(Sb); wb = (Vb / np.sqrt(np.maximum(eb, 1e-15))) @ Vb.T
        c, s = z0 + v0 @ wb @ (zb - z0)
        out[b] = math.atan2(s, c)
    return out


@facet("D05", "bootstrap", st.fixed_dictionaries(dict(n=st.integers(9, 40), mu=ANGLE, kappa=finite(1.5, 12.0), seed=SEEDS, gseed=SEEDS, rot=ROT, ci=st.sampled_from([0.8, 0.9, 0.95]))),
       quick=24, thorough=600, shards=4, rule="interval computed")
def d05_boot(c, t):
    a = gen.vm_draw(np.random.default_rng(c["seed"]), c["mu"], c["kappa"], c["n"])
    n = len(a); z = C2(a, None)
    if n * abs(z) ** 2 < 4.5:
        raise Skip()
    t.nontrivial(True)
    state = np.random.get_state()
    try:
        np.random.seed(c["gseed"] % 2**32)
        lb, ub = D.circ_mean_ci(alpha=a, method="bootstrap", B=600, ci=c["ci"])
        np.random.seed(c["gseed"] % 2**32)
        again = D.circ_mean_ci(alpha=a, method="bootstrap", B=600, ci=c["ci"])
        np.random.seed(c["gseed"] % 2**32)
        rot = D.circ_mean_ci(alpha=norm(a + c["rot"]), method="bootstrap", B=600, ci=c["ci"])
    finally:
        np.random.set_state(state)
    m = np.angle(z)
    ref = np.sort(np.mod(_boot_ref(a, 1500, c["ci"], np.random.default_rng(c["seed"] + 7)) - m + math.pi, TWO_PI) - math.pi)
    lo, hi = np.mod(lb - m + math.pi, TWO_PI) - math.pi, np.mod(ub - m + math.pi, TWO_PI) - math.pi
    width_ref = np.quantile(ref, 0.5 + c["ci"] / 2) - np.quantile(ref, 0.5 - c["ci"] / 2)
    if width_ref > 1.6:
        t.label("wide"); return
    t.true(lo < hi, f"interval [{lb},{ub}] does not run counter-clockwise through the mean {m}")
    share = np.mean((ref >= lo) & (ref <= hi))
    t.true(abs(share - c["ci"]) < 0.10, f"bootstrap interval holds {share:.3f} of independent resamples, wanted {c['ci']}")
    t.true(hi - lo < 1.35 * width_ref + 1e-3, f"interval width {hi - lo} vs central interval {width_ref}")
    if tuple(again) == (lb, ub):
        t.label("reproducible from the global seed")
        sm = 0.02 * width_ref + 1e-6
        t.angle_close(rot, [lb + c["rot"], ub + c["rot"]], "bootstrap interval rotates with the data (same resamples)", atol=sm)


# ------------------------------------------------------------------ D06
def _metric(metric, x, y):
    d = np.mod(x - y + math.pi, TWO_PI) - math.pi
    return {"center": d, "geodesic": np.abs(d), "angularseparation": 1 - np.cos(d), "chord": 2 * np.abs(np.sin(d / 2))}[metric]


METRIC = st.sampled_from(["center", "geodesic", "angularseparation", "chord"])


@facet("D06", "distances", st.fixed_dictionaries(dict(x=st.lists(ANGLE, min_size=1, max_size=8), y=st.lists(ANGLE, min_size=1, max_size=8), metric=METRIC, kx=SHIFT, ky=SHIFT, rot=ROT, turn=st.booleans(), yn=st.booleans())),
       quick=2000, rule="two different angles on opposite sides of the origin, or whole turns added")
def d06_dist(c, t):
    x, y, m = np.array(c["x"]), np.array(c["y"]), c["metric"]
    t.label(m)
    if c["turn"]:
        x, y = add_turns(x, c["kx"]), add_turns(y, c["ky"]); t.label("turns")
    t.nontrivial(c["turn"] or np.any(np.abs(x[0] - y) > math.pi))
    tol = 3e-7 if m == "chord" else 1e-9

    def same(g, w, msg):
        if m == "center":
            t.angle_close(g, w, msg, atol=tol)
            t.true(np.all(np.abs(g) <= math.pi + 1e-12), msg + ": outside (-pi,pi]")
        else:
            t.close(g, w, msg, atol=tol)
    L = min(len(x), len(y))
    same(D.circ_dist(x[:L], y[:L], metric=m), _metric(m, x[:L], y[:L]), f"{m} element-wise")
    same(D.circ_dist(x, float(y[0]), metric=m), _metric(m, x, y[0]), f"{m} array-scalar")
    same(D.circ_dist(float(x[0]), float(y[0]), metric=m), _metric(m, x[0], y[0]), f"{m} scalar-scalar")
    same(D.circ_dist(x.tolist(), y[:1].tolist(), metric=m), _metric(m, x, y[0]), f"{m} lists")
    if m == "center":
        same(D.circ_dist(x, float(y[0])), _metric(m, x, y[0]), "default metric")
    same(D.circ_pairdist(x.tolist(), y.tolist(), metric=m), _metric(m, x[:, None], y[None, :]), f"{m} pairwise lists")
    P = D.circ_pairdist(x, metric=m) if c["yn"] else D.circ_pairdist(x, y, metric=m)
    yy = x if c["yn"] else y
    W = _metric(m, x[:, None], yy[None, :])
    t.true(P.shape == W.shape, f"pairwise shape {P.shape}")
    same(P, W, f"{m} pairwise")
    if m == "center":
        if not np.any(np.abs(np.abs(W) - math.pi) < 1e-9):
            t.close(D.circ_pairdist(x, yy, metric=m, return_sum=True), W.sum(), "sum of pairwise distances", atol=1e-7)
            t.close(D.circ_dist(x[:L], y[:L], metric=m, return_sum=True), _metric(m, x[:L], y[:L]).sum(), "sum of distances", atol=1e-7) if not np.any(np.abs(np.abs(_metric(m, x[:L], y[:L])) - math.pi) < 1e-9) else None
    else:
        t.close(D.circ_pairdist(x, yy, metric=m, return_sum=True), W.sum(), "sum of pairwise distances", atol=1e-5)
        t.close(D.circ_dist(x[:L], y[:L], metric=m, return_sum=True), _metric(m, x[:L], y[:L]).sum(), "sum of distances", atol=1e-5)
        if c["yn"]:
            t.close(P, P.T, "symmetric", atol=tol)
            t.close(np.diag(P), np.zeros(len(x)), "zero self-distance", atol=tol)
    same(D.circ_dist(x[:L] + c["rot"], y[:L] + c["rot"], metric=m), _metric(m, x[:L], y[:L]), f"{m} under common rotation")


@facet("D06", "refuse", st.fixed_dictionaries(dict(m=st.text(max_size=8), a=st.integers(2, 5), b=st.integers(6, 9))), quick=60, rule="always")
def d06_refuse(c, t):
    t.nontrivial(True)
    bad = [lambda: D.circ_dist(np.zeros(c["a"]), np.zeros(c["b"]))]
    if c["m"] not in ("center", "geodesic", "angularseparation", "chord"):
        bad.append(lambda: D.circ_dist(np.zeros(3), np.ones(3), metric=c["m"]))
    for f in bad:
        try:
            f()
        except ValueError:
            continue
        t.fail("bad metric or incompatible shapes accepted")


# ------------------------------------------------------------------ D07
@facet("D07", "range", st.fixed_dictionaries(dict(s=spread_sample(1, 60), rot=ROT, turns=SHIFT, pseed=SEEDS)), quick=1500, rule="the shortest covering arc crosses the origin, or turns added")
def d07_range(c, t):
    a = angles(c["s"])
    s = np.sort(norm(a)); gaps = np.append(np.diff(s), s[0] + TWO_PI - s[-1])
    want = TWO_PI - gaps.max()
    t.nontrivial(np.argmax(gaps) != len(gaps) - 1 and len(a) > 1)
    t.close(D.circ_range(a), want, "range", atol=1e-9)
    for b, lbl in ((a + c["rot"], "rotation"), (-a, "reflection"), (add_turns(a, c["turns"]), "whole turns"), (a[perm(len(a), c["pseed"])], "reordering")):
        t.close(D.circ_range(b), want, "range under " + lbl, atol=1e-9)
    g = D.circ_range(a)
    t.true(-1e-12 <= g < TWO_PI + 1e-12, "range in [0,2pi)")


def _q7(x, p):
    x = np.sort(x); h = (len(x) - 1) * p; lo = int(math.floor(h + 1e-13)); hi = min(lo + 1, len(x) - 1); lo = min(lo, len(x) - 1)
    return x[lo] + (h - lo) * (x[hi] - x[lo])


@facet("D07", "quantile", st.fixed_dictionaries(dict(s=st.one_of(concentrated(3, 60), continuous_sample(3, 50)), probs=st.lists(finite(0, 1), min_size=1, max_size=5), rot=ROT, pseed=SEEDS, form=st.sampled_from(["array", "list", "scalar", "default", "int"]))),
       quick=1200, rule="data wrap through the origin")
def d07_quant(c, t):
    a = angles(c["s"]); med = float(D.circ_median(a))
    if np.isnan(med):
        g = D.circ_quantile(a)
        t.true(np.all(np.isnan(g)), "quantiles of data without median"); return
    dev = np.mod(a - med + math.pi, TWO_PI) - math.pi
    if np.any(np.abs(np.abs(dev) - math.pi) < 1e-7):
        raise Skip()
    t.nontrivial(np.ptp(a) > math.pi); t.label(c["form"])
    probs = [0, 0.25, 0.5, 0.75, 1.0] if c["form"] == "default" else [0, 1] if c["form"] == "int" else c["probs"]
    if c["form"] == "default":
        g = D.circ_quantile(a)
    elif c["form"] == "scalar":
        g = D.circ_quantile(a, probs[0]); probs = probs[:1]
    elif c["form"] == "int":
        g = D.circ_quantile(a, [0, 1])
    else:
        g = D.circ_quantile(a, probs if c["form"] == "list" else np.array(probs))
    want = [_q7(dev, p) for p in probs]
    t.true(np.shape(g) == (len(probs),), f"shape {np.shape(g)}")
    t.true(np.all((g >= 0) & (g < TWO_PI + 1e-12)), "quantiles within one turn")
    t.angle_close(g, np.array(want) + med, "quantiles", atol=1e-8)
    o = np.argsort(probs, kind="stable")
    u = (np.mod(np.asarray(g) - med + math.pi, TWO_PI) - math.pi)[o]
    t.true(np.all(np.diff(u) >= -1e-8), "quantiles run counter-clockwise")
    b = norm(a + c["rot"])[perm(len(a), c["pseed"])]
    if arc(float(D.circ_median(b)), med + c["rot"]) < 1e-8:
        t.angle_close(D.circ_quantile(b, np.array(probs, float)), np.asarray(g) + c["rot"], "quantiles rotate", atol=1e-6)


# ------------------------------------------------------------------ D08
@facet("D08", "density", st.fixed_dictionaries(dict(s=spread_sample(1, 60), h=st.one_of(finite(0.25, math.pi), finite(3.0, 40.0)), radius=st.sampled_from([1.0, 1.0, 2.0, 0.5, 5.0]), default=st.booleans(), k=st.integers(0, 98), turns=SHIFT)),
       quick=800, rule="kernel crosses the origin",
       examples=[dict(s=dict(k="list", a=[0.5, 1.0, 6.0]), h=1.0, radius=1.0, default=True, k=3, turns=[1, 0, -1])])
def d08_density(c, t):
    a = angles(c["s"]); h = c["h"]; rad = 1.0 if c["default"] else c["radius"]
    x, f = D.nonparametric_density_estimation(a, h) if c["default"] else D.nonparametric_density_estimation(a, h, radius=rad)
    x, f = np.asarray(x), np.asarray(f)
    t.nontrivial(np.any((a < h) | (a > TWO_PI - h)))
    h = min(h, math.pi)         # a wider kernel would overlap itself
    t.true(x.shape == f.shape and len(x) >= 50, "grid")
    t.close([x[0], x[-1]], [0, TWO_PI], "grid spans one turn", atol=1e-12)
    t.true(np.all(np.diff(x) > 0), "grid increases")
    e = arc(x[:, None], a[None, :])
    k = np.where(e < h, 0.9375 * (1 - (e / h) ** 2) ** 2 / h, 0).mean(1)
    t.close(f, rad * np.sqrt(1 + math.pi * k) - rad, "quartic-kernel density on the circle", atol=1e-9 * rad)
    dens = ((f / rad + 1) ** 2 - 1) / math.pi
    t.true(np.all(dens >= -1e-12), "negative density")
    t.close(np.trapezoid(dens, x), 1.0, "density integrates to one", atol=4e-3 / h)
    t.close(f[0], f[-1], "same density at 0 and at a full turn", atol=1e-9 * rad)
    if len(x) == 100:
        g = D.nonparametric_density_estimation(norm(a + x[c["k"]]), h, radius=rad)[1]
        t.close(g[:-1], np.roll(f[:-1], c["k"]), "density rotates with the data", atol=1e-8 * rad)
    g = D.nonparametric_density_estimation(add_turns(a, c["turns"]), h, radius=rad)[1]
    t.close(g, f, "whole turns change the density", atol=1e-8 * rad)


@facet("D08", "hdi", st.fixed_dictionaries(dict(s=spread_sample(1, 60), ci=finite(0.02, 0.98), rot=ROT, turns=SHIFT, pseed=SEEDS)), quick=1200, rule="shortest interval crosses the origin or is not unique")
def d08_hdi(c, t):
    a = angles(c["s"]); n = len(a)
    m = min(n, max(1, int(math.floor(c["ci"] * n))))
    if abs(c["ci"] * n - round(c["ci"] * n)) < 1e-9:
        raise Skip()
    s = np.sort(norm(a)); ext = np.concatenate([s, s + TWO_PI])
    best = min(ext[i + m - 1] - ext[i] for i in range(n))
    for b, off in ((a, 0.0), (norm(a + c["rot"])[perm(n, c["pseed"])], c["rot"]), (add_turns(a, c["turns"]), 0.0)):
        lo, hi = D.compute_hdi(b, ci=c["ci"])
        t.true(np.min(arc(a + off, lo)) < 1e-8 and np.min(arc(a + off, hi)) < 1e-8, "interval ends at samples")
        w = np.mod(hi - lo + 1e-9, TWO_PI) - 1e-9
        t.close(w, best, f"shortest arc holding {m} of {n} samples", atol=1e-7)
        inside = np.mod(norm(b) - lo + 1e-7, TWO_PI) <= w + 2e-7
        t.true(inside.sum() >= m, f"interval holds {inside.sum()} < {m} samples")
    t.nontrivial(n > 2 and best > 0)
    for bad in (0.0, 1.0, -0.1, 1.5):
        try:
            D.compute_hdi(a, ci=bad)
        except ValueError:
            continue
        t.fail(f"level {bad} accepted")


@facet("D08", "smoothing", st.fixed_dictionaries(dict(r=finite(0.02, 0.98), n=st.integers(2, 500))), quick=500, rule="positive concentration")
def d08_smooth(c, t):
    ks = kappa_formula(c["r"], c["n"])
    if min(ks) < 1e-6:
        raise Skip()
    t.nontrivial(True)
    g = D.compute_smooth_params(c["r"], c["n"])
    t.true(any(abs(g - math.sqrt(7) / math.sqrt(k) / c["n"] ** 0.2) < 1e-9 * g for k in ks), f"smoothing {g}")


# ------------------------------------------------------------------ D09
def A1x(k):
    return i1e(k) / i0e(k)


@facet("D09", "ratio", st.fixed_dictionaries(dict(k=st.one_of(finite(0, 20), log_uniform(1e-6, 1e6)), k2=st.one_of(finite(0, 20), log_uniform(1e-6, 1e6)), arr=st.booleans())), quick=1500, rule="positive concentration",
       examples=[dict(k=800.0, k2=5000.0, arr=True)])
def d09_ratio(c, t):
    k, k2 = c["k"], c["k2"]
    g = U.A1(np.array([k, k2])) if c["arr"] else np.array([float(U.A1(k)), float(U.A1(k2))])
    t.nontrivial(k > 0); t.label("large" if max(k, k2) > 700 else "moderate")
    t.close(g, A1x(np.array([k, k2])), "mean resultant length of the von Mises law", rtol=1e-9, atol=1e-12, nan_ok=False)
    t.true(np.all((g >= 0) & (g <= 1)), "outside [0,1]")
    if k + 1e-6 < k2:
        t.true(g[0] < g[1] + 1e-15, "not increasing")


def _exact(r):
    return brentq(lambda k: A1x(k) - r, 0, 1e9) if r > 0 else 0.0


@facet("D09", "inverse", st.fixed_dictionaries(dict(r=st.one_of(finite(0, 1), finite(0.5, 0.56), finite(0.83, 0.87), finite(0.9, 0.999999), st.sampled_from([0.0, 0.53, 0.85, 1.0])), n=st.one_of(st.none(), st.integers(2, 40)), np64=st.booleans())),
       quick=3000, rule="resultant strictly between 0 and 1",
       examples=[dict(r=0.0, n=10, np64=False), dict(r=1.0, n=None, np64=False), dict(r=1.0, n=5, np64=True), dict(r=0.0, n=None, np64=True)])
def d09_inverse(c, t):
    r, n = c["r"], c["n"]
    arg = np.float64(r) if c["np64"] else r
    t.nontrivial(0 < r < 1); t.label("n" if n is not None else "no n")
    k = float(D.circ_kappa(arg) if n is None else D.circ_kappa(arg, n))
    t.true(k >= 0 and math.isfinite(k), f"concentration {k} for r={r}, n={n}")
    if r < 1 - 1e-12:
        want = kappa_formula(r, n)
        t.true(any(abs(k - w) <= 1e-9 * max(1, abs(w)) for w in want), f"concentration {k} for r={r}, n={n}; published {want}")
        k0 = float(D.circ_kappa(arg))
        t.close(float(D.circ_kappa(arg, 100)), k0, "no correction for large samples")
        if r < 1 - 1e-9:
            ex = _exact(r)
            t.true(abs(k0 - ex) <= 0.012 * ex + 1e-9, f"estimate {k0} vs exact {ex} at r={r}")
            ai = float(U.A1inv(arg))
            t.true(abs(ai - ex) <= 0.012 * ex + 1e-9, f"inverse {ai} vs exact {ex} at r={r}")
            t.true(abs(float(U.A1(ai)) - r) < 0.006, f"A1(A1inv({r})) = {float(U.A1(ai))}")
    else:
        t.true(k > 1e6, f"coincident data have concentration {k}")


# ------------------------------------------------------------------ D04, grouped data
def _half_mass(th, m, w):
    """Frequency in the half circle (th, th + pi), spread evenly inside each of m bins."""
    h = TWO_PI / m; lo = np.mod(np.arange(m) * h - th, TWO_PI); hi = lo + h
    ov = np.maximum(0, np.minimum(hi, math.pi) - lo) + np.maximum(0, np.minimum(hi - TWO_PI, math.pi))
    return float(np.sum(w * ov) / h)


@facet("D04", "grouped", st.fixed_dictionaries(dict(m=st.integers(3, 40), n=st.integers(1, 300), mu=ANGLE, k=log_uniform(0.2, 20), seed=SEEDS, roll=st.integers(0, 39), one=st.sampled_from([False] * 8 + [True]), how=st.sampled_from(["draw", "draw", "list"]), w=INT_W)), quick=1500, shards=2,
       rule="exactly one direction splits the frequencies into halves with the data on its side")
def d04_grouped(c, t):
    m = c["m"]; h = TWO_PI / m; ctr = (np.arange(m) + 0.5) * h
    if c["how"] == "draw":
        w = np.histogram(gen.vm_draw(np.random.default_rng(c["seed"]), c["mu"], c["k"], c["n"]), bins=m, range=(0, TWO_PI))[0]
    else:
        w = weights(m, c["w"]).astype(int)
    if c["one"]:
        w = np.where(np.arange(m) == c["seed"] % m, c["n"] + 1, 0)
    med = float(D.circ_median(ctr, w=w)); rolled = float(D.circ_median(ctr, w=np.roll(w, c["roll"])))
    n = w.sum()
    if np.all(w == 1):
        return   # all frequencies one: treated as raw angles
    if c["one"]:
        t.nontrivial(True); t.label("one bin")
        t.angle_close(med, ctr[np.argmax(w)], "median of a single occupied bin"); return
    ev = np.arange(2 * m) * h / 2      # breakpoints of the piecewise-linear half-circle frequency
    f = np.array([_half_mass(x, m, w) for x in ev]) - n / 2
    if np.any(np.abs(f) < 1e-9):
        t.label("a split at a bin edge"); return
    down = [i for i in range(2 * m) if f[i] > 0 > f[(i + 1) % (2 * m)]]   # frequency ahead falls through one half
    if len(down) != 1:
        t.label("several splits"); return
    t.nontrivial(True); t.label("even" if m % 2 == 0 else "odd")
    i = down[0]; g = f[(i + 1) % (2 * m)]; exact = ev[i] + h / 2 * f[i] / (f[i] - g)
    t.angle_close(med, exact, "grouped median", atol=1e-4 if m % 2 == 0 else h + 1e-6)
    t.angle_close(rolled, med + c["roll"] * h, "grouped median rotates with its bins", atol=1e-4)
