"""C01-C05: data objects, purity and randomness."""
import copy, math, re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import beta as beta_dist
from pycircstat2 import Axial, Circular, descriptive as D, hypothesis as H, correlation as K, utils as U, clustering as CL, regression as RG
from pycircstat2 import distributions as DI
from core import facet, Skip
import gen
from gen import *

UNITS = st.one_of(st.sampled_from([["degree", None], ["radian", None], ["hour", None]]),
                  st.builds(lambda u, k: [u, k], st.sampled_from(["degree", "hour", "radian", "day", "week", "tick"]), st.one_of(st.sampled_from([7, 12, 24, 360, 365.25, 100, 1.0, 60]), log_uniform(0.1, 1000))))


def cycle(u):
    return {"degree": 360, "radian": TWO_PI, "hour": 24}[u[0]] if u[1] is None else u[1]


def unambiguous(a):
    """Deviation median of the directions is decided well above rounding."""
    dv = np.array([np.mean(arc(a, x)) for x in a])
    if np.ptp(dv) < 2e-5:
        return np.ptp(dv) == 0 and len(a) == 1
    near = dv < dv.min() + 2e-5
    frac = (dv[near] * 1e5) % 1
    if np.any(np.abs(frac - 0.5) < 1e-3):
        return False
    z = np.mean(np.exp(1j * a[np.round(dv, 5) == np.round(dv, 5).min()]))
    return abs(z) > 1e-4


def sig(p):
    return "***" if p <= 0.001 else "**" if p <= 0.01 else "*" if p <= 0.05 else "." if p <= 0.1 else ""


def text_value(txt, label):
    m = re.search(r"^\s*" + re.escape(label) + r"\s*(.*?)\s*$", txt, re.M)
    return None if m is None else m.group(1)


def shown(t, txt, label, val, places, tail=""):
    g = text_value(txt, label + ":")
    t.true(g is not None, f"summary lacks {label!r}:\n{txt}")
    num = g.split()[0]
    if not np.isfinite(val):
        t.true(num == str(float(val)), f"summary shows {label} = {num}, attribute is {val}"); return
    t.true(abs(float(num) - val) <= 0.5000001 * 10**-places + 1e-9 * abs(val), f"summary shows {label} = {num}, attribute is {val}")


def check_summary(t, o, k, axial=False):
    txt = o.summary()
    t.true(txt == str(o) == repr(o), "summary, str and repr differ")
    d = lambda x: np.nan if x is None else float(x) * k / TWO_PI
    t.true(text_value(txt, "Grouped?:") == ("Yes" if o.grouped else "No"), "grouped line")
    t.true(text_value(txt, "Unit:") == o.unit, "unit line"); t.true(text_value(txt, "Sample size:") == str(int(o.n)), "sample size line")
    shown(t, txt, "Angular mean", d(o.mean), 2)
    p = o.mean_test_result.pval
    m = text_value(txt, "Angular mean:")
    mm = re.search(r"\( p=([0-9.]+) (.*)\)", m)
    t.true(mm is not None and abs(float(mm.group(1)) - p) <= 0.50001e-4 and mm.group(2).strip() == sig(p), f"p-value shown as {m!r}, is {p} {sig(p)!r}")
    shown(t, txt, "Angular median", d(o.median), 2)
    shown(t, txt, "Angular deviation (s)", d(o.s), 2); shown(t, txt, "Circular standard deviation (s0)", d(o.s0), 2)
    shown(t, txt, "Concentration (r)", float(o.r), 2); shown(t, txt, "Concentration (kappa)", float(o.kappa), 2)
    shown(t, txt, "Skewness", float(o.skewness), 3); shown(t, txt, "Kurtosis", float(o.kurtosis), 3)
    for lab, lo, hi, lev in (("Angular mean CI", getattr(o, "mean_lb", np.nan), getattr(o, "mean_ub", np.nan), getattr(o, "mean_ci_level", np.nan)),
                             ("Angular median CI", getattr(o, "median_lb", np.nan), getattr(o, "median_ub", np.nan), getattr(o, "median_ci_level", np.nan))):
        m = re.search(re.escape(lab) + r" \(([0-9.]+)\): (-?[0-9.]+) - (-?[0-9.]+)", txt)
        if np.isnan(lo):
            t.true(m is None, f"summary shows a {lab} that the object does not have"); continue
        t.true(m is not None, f"summary lacks the {lab}")
        for g, v, tol in ((m.group(1), lev, 0.0050001), (m.group(2), d(lo), 0.0050001 + 1e-9 * k), (m.group(3), d(hi), 0.0050001 + 1e-9 * k)):
            t.true(abs(float(g) - v) <= tol, f"summary shows {lab} {m.group(0)!r}, attributes {lev} {d(lo)} {d(hi)}")
    t.true(text_value(txt, "Method") is not None and f"  Angular median: {o.kwargs_median['method']}\n" in txt and f"  Angular mean CI: {o.method_mean_ci}\n" in txt, "method lines")


def same(t, got, want, what, tol=0.0, **kw):
    g, w = np.asarray(got, float), np.asarray(want, float)
    t.true(g.shape == w.shape and np.allclose(g, w, rtol=1e-12, atol=1e-12 + tol, equal_nan=True), f"{what}: object has {got}, function gives {want}")


MEDKW = st.sampled_from([None, {}, {"method": "deviation"}, {"method": "deviation", "average_method": "unique"}, {"method": "count"}, {"method": "none"}, {"method": "count", "average_method": "all"}, {"return_average": True}])
CIKW = st.sampled_from([None, None, None, {"method": "dispersion"}, {"method": "approximate"}, {"method": "bootstrap"}, {}])


def mean_ci_expected(a, w, n, p, kw, gseed):
    """(method, level, lb, ub) by the documented selection rule."""
    if kw is None:
        method = None if not p < 0.05 else "bootstrap" if 8 <= n < 25 else "dispersion" if n >= 25 else None
    else:
        method = kw.get("method", "bootstrap")
    if method is None or not p < 0.05:
        return method, np.nan, np.nan
    np.random.seed(gseed)
    lb, ub = D.circ_mean_ci(alpha=a, w=w, ci=0.95, method=method)
    return method, lb, ub


@facet("C01", "attributes", st.fixed_dictionaries(dict(s=st.one_of(spread_sample(1, 45), spread_sample(1, 45), st.sampled_from([7, 8, 24, 25]).flatmap(lambda n: continuous_sample(n, n))), u=UNITS, aslist=st.booleans(), med=MEDKW, ci=CIKW, turns=SHIFT, gseed=st.integers(0, 1000))),
       quick=900, shards=4, rule="two or more distinct angles and a significant mean direction")
def c01_attr(c, t):
    a0 = angles(c["s"]); k = cycle(c["u"])
    data = a0 * k / TWO_PI
    if c["turns"] != [0]:
        data = data + k * gen.turn_counts(a0, c["turns"])
    a = TWO_PI * data / k
    w = np.ones(len(a)); n = len(a)
    kw = {}
    if c["med"] is not None:
        kw["kwargs_median"] = dict(c["med"])
    if c["ci"] is not None:
        kw["kwargs_mean_ci"] = dict(c["ci"])
    if c["u"][1] is not None:
        kw["full_cycle"] = c["u"][1]
    r = float(D.circ_r(a)); p = H.rayleigh_test(alpha=a).pval
    if abs(p - 0.05) < 1e-9 or (1 < n and r < 1e-6):
        raise Skip()
    lb = ub = None
    try:
        method, lb, ub = mean_ci_expected(a, w, n, p, c["ci"], c["gseed"])
        if method == "dispersion" and p < 0.05 and n < 25:
            t.fail("dispersion interval given for n < 25")
    except ValueError:
        lb = None
    np.random.seed(c["gseed"])
    build = lambda: Circular(data.tolist() if c["aslist"] else data, unit=c["u"][0], **copy.deepcopy(kw))
    if lb is None:      # the requested interval does not exist for these data
        try:
            build()
        except ValueError:
            return
        t.fail("object built although its interval is refused by the function")
    o = build()
    t.nontrivial(len(set(a0.tolist())) > 1 and p < 0.05); t.label(str(method)); t.label(c["u"][0])
    same(t, o.alpha, a, "angles"); t.true(int(o.n) == n and not o.grouped, "sample size")
    same(t, o.r, r, "resultant length"); same(t, o.R, n * r, "R", tol=1e-9)
    if r > 1e-6:
        t.angle_close(o.mean, D.circ_mean(a), "mean", atol=1e-9)
    rt = H.rayleigh_test(alpha=a)
    same(t, [o.mean_test_result.r, o.mean_test_result.z, o.mean_test_result.pval], [rt.r, rt.z, rt.pval], "Rayleigh test", tol=1e-9)
    t.close(o.kappa, D.circ_kappa(r, n=n), "kappa", rtol=1e-7, atol=1e-9)
    with np.errstate(all="ignore"):
        same(t, o.s, D.angular_std(alpha=a, bin_size=0), "angular deviation", tol=1e-7); same(t, o.s0, D.circ_std(alpha=a, bin_size=0), "circular standard deviation", tol=1e-7)
        if 1 - r > 1e-5:
            same(t, o.skewness, D.circ_skewness(alpha=a), "skewness", tol=1e-12 / (1 - r) ** 2.5 + 1e-12 / max(r, 1e-9)); same(t, o.kurtosis, D.circ_kurtosis(alpha=a), "kurtosis", tol=1e-12 / (1 - r) ** 2.5 + 1e-12 / max(r, 1e-9))
    mk = {"method": "deviation", "return_average": True, "average_method": "all", **(c["med"] or {})}
    med = D.circ_median(a, **mk)
    t.true(np.isnan(o.median) == np.isnan(med), "median defined")
    if not np.isnan(med):
        t.angle_close(o.median, med, "median", atol=1e-9)
        lo, hi, lev = D.circ_median_ci(median=float(med), alpha=a)
        same(t, [o.median_lb, o.median_ub, o.median_ci_level], [lo, hi, lev], "median interval")
    t.true(o.method_mean_ci == method, f"interval method {o.method_mean_ci}, expected {method}")
    if np.isnan(lb):
        t.true(np.isnan(o.mean_lb) and np.isnan(o.mean_ub), "interval reported without a significant direction")
    else:
        t.angle_close([o.mean_lb, o.mean_ub], [lb, ub], "mean interval", atol=1e-9); t.close(o.mean_ci_level, 0.95, "level")
    check_summary(t, o, k)


@facet("C01", "units", st.fixed_dictionaries(dict(s=spread_sample(1, 45), u1=UNITS, u2=UNITS, turns=SHIFT)), quick=700, shards=2, rule="the two descriptions use different cycles")
def c01_units(c, t):
    a = angles(c["s"]); n = len(a)
    r = min(1.0, abs(resultant(a)))
    if r < 1e-6 or abs(r - 0.7) < 1e-9 or abs(r - 0.53) < 1e-9 or abs(r - 0.85) < 1e-9:
        raise Skip()
    if 8 <= n < 25:
        ci = {"method": "approximate"}
        try:
            D.circ_mean_ci(alpha=a, method="approximate")
        except ValueError:
            raise Skip()
    else:
        ci = None
    os = []
    for u in (c["u1"], c["u2"]):
        k = cycle(u)
        d = a * k / TWO_PI + k * gen.turn_counts(a, c["turns"])
        os.append(Circular(d, unit=u[0], full_cycle=u[1], **({"kwargs_mean_ci": ci} if ci else {})))
    p, q = os
    t.nontrivial(cycle(c["u1"]) != cycle(c["u2"]))
    t.angle_close(p.mean, q.mean, "mean", atol=1e-6); t.angle_close(p.mean, np.angle(resultant(a)), "mean", atol=1e-6)
    t.close(p.r, r, "r", atol=1e-9); t.close(q.r, r, "r", atol=1e-9)
    t.close(p.kappa, q.kappa, "kappa", rtol=1e-5) if 1 - r > 1e-9 else None
    if 1 - r > 1e-4:
        t.close([p.s, p.s0, p.skewness, p.kurtosis], [q.s, q.s0, q.skewness, q.kurtosis], "spread and shape", rtol=1e-5, atol=1e-6)
    t.close(p.mean_test_result.pval, q.mean_test_result.pval, "p", atol=1e-7)
    if abs(p.mean_test_result.pval - 0.05) > 1e-6:
        t.angle_close([p.mean_lb, p.mean_ub], [q.mean_lb, q.mean_ub], "mean interval", atol=1e-5)
    if unambiguous(a):
        t.label("median compared")
        t.angle_close(p.median, q.median, "median", atol=1e-6)
        z = np.sort(np.mod(a, TWO_PI)); g = np.diff(np.r_[z, z[0] + TWO_PI])
        if not np.any((g > 0) & (g < 1e-6)) and not np.any((arc(a, p.median + math.pi) < 1e-6) & (arc(a, p.median + math.pi) > 0)):
            lo = [float(getattr(x, "median_lb", np.nan)) for x in os]; hi = [float(getattr(x, "median_ub", np.nan)) for x in os]
            t.angle_close(lo[0], lo[1], "median interval", atol=1e-6); t.angle_close(hi[0], hi[1], "median interval", atol=1e-6)


@facet("C01", "mixtures", st.fixed_dictionaries(dict(s=continuous_sample(12, 40), k=st.integers(2, 3), u=UNITS, grouped=st.booleans())), quick=24, thorough=600, shards=4, rule="the object compares at least two component counts")
def c01_mix(c, t):
    a = angles(c["s"]); cyc = cycle(c["u"])
    if c["grouped"]:
        m = 18; w = np.bincount(np.floor(a * m / TWO_PI).astype(int) % m, minlength=m); ctr = (np.arange(m) + 0.5) * TWO_PI / m
        kw = dict(data=ctr * cyc / TWO_PI, w=w); full = np.repeat(ctr, w)
    else:
        kw = dict(data=a * cyc / TWO_PI); full = a
    o = Circular(**kw, unit=c["u"][0], full_cycle=c["u"][1], n_clusters_max=c["k"])
    full = np.repeat(o.alpha, o.w)
    t.nontrivial(True); t.label("grouped" if c["grouped"] else "raw")
    t.true(len(o.mixtures) == c["k"] == len(o.mixtures_BIC), "one mixture per component count")
    for i, m in enumerate(o.mixtures):
        t.close(o.mixtures_BIC[i], m.compute_BIC(), "stored criterion"); t.true(m.n_clusters == i + 1, "component count")
        ref = CL.MovM(n_clusters=i + 1, unit="radian", full_cycle=cyc, random_seed=0); ref.fit(np.asarray(full))
        t.close(np.sort(ref.p_), np.sort(m.p_), "mixture weights", atol=1e-6); t.close(ref.compute_BIC(), m.compute_BIC(), "criterion", rtol=1e-6, atol=1e-6)
    b = np.array(o.mixtures_BIC, float)
    if not np.all(np.isnan(b)):
        t.true(o.mixture_opt is o.mixtures[int(np.nanargmin(b))], "the selected mixture does not have the smallest criterion")
        want = "Yes" if o.mixture_opt.n_clusters == 1 else f"No (n_clusters={o.mixture_opt.n_clusters})"
        t.true(text_value(o.summary(), "Unimodal?:") == want, "unimodality line")


@facet("C01", "refuse", st.fixed_dictionaries(dict(u=st.text(min_size=1, max_size=8), n=st.integers(2, 6))), quick=40, rule="always")
def c01_refuse(c, t):
    t.nontrivial(True)
    if c["u"] not in ("degree", "radian", "hour"):
        try:
            Circular(np.arange(c["n"]) * 1.0, unit=c["u"])
        except ValueError:
            pass
        else:
            t.fail("unknown unit without a cycle accepted")
    try:
        Circular(np.arange(c["n"]) * 1.0, w=np.ones(c["n"] + 1))
    except (AssertionError, ValueError):
        return
    t.fail("weights of a different length accepted")


# ---------------------------------------------------------------- C02
def counts_of(c):
    m = c["m"]; rng = np.random.default_rng(c["seed"])
    a = gen.vm_draw(rng, c["mu"], c["kappa"], c["n"])
    return np.histogram(a, bins=m, range=(0, TWO_PI))[0], a


GROUPED = dict(m=st.integers(2, 36), n=st.integers(1, 200), mu=ANGLE, kappa=log_uniform(0.05, 20), seed=SEEDS)


def grouped_stats(t, o, ctr, w, h, what):
    X = np.repeat(ctr, w); n = len(X); z = resultant(X); r = min(1.0, abs(z))
    t.true(int(o.n) == n, f"{what}: total count {o.n} != {n}"); t.true(o.grouped is True, f"{what}: grouped flag")
    t.close(o.r, r, f"{what}: resultant", atol=1e-10); t.close(o.R, n * r, f"{what}: R", atol=1e-7)
    t.close(o.bin_size, h, f"{what}: bin size", atol=1e-9)
    if r > 1e-6:
        t.angle_close(o.mean, np.angle(z), f"{what}: mean", atol=1e-8)
        rt = H.rayleigh_test(alpha=X)
        t.close([o.mean_test_result.r, o.mean_test_result.z, o.mean_test_result.pval], [rt.r, rt.z, rt.pval], f"{what}: Rayleigh", atol=1e-7)
        if min(abs(r - e) for e in (0.53, 0.85, 0.7)) > 1e-9:
            t.close(o.kappa, D.circ_kappa(r, n=n), f"{what}: kappa", rtol=1e-6)
    rc = r * (h / 2) / math.sin(h / 2)
    if 1e-6 < rc < 1 - 1e-9:
        t.close(o.s, math.sqrt(2 * (1 - rc)), f"{what}: angular deviation with grouping correction", atol=1e-7)
        t.close(o.s0, math.sqrt(-2 * math.log(rc)), f"{what}: circular standard deviation with grouping correction", atol=1e-6)
    if r > 1e-4 and 1 - r > 1e-5:
        t.close([o.skewness, o.kurtosis], [D.circ_skewness(X), D.circ_kurtosis(X)], f"{what}: skewness, kurtosis", rtol=1e-6, atol=1e-9 / (1 - r) ** 2 + 1e-8 / r)


def same_objects(t, p, q, what):
    for f in ("n", "r", "kappa", "skewness", "kurtosis", "s", "s0", "bin_size"):
        if f in ("skewness", "kurtosis") and (p.r > 1 - 1e-5 or p.r < 1e-4):
            continue
        t.close(getattr(p, f), getattr(q, f), f"{what}: {f}", rtol=1e-6, atol=1e-7 if p.r < 0.999 else 1e-3)
    if p.r > 1e-6:
        t.angle_close(p.mean, q.mean, f"{what}: mean", atol=1e-6)
    if p.method_mean_ci != "bootstrap":
        t.angle_close([p.mean_lb, p.mean_ub], [q.mean_lb, q.mean_ub], f"{what}: mean interval", atol=1e-5)


def edge_safe(a, edges):
    return np.min(arc(np.asarray(a)[:, None], np.asarray(edges)[None, :])) > 1e-9


@facet("C02", "frequencies", st.fixed_dictionaries(dict(GROUPED, u=UNITS, off=st.one_of(st.just(0.5), st.just(0.0), finite(0, 1)), aslist=st.booleans(), roll=st.integers(0, 40))), quick=800, shards=3, rule="at least two occupied bins")
def c02_freq(c, t):
    w, _ = counts_of(c); m = c["m"]; h = TWO_PI / m; k = cycle(c["u"])
    ctr = (np.arange(m) + c["off"]) * h
    data = ctr * k / TWO_PI
    z = min(1.0, abs(resultant(ctr, w)))
    if abs(H.rayleigh_test(r=z, n=int(w.sum())).pval - 0.05) < 1e-9:
        raise Skip()
    o = Circular(data.tolist() if c["aslist"] else data, w=w.tolist() if c["aslist"] else w, unit=c["u"][0], full_cycle=c["u"][1])
    t.nontrivial(np.sum(w > 0) > 1)
    if m > 2:
        grouped_stats(t, o, ctr, w, h, "frequencies")
    t.close(o.alpha_lb, ctr - h / 2, "lower bin bounds", atol=1e-9); t.close(o.alpha_ub, ctr + h / 2, "upper bin bounds", atol=1e-9)
    if o.method_mean_ci == "dispersion" and not np.isnan(o.mean_lb):
        t.label("interval")
        t.angle_close([o.mean_lb, o.mean_ub], D.circ_mean_ci(alpha=np.repeat(ctr, w), method="dispersion"), "interval of the expanded sample", atol=1e-7)
    # the same bins listed from another starting bin
    j = c["roll"] % m
    if np.all(w == 1):
        return
    q = Circular(np.roll(data, j), w=np.roll(w, j), unit=c["u"][0], full_cycle=c["u"][1])
    same_objects(t, o, q, "bins listed in another order")
    check_summary(t, o, k)


@facet("C02", "mixtures", st.fixed_dictionaries(dict(m=st.sampled_from([8, 12, 18]), mu=ANGLE, kappa=log_uniform(0.5, 8.0), n=st.integers(12, 400), seed=SEEDS, k=st.integers(2, 3), u=UNITS, how=st.sampled_from(["w", "bins"]))), quick=24, thorough=600, shards=4,
       rule="some bin holds more than one observation")
def c02_mix(c, t):
    m = c["m"]; cyc = cycle(c["u"]); a = gen.vm_draw(np.random.default_rng(c["seed"]), c["mu"], c["kappa"], c["n"])
    if not edge_safe(a, np.linspace(0, TWO_PI, m + 1)):
        raise Skip()
    w = np.bincount(np.floor(a * m / TWO_PI).astype(int) % m, minlength=m); ctr = (np.arange(m) + 0.5) * TWO_PI / m
    if np.all(w <= 1):
        raise Skip()
    kw = dict(data=ctr * cyc / TWO_PI, w=w) if c["how"] == "w" else dict(data=a * cyc / TWO_PI, bins=m)
    o = Circular(**kw, unit=c["u"][0], full_cycle=c["u"][1], n_clusters_max=c["k"])
    t.nontrivial(np.max(w) > 1); t.label(c["how"])
    u = Circular(np.repeat(o.alpha, w), unit="radian", n_clusters_max=c["k"])
    t.close(o.mixtures_BIC, u.mixtures_BIC, f"mixture criteria of frequencies {w.tolist()} against the expanded sample", rtol=1e-6, atol=1e-5)
    for x, y in zip(o.mixtures, u.mixtures):
        t.close(np.sort(x.p_), np.sort(y.p_), "mixture weights against the expanded sample", atol=1e-5)


@facet("C02", "binning", st.fixed_dictionaries(dict(GROUPED, u=UNITS, how=st.sampled_from(["int", "npint", "edges", "edge_list", "shifted"]), turns=SHIFT, e0=finite(-7, 7))), quick=800, shards=3, rule="at least two occupied bins")
def c02_bin(c, t):
    _, a = counts_of(c); m = c["m"]; h = TWO_PI / m; k = cycle(c["u"])
    e0 = c["e0"] if c["how"] == "shifted" else 0.0
    edges = e0 + np.linspace(0, TWO_PI, m + 1)
    if not edge_safe(a, edges) or m < 3:
        raise Skip()
    w = np.bincount(np.floor(np.mod(a - e0, TWO_PI) / h).astype(int) % m, minlength=m); ctr = e0 + (np.arange(m) + 0.5) * h
    z = min(1.0, abs(resultant(ctr, w)))
    if abs(H.rayleigh_test(r=z, n=len(a)).pval - 0.05) < 1e-9:
        raise Skip()
    data = (a + TWO_PI * gen.turn_counts(a, c["turns"])) * k / TWO_PI
    bins = {"int": m, "npint": np.int64(m), "edges": edges, "edge_list": edges.tolist(), "shifted": edges}[c["how"]]
    o = Circular(data, bins=bins, unit=c["u"][0], full_cycle=c["u"][1])
    t.nontrivial(np.sum(w > 0) > 1); t.label(c["how"])
    t.true(np.array_equal(o.w, w), f"bin counts {np.asarray(o.w).tolist()} want {w.tolist()}")
    t.close(o.alpha, ctr, "bin centres", atol=1e-9)
    t.close(o.alpha_lb, edges[:-1], "lower bounds", atol=1e-9); t.close(o.alpha_ub, edges[1:], "upper bounds", atol=1e-9)
    grouped_stats(t, o, ctr, w, h, "binned raw angles")
    if not np.all(w == 1) and abs(o.r) > 1e-6:
        q = Circular(np.mod(ctr, TWO_PI) if c["how"] == "shifted" else ctr, w=w, unit="radian")
        same_objects(t, o, q, "binned vs given frequencies")
        if not np.isnan(o.median) and c["how"] != "shifted":
            t.angle_close(o.median, q.median, "median", atol=1e-6)


@facet("C02", "tests", st.fixed_dictionaries(dict(m=st.integers(3, 24), gs=st.lists(st.tuples(st.integers(2, 60), ANGLE, log_uniform(0.3, 10), SEEDS).map(list), min_size=2, max_size=4), u=UNITS, angle=ANGLE)), quick=300, shards=4, rule="at least two occupied bins in some group")
def c02_tests(c, t):
    m = c["m"]; ctr = (np.arange(m) + 0.5) * TWO_PI / m; k = cycle(c["u"])
    ws = [np.histogram(gen.vm_draw(np.random.default_rng(s), mu, kap, n), bins=m, range=(0, TWO_PI))[0] for n, mu, kap, s in c["gs"]]
    X = [np.repeat(ctr, w) for w in ws]; os = []
    for i, w in enumerate(ws):
        os.append(Circular(ctr * k / TWO_PI, w=w, unit=c["u"][0], full_cycle=c["u"][1], kwargs_median={"method": "none"}) if i % 2 == 0 or True else X[i])
    t.nontrivial(any(np.sum(w > 0) > 1 for w in ws))
    rnd = [np.round(x, 12) for x in X]
    # objects carry rounded angles after a unit conversion: compare on their own angles
    Y = [np.repeat(o.alpha, o.w) for o in os]
    for name, f in (("Watson U2", lambda s: (H.watson_u2_test(s).U2, H.watson_u2_test(s).pval)), ("uniform scores", lambda s: (H.wheeler_watson_test(s).W, H.wheeler_watson_test(s).pval)),
                    ("Wallraff", lambda s: (H.wallraff_test(s, angle=c["angle"]).U, H.wallraff_test(s, angle=c["angle"]).pval)),
                    ("randomisation", lambda s: (H.angular_randomisation_test(s, n_simulation=5, seed=1).statistic,)),
                    ("Watson-Williams", lambda s: (H.watson_williams_test(s).F, H.watson_williams_test(s).pval))):
        pick = slice(0, 2) if name in ("Watson U2", "Wallraff", "randomisation") else slice(None)
        if name == "Watson-Williams":
            R = sum(len(x) * abs(resultant(x)) for x in X); N = sum(map(len, X))
            if N - R < 1e-6 or N <= len(X) or abs(resultant(np.hstack(X))) < 1e-6 or min(abs(R / N - e) for e in (0.53, 0.85)) < 1e-9:
                continue
        t.close(f(os[pick]), f(Y[pick]), f"{name}: objects vs the grouped sample", rtol=1e-6, atol=1e-7)
    o, x = os[0], Y[0]
    if abs(resultant(x)) > 1e-6:
        t.close(H.rayleigh_test(alpha=o.alpha, w=o.w).pval, H.rayleigh_test(alpha=x).pval, "Rayleigh", atol=1e-8)
        t.close(o.mean_test_result.pval, H.rayleigh_test(alpha=x).pval, "Rayleigh of the object", atol=1e-8)


# ---------------------------------------------------------------- C03
@facet("C03", "doubling", st.fixed_dictionaries(dict(s=spread_sample(1, 45), u=UNITS, flips=st.lists(st.booleans(), min_size=1, max_size=9), turns=SHIFT, aslist=st.booleans(), med=MEDKW, ci=CIKW, gseed=st.integers(0, 1000))),
       quick=600, shards=4, rule="some observation is turned by half a cycle and the mean direction is significant")
def c03_double(c, t):
    b = angles(c["s"])          # doubled angles
    k = cycle(c["u"]); n = len(b)
    ax = b / 2                  # axes in [0, pi)
    d0 = ax * k / TWO_PI
    flip = np.array([c["flips"][i % len(c["flips"])] for i in range(n)])
    d1 = d0 + flip * k / 2 + k * gen.turn_counts(b, c["turns"])
    r = min(1.0, abs(resultant(b))); p = H.rayleigh_test(r=r, n=n).pval
    if r < 1e-6 and n > 1 or abs(p - 0.05) < 1e-9 or min(abs(r - e) for e in (0.53, 0.7, 0.85)) < 1e-9:
        raise Skip()
    kw = dict(unit=c["u"][0], full_cycle=c["u"][1])
    if c["ci"] is not None:
        kw["kwargs_mean_ci"] = c["ci"]
    if c["med"] is not None:
        kw["kwargs_median"] = c["med"]
    try:
        np.random.seed(c["gseed"]); ref = Circular(np.mod(2 * d0, k), **copy.deepcopy(kw))
    except ValueError:
        raise Skip()
    objs = []
    for d in (d0, d1):
        np.random.seed(c["gseed"]); objs.append(Axial(d.tolist() if c["aslist"] else d, **copy.deepcopy(kw)))
    t.nontrivial(flip.any() and p < 0.05)
    stable = unambiguous(b) and (c["med"] or {}).get("method", "deviation") == "deviation" and (c["med"] or {}).get("average_method", "all") == "all"
    for o, d in zip(objs, (d0, d1)):
        t.angle_close(o.alpha_double, b, "doubled angles", atol=1e-7)
        dd = np.asarray(o.data_double, float)
        t.true(np.all(dd >= 0) and np.all(dd <= k * (1 + 1e-12)), f"doubled observations outside one cycle of {k}: {dd.min()}..{dd.max()}")
        t.angle_close(dd * TWO_PI / k, b, "doubled observations", atol=1e-7)
        t.close(o.alpha, TWO_PI * d / k, "angles of the axes", atol=1e-9)
        t.close(o.r, r, "resultant of the doubled angles", atol=1e-8); t.true(int(o.n) == n, "sample size")
        t.close(o.mean_test_result.pval, ref.mean_test_result.pval, "p-value", rtol=1e-5, atol=1e-7)
        if 1 - r > 1e-9:
            t.close(o.kappa, ref.kappa, "concentration", rtol=1e-5, atol=1e-7)
        if 1 - r > 1e-4:
            t.close([o.s, o.s0, o.skewness, o.kurtosis], [ref.s, ref.s0, ref.skewness, ref.kurtosis], "spread and shape of the doubled angles", rtol=1e-5, atol=1e-5)
        t.angle_close(o.mean, np.angle(resultant(b)) / 2, "mean axis", atol=1e-7, period=math.pi)
        t.true(-1e-9 <= o.mean < math.pi + 1e-9, f"mean axis {o.mean} outside half a turn")
        t.true(np.isnan(o.mean_lb) == np.isnan(ref.mean_lb), "interval exists")
        if not np.isnan(o.mean_lb):
            tol = 1e-6 if o.method_mean_ci != "bootstrap" else 1e-5
            t.angle_close([o.mean_lb, o.mean_ub], [ref.mean_lb / 2, ref.mean_ub / 2], "interval of the mean axis", atol=tol, period=math.pi)
        if stable:
            t.label("median")
            t.angle_close(o.median, ref.median / 2, "median axis", atol=1e-6, period=math.pi)
            g = np.diff(np.sort(np.r_[b, b + TWO_PI])); far = arc(b, 2 * o.median + math.pi) if not np.isnan(o.median) else np.ones(1)
            if not np.any((g > 0) & (g < 1e-6)) and not np.any(far < 1e-6):
                lo = [float(getattr(x, a, np.nan)) for x in (o, ref) for a in ("median_lb", "median_ub")]
                t.angle_close(lo[:2], [lo[2] / 2, lo[3] / 2], "interval of the median axis", atol=1e-6, period=math.pi)
        check_summary(t, o, k, axial=True)


@facet("C03", "grouped", st.fixed_dictionaries(dict(GROUPED, u=UNITS, how=st.sampled_from(["w", "bins", "edges"]), flips=st.lists(st.booleans(), min_size=1, max_size=9))), quick=500, shards=2, rule="at least two occupied bins")
def c03_grouped(c, t):
    if c["m"] < 3:
        raise Skip()
    w, b = counts_of(c); m = c["m"]; h = TWO_PI / m; k = cycle(c["u"]); ctr = (np.arange(m) + 0.5) * h
    if not edge_safe(b, np.arange(m) * h) or np.all(w == 1):
        raise Skip()
    r = min(1.0, abs(resultant(ctr, w)))
    if r < 1e-6 or abs(H.rayleigh_test(r=r, n=int(w.sum())).pval - 0.05) < 1e-9 or min(abs(r - e) for e in (0.53, 0.7, 0.85)) < 1e-9:
        raise Skip()
    kw = dict(unit=c["u"][0], full_cycle=c["u"][1])
    if c["how"] == "w":
        o = Axial(ctr / 2 * k / TWO_PI, w=w, **kw)
    else:
        flip = np.array([c["flips"][i % len(c["flips"])] for i in range(len(b))])
        o = Axial((b / 2 + flip * math.pi) * k / TWO_PI, bins=m if c["how"] == "bins" else np.linspace(0, TWO_PI, m + 1), **kw)
    t.nontrivial(np.sum(w > 0) > 1); t.label(c["how"])
    t.true(np.array_equal(o.w, w), f"frequencies {np.asarray(o.w).tolist()} want {w.tolist()}")
    t.angle_close(o.alpha_double, ctr, "doubled bin centres", atol=1e-8)
    dd = np.asarray(o.data_double, float)
    t.true(np.all(dd >= 0) and np.all(dd <= k * (1 + 1e-12)), f"doubled observations outside one cycle of {k}: {dd.min()}..{dd.max()}")
    t.true(len(o.alpha) == len(o.w), f"{len(o.alpha)} angles for {len(o.w)} frequencies")
    t.angle_close(o.alpha, ctr / 2, "axes of the bins", atol=1e-8, period=math.pi)
    t.angle_close(o.mean, np.angle(resultant(ctr, w)) / 2, "mean axis", atol=1e-7, period=math.pi)
    q = Circular(ctr, w=w, unit="radian")
    for f in ("n", "r", "kappa", "skewness", "kurtosis"):
        if f in ("skewness", "kurtosis") and (r > 1 - 1e-5 or r < 1e-4):
            continue
        t.close(getattr(o, f), getattr(q, f), f, rtol=1e-6, atol=1e-7 if r < 0.999 else 1e-3)
    t.close(o.bin_size, h, "bin size", atol=1e-8)
    if r * (h / 2) / math.sin(h / 2) < 1 - 1e-6:
        t.close([o.s, o.s0], [q.s, q.s0], "spread", rtol=1e-5, atol=1e-6)
    if not np.isnan(q.median):
        t.angle_close(o.median, q.median / 2, "median axis", atol=1e-5, period=math.pi)
    if q.method_mean_ci == "dispersion":
        t.angle_close([o.mean_lb, o.mean_ub], [q.mean_lb / 2, q.mean_ub / 2], "interval", atol=1e-6, period=math.pi)
    check_summary(t, o, k, axial=True)
