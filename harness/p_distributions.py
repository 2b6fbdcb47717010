"""F01-F11: the circular distribution families."""
import sys, threading, time
import math, os, pickle, signal, struct
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq, minimize
from scipy.special import i0e, i1e
from scipy.stats import kstest
from pycircstat2 import distributions as DI
from pycircstat2.descriptive import circ_mean_and_r, circ_kappa
from core import facet, Skip, Violation
import gen
from gen import *
import families as FM
from families import FAMILIES, NAMES, any_case, Ref, circ, MU

OFFS = st.one_of(finite(-math.pi, math.pi), st.builds(lambda s, e: s * e, st.sampled_from([-1, 1]), log_uniform(1e-6, 3.0)), st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi]))
POINT = st.one_of(st.builds(lambda o: ["loc", o], OFFS), st.builds(lambda a: ["abs", a], st.one_of(ANGLE, st.sampled_from([0.0, TWO_PI, 1e-9, 1e-5, TWO_PI - 1e-9, TWO_PI - 1e-5]))))
POINTS = st.lists(POINT, min_size=1, max_size=12)
QS = st.lists(st.one_of(finite(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5, 0.25, 1e-3, 1 - 1e-3, 1e-6, 1 - 1e-6]), st.sampled_from([1e-300, 1e-43, 1e-17, 1e-16, 1e-13, 1 - 1e-13, 1 - 1.2e-16]), log_uniform(1e-9, 1.0)), min_size=1, max_size=10)
FAST = [n for n in NAMES if n != "inverse_batschelet"]
LOCATED = [n for n in NAMES if FAMILIES[n].loc is not None]


def fam(c):
    f = FAMILIES[c["fam"]]
    return f, f.dist, [float(v) for v in c["par"]]


def loc(f, par):
    return par[f.loc] if f.loc is not None else 0.0


def points(c, f, par):
    """Angles in [0, 2pi]; 2pi itself is kept."""
    out = []
    for kind, v in c["x"]:
        a = v if kind == "abs" else loc(f, par) + v
        out.append(a if 0 <= a <= TWO_PI else float(np.mod(a, TWO_PI)))
    return np.array(out)


def peak(ref):
    return float(np.max(ref.pdf(ref._nodes + ref.loc)))


def flat(par, f):
    return all(abs(v) < 1e-9 for i, v in enumerate(par) if i != f.loc)


def coarse(f, ref):
    """How badly a 512-panel trapezoid rule integrates the reference density (for the table-driven families)."""
    g = np.linspace(-math.pi, math.pi, 513)
    p = ref.pdf(g + ref.loc)
    cum = np.concatenate([[0.0], np.cumsum((p[1:] + p[:-1]) / 2)]) * TWO_PI / 512
    return float(np.max(np.abs(cum / cum[-1] - ref.H(g))))


def cdf_tol(f, ref):
    """(tolerance, key of the known finding when outside the resolved domain)"""
    if f.name == "inverse_batschelet":
        return 5e-4, None
    return f.cdf_tol, None


PDF_TOL = {"inverse_batschelet": 1e-4, "wrapcauchy": 3e-7, "wrapstable": 1e-9, "katojones": 1e-8}

# ---- F01 -------------------------------------------------------------------------


@facet("F01", "density", any_case(x=POINTS, turns=st.integers(-4, 4), rot=MU), quick=1500, shards=3,
       rule="density not constant over the circle")
def f01_density(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    x = points(c, f, par)
    p = np.asarray(d.pdf(x, *par))
    t.true(np.all(np.isfinite(p)), f"{f.name}{par}: density {p} is not finite at {x}")
    nodes = np.mod(ref._nodes + ref.loc, TWO_PI)
    pn = np.asarray(d.pdf(nodes, *par))
    top = float(np.max(pn))
    slack = (1e-9 if f.name == "wrapstable" else 0.0) * top
    t.true(np.all(p >= -slack) and np.all(pn >= -slack), f"{f.name}{par}: negative density {min(p.min(), pn.min())}")
    half = np.repeat(np.diff(ref.edges) / 2, len(FM._GL_W))
    mass = float(np.sum(pn * np.tile(FM._GL_W, len(ref.edges) - 1) * half))
    t.close(mass, 1.0, f"{f.name}{par}: total probability", atol={"inverse_batschelet": 1e-4, "wrapcauchy": 1e-6}.get(f.name, 1e-8))
    t.nontrivial(top > 1.01 / TWO_PI)
    # rounding of the angle matters at cusps (concave Cartwright densities)
    slope = np.max([np.abs(ref.pdf(x + e * 1e-14 * (1 + abs(c["turns"]))) - ref.pdf(x)) for e in (-1, 1)], axis=0)
    tol = 1e-6 * top + 5 * slope
    t.close(d.pdf(x + TWO_PI * c["turns"], *par), p, f"{f.name}{par}: density after {c['turns']} turns", atol=tol, rtol=1e-6)
    lp = np.asarray(d.logpdf(x, *par))
    ok = p > 1e-12 * top
    t.close(lp[ok], np.log(p[ok]), f"{f.name}{par}: logpdf vs log(pdf)", atol=1e-7, rtol=1e-7)
    t.true(not np.any(np.isnan(lp) | (lp > math.log(top) + 1e-5)), f"{f.name}{par}: logpdf {lp} NaN or above the maximum")
    if f.loc is not None:
        par2 = list(par); par2[f.loc] = float(np.mod(par[f.loc] + c["rot"], TWO_PI))
        t.close(d.pdf(np.mod(x + c["rot"], TWO_PI), *par2), p, f"{f.name}{par}: density rotated by {c['rot']}", atol=tol + (1e-4 * top if f.name == "inverse_batschelet" else 0), rtol=1e-6)


# ---- F02 -------------------------------------------------------------------------


@facet("F02", "formula", any_case(x=POINTS), quick=2500, shards=4, rule="density not constant over the circle")
def f02_formula(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    x = points(c, f, par)
    w = ref.pdf(x)
    top = peak(ref)
    t.nontrivial(top > 1.01 / TWO_PI)
    tol = PDF_TOL.get(f.name, 1e-9)
    wob = np.max([np.abs(ref.pdf(x + e) - w) for e in (-1e-15, 1e-15)], axis=0)      # rounding of the angle near a cusp
    t.close(d.pdf(x, *par), w, f"{f.name}{par}: density at {list(x)}", rtol=max(tol, 1e-7), atol=tol * top + 2 * wob)
    with np.errstate(all="ignore"):
        lw = ref.logpdf(x)
        ok = (w > 1e-5 * top) if f.name in ("wrapstable", "inverse_batschelet", "katojones") else (w > 1e-13)
        wob = np.max([np.abs(ref.logpdf(x + e) - lw) for e in (-1e-14, -1e-15, 1e-15, 1e-14)], axis=0)    # rounding of the angle near a zero
        ok &= np.isfinite(wob)
    t.close(np.asarray(d.logpdf(x, *par))[ok], lw[ok], f"{f.name}{par}: log-density at {list(x[ok])}", rtol=1e-6, atol=(2e-3 if f.name == "inverse_batschelet" else 1e-6) + 3 * wob[ok])


# ---- F03 -------------------------------------------------------------------------


@facet("F03", "integral", any_case(x=POINTS), quick=2000, shards=4, rule="density not constant over the circle")
def f03_integral(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    tol, key = cdf_tol(f, ref)
    x = np.sort(points(c, f, par))
    t.nontrivial(peak(ref) > 1.01 / TWO_PI)
    F = np.asarray(d.cdf(x, *par))
    t.close(d.cdf(0.0, *par), 0.0, f"{f.name}{par}: F(0)", atol=1e-12)
    t.close(d.cdf(TWO_PI, *par), 1.0, f"{f.name}{par}: F(2pi)", atol=1e-12)
    t.true(np.all((F >= 0) & (F <= 1)), f"{f.name}{par}: F outside [0,1]: {F} at {x}")
    t.true(np.all(np.diff(F) >= -1e-10), f"{f.name}{par}: F decreases: {F} at {x}", key=key)
    t.close(F, ref.cdf(x), f"{f.name}{par}: distribution function at {list(x)}", atol=tol, rtol=0, key=key)
    t.close(d.sf(x, *par), 1 - F, f"{f.name}{par}: survival function", atol=1e-9)
    ok = F > 1e-8
    t.close(np.asarray(d.logcdf(x, *par))[ok], np.log(F[ok]), f"{f.name}{par}: logcdf", atol=1e-7, rtol=1e-7)
    ok = F < 1 - 1e-8
    t.close(np.asarray(d.logsf(x, *par))[ok], np.log1p(-F[ok]), f"{f.name}{par}: logsf", atol=1e-6, rtol=1e-6)


@facet("F03", "rotation", any_case(LOCATED, x=POINTS, rot=MU), quick=800, shards=2, rule="density not constant over the circle")
def f03_rotation(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    tol, key = cdf_tol(f, ref)
    t.label(c["fam"]); t.nontrivial(peak(ref) > 1.01 / TWO_PI)
    x = points(c, f, par)
    par2 = list(par); par2[f.loc] = float(np.mod(par[f.loc] + c["rot"], TWO_PI))
    y = np.mod(x + c["rot"], TWO_PI); y0 = float(np.mod(c["rot"], TWO_PI))
    # arc [0, x] rotates to [rot, rot + x]
    m1 = np.mod(np.asarray(d.cdf(y, *par2)) - d.cdf(y0, *par2), 1.0)
    m0 = np.mod(np.asarray(d.cdf(x, *par)), 1.0)
    gap = np.abs(np.mod(m1 - m0 + 0.5, 1.0) - 0.5)
    t.true(np.all(gap <= 3 * tol + 1e-6 * peak(ref)), f"{f.name}{par}: probability of [0, x] changes by {gap.max()} under rotation by {c['rot']}, x={list(x)}", key=key)


# ---- F04 -------------------------------------------------------------------------


@facet("F04", "inverse", any_case(q=QS, x=POINTS), quick=1500, shards=4, rule="density not constant over the circle")
def f04_inverse(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    tol, key = cdf_tol(f, ref)
    top = peak(ref)
    t.nontrivial(top > 1.01 / TWO_PI)
    q = np.sort(np.array(c["q"]))
    v = np.asarray(d.ppf(q, *par), float)
    t.true(v.shape == q.shape and np.all((v >= 0) & (v <= TWO_PI)), f"{f.name}{par}: quantiles {v} of {q} outside one turn")
    res = ((q >= 1e-9) & (q <= 1 - 1e-9)) | (q == 0) | (q == 1)      # finer probabilities are not resolved where the density vanishes
    t.true(np.all(np.diff(v[res]) >= -1e-9 * (1 + 1 / top)), f"{f.name}{par}: quantiles decrease: {v} at {q}")
    back = np.asarray(d.cdf(v, *par))
    rt = max(3e-8 * (1 + top), 1e-7)
    t.close(back, q, f"{f.name}{par}: F(Q(q)) at q={list(q)}", atol=rt, rtol=0, key=key)
    t.close(ref.cdf(v), q, f"{f.name}{par}: reference F at Q(q), q={list(q)}", atol=tol + rt, rtol=0, key=key)
    x = points(c, f, par)
    x = x[(x > 0) & (x < TWO_PI)]
    if x.size:
        u = np.asarray(d.cdf(x, *par))
        w = ref.pdf(x)
        ok = (w > 1e-3) & (u > 1e-9) & (u < 1 - 1e-9)
        if ok.any() and key is None:
            y = np.asarray(d.ppf(u[ok], *par))
            t.true(np.all(np.abs(y - x[ok]) <= 2 * rt / np.minimum(w[ok], 1) + 1e-6), f"{f.name}{par}: Q(F(x)) = {y} for x={list(x[ok])}")
    bad = np.asarray(d.ppf([-0.1, 1.1, float("nan"), 0.5], *par), float)
    t.true(np.all(np.isnan(bad[:3])) and np.isfinite(bad[3]), f"{f.name}{par}: quantiles of -0.1, 1.1, nan, 0.5 are {bad}")
    t.close(d.isf(q, *par), d.ppf(1 - q, *par), f"{f.name}{par}: inverse survival function", atol=1e-7 + 1e-7 * 0, rtol=1e-6)


# ---- F05 -------------------------------------------------------------------------


@facet("F05", "moments", any_case(p=st.lists(st.one_of(st.sampled_from([1, 2, -1, 0, 3]), st.integers(-6, 8)), min_size=1, max_size=2), which=st.lists(st.sampled_from(["mean", "std", "dispersion", "skewness", "kurtosis", "var", "r"]), min_size=1, max_size=2, unique=True)), quick=640, shards=8,
       rule="resultant length between 0.01 and 0.99")
def f05_moments(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    tol = {"inverse_batschelet": 1e-4}.get(f.name, 1e-6)
    key = None
    for p in c["p"]:
        t.close(d.trig_moment(p, *par), ref.moment(p), f"{f.name}{par}: moment of order {p}", atol=tol, rtol=0, key=key)
    m1, m2 = ref.moment(1), ref.moment(2)
    r1, r2 = abs(m1), abs(m2)
    t.nontrivial(0.01 < r1 < 0.99)
    if "r" in c["which"]:
        t.close(d.r(*par), r1, f"{f.name}{par}: resultant length", atol=tol)
    if "var" in c["which"]:
        t.close(d.var(*par), 1 - r1, f"{f.name}{par}: variance", atol=tol)
    s = d.stats(*par)
    t.close(s["r"], r1, f"{f.name}{par}: stats r", atol=tol); t.close(s["var"], 1 - r1, f"{f.name}{par}: stats var", atol=tol)
    if 0.01 < r1 < 0.995:
        u1, u2 = np.angle(m1), np.angle(m2)
        want = dict(mean=None, std=math.sqrt(-2 * math.log(r1)), dispersion=(1 - r2) / (2 * r1**2),
                    skewness=r2 * math.sin(u2 - 2 * u1) / (1 - r1)**1.5, kurtosis=(r2 * math.cos(u2 - 2 * u1) - r1**4) / (1 - r1)**2)
        for k, v in want.items():
            sc = 1 / r1**2 + 1 / (1 - r1)**2
            if k == "mean":
                t.angle_close(s["mean"], u1 % TWO_PI, f"{f.name}{par}: stats mean", atol=10 * tol / r1)
                if k in c["which"]:
                    mean = d.mean(*par)
                    t.angle_close(mean, u1 % TWO_PI, f"{f.name}{par}: mean direction", atol=10 * tol / r1)
                    t.true(0 <= mean <= TWO_PI, "mean outside one turn")
                continue
            if k in c["which"]:
                t.close(getattr(d, k)(*par), v, f"{f.name}{par}: {k}", atol=5 * tol * sc, rtol=1e-6)
            t.close(s[k], v, f"{f.name}{par}: stats {k}", atol=5 * tol * sc, rtol=1e-6)
    ctol, ckey = cdf_tol(f, ref)
    if f.name != "vonmises":     # the von Mises median is documented as the location itself
        t.close(ref.cdf(np.array([d.median(*par)]))[0], 0.5, f"{f.name}{par}: median", atol=ctol + 1e-6, key=ckey)
        t.close(s["median"], d.median(*par), f"{f.name}{par}: stats median", atol=1e-9)
    else:
        t.angle_close(d.median(*par), par[0], f"{f.name}{par}: median", atol=1e-9)
    h = ref.entropy()
    if peak(ref) < 40:
        t.close(d.entropy(*par), h, f"{f.name}{par}: entropy", atol=max(1e-5, 10 * tol), rtol=1e-5)


# ---- F06 -------------------------------------------------------------------------

SMALL = st.one_of(st.just(0.0), log_uniform(1e-13, 1e-3))
K1 = st.one_of(finite(0.01, 4.0), log_uniform(0.01, 60.0))


def _pairs(name):
    m = MU
    e = SMALL
    return {
        "vmft-vm": st.tuples(m, K1, e).map(lambda v: ("vonmises_flattopped", [v[0], v[1], v[2]], "vonmises", [v[0], v[1]], v[2])),
        "vmft-vm-": st.tuples(m, K1, e).map(lambda v: ("vonmises_flattopped", [v[0], v[1], -v[2]], "vonmises", [v[0], v[1]], v[2])),
        "jp-vm": st.tuples(m, finite(0.01, 8), e, st.sampled_from([-1, 1])).map(lambda v: ("jonespewsey", [v[0], v[1], v[3] * v[2]], "vonmises", [v[0], v[1]], v[2])),
        "invbat-vm": st.tuples(m, finite(0.01, 12), e, e).map(lambda v: ("inverse_batschelet", [v[0], v[1], v[2], v[3]], "vonmises", [v[0], v[1]], v[2] + v[3])),
        "jp-cardioid": st.tuples(m, finite(0.0, 3), e).map(lambda v: ("jonespewsey", [v[0], v[1], 1 + v[2]], "cardioid", [v[0], math.tanh(v[1]) / 2], v[2])),
        "jp-wrapcauchy": st.tuples(m, finite(0.0, 3), e).map(lambda v: ("jonespewsey", [v[0], v[1], -1 - v[2]], "wrapcauchy", [v[0], math.tanh(v[1] / 2)], v[2])),
        "jp-cartwright": st.tuples(m, finite(0.2, 4)).map(lambda v: ("jonespewsey", [v[0], 20 / v[1], v[1]], "cartwright", [v[0], v[1]], 1e-12)),
        "jpss-jp": st.tuples(m, FM.JPKP, e).map(lambda v: ("jonespewsey_sineskewed", [v[0]] + v[1] + [v[2]], "jonespewsey", [v[0]] + v[1], v[2])),
        "jpas-jp": st.tuples(m, FM.JPKP, e).map(lambda v: ("jonespewsey_asym", [v[0]] + v[1] + [v[2]], "jonespewsey", [v[0]] + v[1], v[2])),
        "stable-normal": st.tuples(m, log_uniform(0.1, 3), finite(-0.9, 0.9), e).map(lambda v: ("wrapstable", [v[0], 2 - v[3], v[2], v[1]], "wrapnorm", [v[0], math.exp(-v[1]**2)], v[3])),
        "stable-cauchy": st.tuples(m, log_uniform(0.05, 3)).map(lambda v: ("wrapstable", [v[0], 1.0, 0.0, v[1]], "wrapcauchy", [v[0], math.exp(-v[1])], 0.0)),
        "stable-alpha1": st.tuples(m, log_uniform(0.1, 3), finite(-0.9, 0.9), log_uniform(1e-9, 1e-5), st.sampled_from([-1, 1])).map(lambda v: ("wrapstable", [v[0], 1 + v[4] * v[3], v[2], v[1]], "wrapstable", [v[0], 1.0, v[2], v[1]], 30 * v[3] + 1e-8 + 1e-16 / v[3])),
        "kj-wrapcauchy": st.tuples(m, finite(0.0, 0.95)).map(lambda v: ("katojones", [v[0], v[1], v[1], 0.0], "wrapcauchy", [v[0], v[1]], 0.0)),
        "kj-cardioid": st.tuples(m, finite(0.0, 0.5), st.one_of(st.just(0.0), log_uniform(1e-13, 1e-3)), ANGLE).map(lambda v: ("katojones", [v[0], v[1], 0.0 if v[1] > 0.499 else v[2] * (1 - 2 * v[1]), v[3]], "cardioid", [v[0], v[1]], v[2])),
        "uniform": st.tuples(m, st.sampled_from(NAMES), log_uniform(1e-12, 1e-3), st.sampled_from([-1.0, -0.5, 0.0, 0.5])).map(_near_uniform),
    }[name]


def _near_uniform(v):
    mu, name, e, s = v
    par = {"circularuniform": [], "triangular": [e * 0.4], "cardioid": [mu, e], "cartwright": [mu, 1 / e], "wrapnorm": [mu, e], "wrapcauchy": [mu, e], "vonmises": [mu, e],
           "vonmises_flattopped": [mu, e, s], "jonespewsey": [mu, e, s], "jonespewsey_sineskewed": [mu, e, s, e], "jonespewsey_asym": [mu, e, s, 0.9 * abs(s)],
           "inverse_batschelet": [mu, e, s, s], "wrapstable": [mu, 1.5, s * 0.9, max(3.0, (-math.log(e)) ** (1 / 1.5))], "katojones": [mu, e, 0.5, 1.0]}[name]
    return (name, par, "circularuniform", [], e * 3)


PAIRS = ["vmft-vm", "vmft-vm-", "jp-vm", "invbat-vm", "jp-cardioid", "jp-wrapcauchy", "jp-cartwright", "jpss-jp", "jpas-jp", "stable-normal", "stable-cauchy", "stable-alpha1", "kj-wrapcauchy", "kj-cardioid", "uniform", "uniform"]


@facet("F06", "reductions", st.one_of(*[st.builds(lambda v, x, q, n=n: dict(pair=n, a=v[0], pa=v[1], b=v[2], pb=v[3], eps=v[4], x=x, q=q), _pairs(n), POINTS, QS) for n in PAIRS]),
       quick=1600, shards=4, rule="parameters not exactly at the special case, or a non-uniform limit")
def f06_reductions(c, t):
    A, B, pa, pb = FAMILIES[c["a"]], FAMILIES[c["b"]], list(map(float, c["pa"])), list(map(float, c["pb"]))
    if c["pair"] == "uniform" and c["a"] == "cartwright" and c["eps"] == 0:
        raise Skip
    if B.name == "wrapnorm" and not 0 < pb[1] < 1:
        raise Skip
    t.label(c["pair"] + ("=" if c["eps"] == 0 else "~"))
    ra, rb = A.ref(pa), B.ref(pb)
    f = B if B.loc is not None else A
    x = points(c, f, pb if B.loc is not None else pa)
    top = max(peak(rb), peak(ra))
    # the distance between the two members is measured on the references (continuity of the families),
    # so the library's agreement is only allowed numerical slack on top
    dp = float(np.max(np.abs(ra.pdf(x) - rb.pdf(x))))
    dc = float(np.max(np.abs(ra.cdf(x) - rb.cdf(x))))
    t.true(c["pair"] == "jp-cartwright" or dp <= top * (1e-7 + 400 * c["eps"] * (1 + max([abs(v) for v in pb] + [0])**2)), f"reference densities differ by {dp}: {c['a']}{pa} vs {c['b']}{pb}")
    t.nontrivial(c["eps"] > 0 or top > 1.01 / TWO_PI)
    ptol = max(PDF_TOL.get(A.name, 1e-9), PDF_TOL.get(B.name, 1e-9)) * 2
    t.close(A.dist.pdf(x, *pa), B.dist.pdf(x, *pb), f"{A.name}{pa} vs {B.name}{pb}: density at {list(x)}", rtol=2e-7, atol=ptol * top + dp * 1.01)
    ta, ka = cdf_tol(A, ra); tb, kb = cdf_tol(B, rb)
    t.close(A.dist.cdf(x, *pa), B.dist.cdf(x, *pb), f"{A.name}{pa} vs {B.name}{pb}: distribution function at {list(x)}", rtol=0, atol=ta + tb + dc * 1.01, key=ka or kb)
    q = np.array(c["q"])
    va, vb = np.asarray(A.dist.ppf(q, *pa)), np.asarray(B.dist.ppf(q, *pb))
    # compared as probabilities, since quantiles are ill-conditioned where the density is small
    g = np.linspace(0, TWO_PI, 721)
    dall = float(np.max(np.abs(ra.cdf(g) - rb.cdf(g)))) * 1.5
    ca, cb = np.asarray(rb.cdf(va), float), np.asarray(rb.cdf(vb), float)
    ca = cb + (np.mod(ca - cb + 0.5, 1.0) - 0.5)      # an extreme quantile may round to either name, 0 or 2 pi, of the origin
    t.close(ca, cb, f"{A.name}{pa} vs {B.name}{pb}: quantiles at {list(q)} (as probabilities)", rtol=0, atol=ta + tb + dall + 1e-7 * (1 + top), key=ka or kb)


# ---- F07 -------------------------------------------------------------------------

METHODS_X = ["pdf", "logpdf", "cdf", "sf", "logcdf", "logsf"]
METHODS_Q = ["ppf", "isf"]
SUMMARIES = ["mean", "median", "var", "std", "entropy", "dispersion", "skewness", "kurtosis", "r", "stats", "trig_moment"]
CALL_RTOL = 1e-9


def _same(t, a, b, msg, rtol=CALL_RTOL, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    t.true(a.shape == b.shape, f"{msg}: shape {a.shape} instead of {b.shape}")
    with np.errstate(invalid="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))
    t.true(np.all(ok), f"{msg}: {a.tolist()} instead of {b.tolist()}")


# ranges of the valid parameters other than the location, from the documentation of each family
INVALID = {
    "triangular": {"rho": [-0.1, -1e-6, 0.41, 1.0]},
    "cardioid": {"rho": [-0.1, 0.5001, 1.0]},
    "cartwright": {"zeta": [0.0, -1.0]},
    "wrapnorm": {"rho": [-0.1, 1.1]},
    "wrapcauchy": {"rho": [-0.1, 1.2]},
    "vonmises": {"kappa": [-1e-3, -1.0]},
    "vonmises_flattopped": {"kappa": [-1e-3, -1.0, 2e3], "nu": [-1.01, 1.5]},
    "jonespewsey": {"kappa": [-1e-3, -2.0]},
    "jonespewsey_sineskewed": {"kappa": [-1e-3, -2.0], "lmbd": [-1.01, 1.01, 5.0]},
    "jonespewsey_asym": {"kappa": [-1e-3, -2.0], "nu": [-0.01, 1.0, 3.0]},
    "inverse_batschelet": {"kappa": [-1e-3, -2.0], "nu": [-1.01, 2.0], "lmbd": [-1.01, 2.0]},
    "wrapstable": {"alpha": [0.0, -1.0, 2.1], "beta": [-1.0, 1.0, 3.0], "gamma": [0.0, -0.5]},
    "katojones": {"gamma": [-0.1, 1.0, 2.0], "rho": [-0.1, 1.0, 2.0]},
}


@facet("F07", "styles", any_case(x=st.lists(POINT, min_size=0, max_size=6), q=st.lists(finite(0.0, 1.0), min_size=0, max_size=6), m=st.sampled_from(METHODS_X + METHODS_X + METHODS_Q), split=st.integers(0, 4), sm=st.sampled_from(SUMMARIES + [None] * 60)),
       quick=960, shards=6, rule="two or more evaluation points, density not constant")
def f07_styles(c, t):
    f, d, par = fam(c)
    m = c["m"]
    t.label(c["fam"]); t.label(m)
    z = points(c, f, par) if m in METHODS_X else np.array(c["q"], float)
    fn = getattr(d, m)
    one = [fn(float(v), *par) for v in z]
    for v in one:
        t.true(np.ndim(v) == 0, f"{f.name}.{m}: scalar argument gives shape {np.shape(v)}")
    want = np.array([float(v) for v in one])
    t.nontrivial(len(z) > 1 and not flat(par, f))
    w = f"{f.name}{par}.{m}({z.tolist()})"
    tol = 1e-8 if m in METHODS_Q else CALL_RTOL
    rt = dict(rtol=tol, atol=1e-9 if m in METHODS_Q else 1e-11)
    if f.name in ("wrapstable", "inverse_batschelet") and m in ("logpdf",):
        keep = want > -25         # densities that are zero up to rounding
    elif m in ("logcdf", "logsf"):
        keep = want > -18
    elif m in METHODS_Q:          # where the last bit of a probability moves its quantile
        with np.errstate(invalid="ignore"):
            keep = (z == 0) | (z == 1) | ((np.minimum(z, 1 - z) > 1e-12) & (f.ref(par).pdf(want) > 1e-6))
    else:
        keep = np.ones(len(z), bool)
    z, want = z[keep], want[keep]
    _same(t, fn(z, *par), want, w + " as an array", **rt)
    _same(t, fn(list(z), *par), want, w + " as a list", **rt)
    _same(t, fn(tuple(z), *par), want, w + " as a tuple", **rt)
    sh = (len(z), 1) if len(z) % 2 else (2, len(z) // 2)
    _same(t, fn(z.reshape(sh), *par), want.reshape(sh), w + f" in shape {sh}", **rt)
    big = np.concatenate([z, z[::-1]])
    _same(t, fn(np.asfortranarray(np.array([big, big])), *par), np.array([np.concatenate([want, want[::-1]])] * 2), w + " repeated", **rt)
    _same(t, fn(np.repeat(z, 2)[::2], *par), want, w + " as a strided view", **rt)
    if len(z):
        _same(t, fn(np.array(z[0]), *par), want[0], w + " as a 0-d array", **rt)
    names = list(f.shapes)
    k = min(c["split"], len(par))
    kw = dict(zip(names[k:], par[k:]))
    _same(t, fn(z, *par[:k], **kw), want, w + f" with keywords {sorted(kw)}", **rt)
    fr = d(*par)
    _same(t, getattr(fr, m)(z), want, w + " frozen", **rt)
    _same(t, getattr(d(*par[:k], **kw), m)(z), want, w + f" frozen with keywords {sorted(kw)}", **rt)
    _same(t, getattr(d.freeze(*par), m)(z), want, w + " by freeze()", **rt)
    _same(t, fn(z, *par, loc=0, scale=1), want, w + " with the default loc and scale", **rt)
    # parameters as arrays: element by element, or refused
    if len(z):
        for nm, args in (("constant arrays", [np.full(len(z), v) for v in par]), ("0-d arrays", [np.array(v) for v in par])):
            try:
                got = fn(z, *args)
            except (ValueError, TypeError):
                continue
            _same(t, got, want, w + f" with parameters as {nm}", **rt)
    s = c["sm"]
    if s is None:
        return
    args = (1,) if s == "trig_moment" else ()
    a, b = getattr(d, s)(*args, *par), getattr(fr, s)(*args)
    kwv = getattr(d, s)(*args, *par[:k], **kw)
    vec = (lambda v: [v.real, v.imag]) if s == "trig_moment" else (lambda v: list(v.values())) if s == "stats" else (lambda v: v)
    _same(t, vec(b), vec(a), f"{f.name}{par}: frozen {s}")
    _same(t, vec(kwv), vec(a), f"{f.name}{par}: {s} by keyword")


@facet("F07", "array-parameters", st.sampled_from([n for n in NAMES if n != "circularuniform"]).flatmap(lambda n: st.fixed_dictionaries(dict(
    fam=st.just(n), pars=st.lists(FAMILIES[n].params, min_size=2, max_size=3), m=st.sampled_from(METHODS_X + METHODS_Q), u=st.lists(finite(0.01, 0.99), min_size=3, max_size=3)))), quick=800, shards=2,
       rule="evaluation with vectorised parameters was accepted")
def f07_array_parameters(c, t):
    f = FAMILIES[c["fam"]]; d = f.dist
    m = c["m"]
    pars = [[float(v) for v in p] for p in c["pars"]]
    z = np.array(c["u"][:len(pars)]) * (TWO_PI if m in METHODS_X else 1.0)
    fn = getattr(d, m)
    want = np.array([float(fn(float(a), *p)) for a, p in zip(z, pars)])
    cols = [np.array(col) for col in zip(*pars)]
    t.label(c["fam"])
    if m == "logpdf":
        z, want, cols = z[want > -25], want[want > -25], [v[want > -25] for v in cols]
    try:
        got = fn(z, *cols)
    except (ValueError, TypeError):
        return
    t.nontrivial()
    _same(t, got, want, f"{f.name}.{m}({z.tolist()}) with array parameters {[v.tolist() for v in cols]}", rtol=1e-7, atol=1e-8)


BADX = st.sampled_from([math.nan, math.inf, -math.inf])


@facet("F07", "refusals", any_case([n for n in NAMES], k=st.integers(0, 5), j=st.integers(0, 5), bad=st.sampled_from(["domain", "domain", "nan", "location"]), m=st.sampled_from(METHODS_X + METHODS_Q + SUMMARIES + ["rvs", "frozen"] * 4), u=finite(0.05, 0.95),
                                   lsv=st.sampled_from([0.5, -1.0, 1e-3, 2.0, TWO_PI]), badx=BADX), quick=1200, shards=6, rule="always (an invalid call is made)")
def f07_refusals(c, t):
    f, d, par = fam(c)
    m = c["m"]
    t.nontrivial(); t.label(m); t.label(c["bad"])
    # location and scale
    x = c["u"]
    calls = {"rvs": lambda *a, **k: d.rvs(*a, size=2, random_state=1, **k), "frozen": lambda *a, **k: d(*a, **k).pdf(x), "trig_moment": lambda *a, **k: d.trig_moment(1, *a, **k)}
    call = calls.get(m) or ((lambda *a, **k: getattr(d, m)(x, *a, **k)) if m in METHODS_X + METHODS_Q else (lambda *a, **k: getattr(d, m)(*a, **k)))
    for kw in (dict(loc=c["lsv"]), dict(scale=c["lsv"])):
        try:
            v = call(*par, **kw)
        except (TypeError, ValueError):
            continue
        t.fail(f"{f.name}.{m} accepted {kw}: {v}")
    if m in METHODS_X + METHODS_Q + ["frozen"]:
        try:
            v = call(*par, c["lsv"])
        except (TypeError, ValueError):
            pass
        else:
            t.fail(f"{f.name}.{m} accepted a positional location {c['lsv']}: {v}")
    # angles that are not numbers
    if m in METHODS_X:
        for arg in (c["badx"], [c["badx"], 1.0]):
            try:
                v = np.atleast_1d(getattr(d, m)(arg, *par))
            except (TypeError, ValueError):
                continue
            t.true(np.isnan(v[0]), f"{f.name}{par}.{m}({arg}) = {v}")
            if len(v) == 2:
                _same(t, v[1], getattr(d, m)(1.0, *par), f"{f.name}{par}.{m}({arg})[1]")
    # invalid parameters
    bad = list(par)
    if c["bad"] == "domain" and f.name in INVALID:
        names = sorted(INVALID[f.name])
        nm = names[c["k"] % len(names)]
        vals = INVALID[f.name][nm]
        bad[f.shapes.index(nm)] = vals[c["j"] % len(vals)]
    elif c["bad"] == "location" and f.loc is not None and m != "rvs":
        bad[f.loc] = [-0.1, TWO_PI + 0.1, 7.0, -3.0][c["j"] % 4]
    elif bad and not (m == "rvs" and c["k"] % len(bad) == f.loc):
        bad[c["k"] % len(bad)] = math.nan
    else:
        return
    try:
        v = call(*bad)
    except Exception:
        v = math.nan
    v = np.array(list(v.values()) if isinstance(v, dict) else v, dtype=complex)
    t.true(np.all(np.isnan(v)), f"{f.name}{bad}.{m} gave {v} for invalid parameters")
    for m in METHODS_X + METHODS_Q:
        try:
            v = np.asarray(getattr(d, m)(x, *bad), float)
        except Exception:
            continue
        t.true(np.all(np.isnan(v)), f"{f.name}{bad}.{m} gave {v} for invalid parameters")


# ---- F08 -------------------------------------------------------------------------
# Every sequence runs in a child process forked before anything was evaluated, and
# every evaluation runs once more alone in another such child: the results must agree.


def _write(fd, data):
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                raise EOFError
            buf += b
        return buf
    return exactly(struct.unpack("<q", exactly(8))[0])


class Zygote:
    """A process forked before any evaluation; forks one fresh child per request."""
    inst = None

    @classmethod
    def get(cls):
        if cls.inst is None or cls.inst.owner != os.getpid():
            cls.inst = cls()
        return cls.inst

    def __init__(self):
        self.owner = os.getpid()
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                os.close(w1); os.close(r2)
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1); os.close(w2)
        self.r, self.w = r2, w1

    @staticmethod
    def _serve(r, w):
        import warnings
        warnings.simplefilter("ignore"); np.seterr(all="ignore")
        while True:
            try:
                ops = pickle.loads(_read(r))
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                code = 1
                signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(50)
                try:
                    out = pickle.dumps(run_threads(ops["threads"]) if isinstance(ops, dict) else [do_op(o) for o in ops])
                    _write(w, out); code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                slow = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM
                _write(w, pickle.dumps("slow" if slow else None))

    def run(self, ops):
        _write(self.w, pickle.dumps(ops))
        got = pickle.loads(_read(self.r))
        if isinstance(got, str):
            raise Skip("evaluations take too long")
        return got


def _num(v):
    if isinstance(v, dict):
        return [(_num(k) if not isinstance(k, str) else k, _num(x)) for k, x in sorted(v.items())]
    if isinstance(v, (tuple, list)):
        return [_num(x) for x in v]
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, (bool, str, type(None))):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(type(v))


def run_threads(lists):
    """Each list of evaluations in a thread of its own, all started together, switching as often as the interpreter allows."""
    out = [None] * len(lists)
    gate = threading.Barrier(len(lists))

    def work(i):
        np.seterr(all="ignore")
        gate.wait()
        out[i] = got = [[do_op(o)] for o in lists[i]]
        stop = time.monotonic() + 0.25
        while time.monotonic() < stop:                  # the same again and again: keep every different answer
            for o, g in zip(lists[i], got):
                if o[0] in ("pdf", "cdf", "ppf") and len(g) < 3:
                    v = do_op(o)
                    if not _cmp(v, g[0], 1e-11):
                        g.append(v)
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(lists))]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    return out


def do_op(o):
    """One evaluation; exceptions are part of the answer."""
    kind, name, par, arg = o
    d = getattr(DI, name)
    try:
        if kind in METHODS_X + METHODS_Q:
            return _num(getattr(d, kind)(np.array(arg, float), *par))
        if kind == "scalar-pdf":
            return [_num(d.pdf(float(a), *par)) for a in arg]
        if kind == "frozen-cdf":
            return _num(d(*par).cdf(np.array(arg, float)))
        if kind == "rvs":
            return _num(d.rvs(*par, size=100 * len(arg) + 3, random_state=int(1e6 * arg[0])))
        if kind == "trig_moment":
            return _num(d.trig_moment(1 + len(arg) % 3, *par))
        if kind in ("mean", "median", "entropy"):
            return _num(getattr(d, kind)(*par))
        if kind == "fit":
            rng = np.random.default_rng(int(1e6 * arg[0]))
            data = np.mod(rng.vonmises(par[0], 1.5, size=25), TWO_PI)
            kw = {"katojones": dict(method="moments"), "circularuniform": {}}.get(name, dict(method="mle"))
            return _num(d.fit(data, **kw))
        if kind == "invalid":
            return _num(d.pdf(np.array(arg, float), *[-abs(v) - 1 for v in par]))
    except Exception as e:
        return ["raised", type(e).__name__]
    raise AssertionError(kind)


def _cmp(a, b, tol):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_cmp(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return a == b
    x, y = np.asarray(a, float), np.asarray(b, float)
    if x.shape != y.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1 + np.abs(y)))))


# -1: mirror the component's sign; -2: exchange it with the next one; -3: its reciprocal
TWEAK = st.one_of(st.just(0.0), st.sampled_from([-1.0, -1.0, -2.0, -3.0]), st.sampled_from([1e-13, 1e-10, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]))
KINDS = METHODS_X + METHODS_Q + ["pdf", "cdf", "ppf", "pdf", "cdf", "ppf", "scalar-pdf", "frozen-cdf", "rvs", "trig_moment", "mean", "median", "entropy", "fit", "invalid"]
TABLED = [n for n in NAMES if len(FAMILIES[n].shapes) >= 3]


def _nudge(f, par, j, eps, sgn):
    """A neighbouring parameter vector: one component moved a little, or mirrored, or the location moved."""
    p = list(par)
    j = j % (len(p) + 1) if p else 0
    if not p:
        return p
    if j == len(p):
        i = f.loc if f.loc is not None else 0
        p[i] = p[i] * (1 - 0.37 * sgn) if f.loc is None else float(np.mod(p[i] + 1.1 + sgn, TWO_PI))
    elif eps == -1.0:
        p[j] = -p[j]
    elif eps == -2.0:
        i = (j + 1) % len(p); p[i], p[j] = p[j], p[i]
    elif eps == -3.0:
        p[j] = 1.0 / p[j] if abs(p[j]) > 0.01 else p[j]
    else:
        p[j] = p[j] + sgn * eps
    if f.name.startswith("jonespewsey") and abs(p[1] * p[2]) > 6:        # too sharp for the documented grids and rejection sampling
        return [float(v) for v in par]
    return [float(v) for v in p]


_FAMSEQ = st.one_of(st.sampled_from(NAMES), st.sampled_from(TABLED), st.sampled_from(TABLED)).flatmap(lambda n: st.fixed_dictionaries(dict(
    fam=st.just(n), base=st.lists(FAMILIES[n].params, min_size=1, max_size=2), other=any_case(TABLED + ["vonmises"]), theme=st.one_of(st.none(), st.sampled_from(["pdf", "cdf", "ppf", "rvs", "rvs", "trig_moment"])),
    ops=st.lists(st.fixed_dictionaries(dict(k=st.sampled_from(KINDS), b=st.integers(0, 2), j=st.integers(0, 5), eps=TWEAK, sgn=st.sampled_from([-1, 1]), x=st.lists(finite(0.01, 0.99), min_size=1, max_size=4))), min_size=2, max_size=9))))


@facet("F08", "history", _FAMSEQ, quick=360, shards=8, rule="at least three evaluations with two different parameter vectors")
def f08_history(c, t):
    f = FAMILIES[c["fam"]]
    seq = []
    for o in c["ops"]:
        name, par = c["fam"], [float(v) for v in c["base"][o["b"] % len(c["base"])]]
        if o["b"] == 2 and o["j"] % 2:
            name, par = c["other"]["fam"], [float(v) for v in c["other"]["par"]]
        par = _nudge(FAMILIES[name], par, o["j"], o["eps"], o["sgn"])
        k = c["theme"] if c["theme"] and len(seq) % 3 != 2 else o["k"]
        if k in ("invalid", "fit") and not par:
            k = "pdf"
        arg = [v if k in METHODS_Q + ["rvs", "fit"] else v * TWO_PI for v in o["x"]]
        seq.append((k, name, par, arg))
    t.label(c["fam"])
    t.nontrivial(len(seq) >= 3 and len({json_key(s[2]) for s in seq}) >= 2)
    z = Zygote.get()
    got = z.run(seq)
    t.true(got is not None, f"sequence {seq} ended the process")
    done = {}
    for o, g in zip(seq, got):
        key = repr(o)
        if key not in done:
            done[key] = z.run([o])
        fresh = done[key]
        t.true(fresh is not None, f"{o} ended the process")
        tol = 1e-7 if o[0] == "fit" else 1e-11
        t.true(_cmp(g, fresh[0], tol), f"{o[1]}.{o[0]}{o[2]} at {o[3]} gave {g} after the sequence, but {fresh[0]} in a fresh process")


def json_key(v):
    return tuple(v)


_NEIGH = st.one_of(st.sampled_from(TABLED), st.sampled_from(TABLED), st.sampled_from(NAMES)).flatmap(lambda n: st.fixed_dictionaries(dict(
    fam=st.just(n), par=FAMILIES[n].params, k=st.sampled_from(["pdf", "cdf", "ppf", "rvs", "rvs", "trig_moment", "entropy"]), eps=TWEAK.filter(bool), sgn=st.sampled_from([-1, 1]), x=st.lists(finite(0.01, 0.99), min_size=1, max_size=3))))


@facet("F08", "neighbours", _NEIGH, quick=400, shards=8, rule="some neighbouring parameters were evaluated without error")
def f08_neigh(c, t):
    """The same call for every vector that differs in one component (mirrored, nudged, exchanged) comes first."""
    f = FAMILIES[c["fam"]]; par = [float(v) for v in c["par"]]; k = c["k"]
    arg = [v if k in METHODS_Q + ["rvs"] else v * TWO_PI for v in c["x"]]
    near = [q for j in range(len(par)) for e in (c["eps"], -1.0, -2.0, -3.0)[:1 if k in ("trig_moment", "entropy") else 4] for q in [_nudge(f, par, j, e, c["sgn"])] if q != par]
    near = [q for i, q in enumerate(near) if q not in near[:i]]
    if k in ("trig_moment", "entropy"):
        near = near[:2]
    ks = [k] if k == "rvs" else [k, "rvs"]
    seq = [(k, f.name, q, arg) for q in near + [par] for k in ks]
    z = Zygote.get()
    got, fresh = z.run(seq), z.run(seq[-len(ks):])
    t.true(got is not None and fresh is not None, f"sequence {seq} ended the process")
    t.nontrivial(any(not (isinstance(g, list) and g and g[0] == "raised") for g in got[:-len(ks)])); t.label(f.name)
    for k, g, w in zip(ks, got[-len(ks):], fresh):
        t.true(_cmp(g, w, 1e-11), f"{f.name}.{k}{par} at {arg} gave {str(g)[:300]} after {near}, but {str(w)[:300]} in a fresh process")


_RACES = {}
_THREADS = st.one_of(st.sampled_from(TABLED), st.sampled_from(NAMES)).flatmap(lambda n: st.fixed_dictionaries(dict(
    fam=st.just(n), base=st.lists(FAMILIES[n].params, min_size=1, max_size=2), eps=TWEAK.filter(bool), j=st.integers(0, 5), sgn=st.sampled_from([-1, 1]),
    plan=st.one_of(st.lists(st.lists(st.tuples(st.sampled_from(["pdf", "cdf", "ppf", "pdf", "cdf", "ppf", "rvs", "mean"]), st.integers(0, 2)), min_size=1, max_size=4), min_size=2, max_size=4),
                   st.builds(lambda k, m: [[(k, 0)]] * m, st.sampled_from(["pdf", "cdf", "ppf", "pdf"]), st.integers(2, 4))),
    rep=st.sampled_from([1, 1, 16, 100]), x=st.lists(finite(0.001, 0.999), min_size=1, max_size=4))))


@facet("F08", "threads", _THREADS, quick=240, thorough=4000, shards=8, rule="two threads evaluate different parameter vectors")
def f08_threads(c, t):
    """Threads sharing a distribution get the answers they would get alone."""
    f = FAMILIES[c["fam"]]
    base = [[float(v) for v in b] for b in c["base"]]
    pars = base + [_nudge(f, base[0], c["j"], c["eps"], c["sgn"])]
    def op(k, i):
        return (k, f.name, pars[i % len(pars)], [v if k in METHODS_Q + ["rvs"] else v * TWO_PI for v in c["x"]] * (c["rep"] if k in ("pdf", "cdf", "ppf") else 1))
    lists = [[op(k, i + n) for k, i in th] for n, th in enumerate(c["plan"])]
    t.nontrivial(len({json_key(o[2]) for th in lists for o in th}) > 1); t.label(f.name)
    z = Zygote.get()
    key = repr(lists)
    if key in _RACES:                   # a race seen once is a fact about this case, even if it does not show every time
        t.fail(_RACES[key])
    got = z.run({"threads": lists})
    t.true(got is not None and all(g is not None for g in got), f"threads {lists} ended the process")
    done = {}
    for th, gs in zip(lists, got):
        for o, g in [(o, v) for o, vs in zip(th, gs) for v in vs]:
            if repr(o) not in done:
                done[repr(o)] = z.run([o])[0]
            if not _cmp(g, done[repr(o)], 1e-11):
                _RACES[key] = f"{o[1]}.{o[0]}{o[2]} at {o[3][:4]}.. gave {str(g)[:200]} in one of {len(lists)} threads, but {str(done[repr(o)])[:200]} alone"
                t.fail(_RACES[key])


# ---- F09 -------------------------------------------------------------------------

SIZES = st.one_of(st.none(), st.integers(0, 5), st.sampled_from([(3,), (2, 3), (1, 1), (0,), (2, 0), (2, 1, 2)]).map(list))


def ks_p(sample, ref):
    n = len(sample)
    u = np.sort(np.clip(ref.cdf(sample), 0, 1))
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    lam = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * D
    return D, 2 * math.exp(-2 * lam * lam)


@facet("F09", "sampler", any_case(seed=SEEDS, n=st.sampled_from([2000, 6000, 20000]), how=st.sampled_from(["direct", "keyword", "frozen", "generator", "pieces"])), quick=420, shards=8,
       rule="density not constant")
def f09_sampler(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"]); t.label(c["how"])
    n = c["n"] if f.name not in ("inverse_batschelet",) else min(c["n"], 6000)
    t.nontrivial(peak(ref) > 1.01 / TWO_PI)
    if c["how"] == "frozen":
        s = d(*par).rvs(size=n, random_state=c["seed"])
    elif c["how"] == "keyword":
        s = d.rvs(**dict(zip(f.shapes, par)), size=n, random_state=c["seed"])
    elif c["how"] == "generator":
        s = d.rvs(*par, size=n, random_state=np.random.default_rng(c["seed"]))
    elif c["how"] == "pieces":
        g = np.random.default_rng(c["seed"])
        n = min(n, 2000)
        s = np.concatenate([np.atleast_1d(d.rvs(*par, size=k, random_state=g)) for k in [None] * 50 + [1] * 20 + [n // 2, n - n // 2 - 70]])
    else:
        s = d.rvs(*par, size=n, random_state=c["seed"])
    s = np.asarray(s, float)
    w = f"{f.name}{par}"
    t.true(s.shape == (n,), f"{w}: sample of shape {s.shape} instead of {(n,)}")
    t.true(np.all((s >= 0) & (s < TWO_PI)), f"{w}: variates outside [0, 2pi): {s[~((s >= 0) & (s < TWO_PI))][:5]}")
    D, p = ks_p(s, ref)
    key = None
    if f.name == "inverse_batschelet" and cdf_tol(f, ref)[1]:
        key = cdf_tol(f, ref)[1]
    t.true(p > 1e-9, f"{w}: {n} variates depart from the distribution function by {D} (p = {p:.1e})", key=key)
    for k in (1, 2, 3):
        z = np.exp(1j * k * s)
        m, m2 = ref.moment(k), ref.moment(2 * k)
        dev = np.mean(z) - m
        vr = max((1 + m2.real) / 2 - m.real**2, 1e-12); vi = max((1 - m2.real) / 2 - m.imag**2, 1e-12)
        t.true(abs(dev.real) < 7 * math.sqrt(vr / n) + 1e-4 * math.sqrt(vr) + 20 / n * (vr < 1e-3) + 1e-9, f"{w}: sample cosine moment {k} is {np.mean(z).real}, distribution {m.real}, {n} variates", key=key)
        t.true(abs(dev.imag) < 7 * math.sqrt(vi / n) + 1e-4 * math.sqrt(vi) + 20 / n * (vi < 1e-3) + 1e-9, f"{w}: sample sine moment {k} is {np.mean(z).imag}, distribution {m.imag}, {n} variates", key=key)
    # successive variates are unrelated: U_i and U_{i+1} are uniform and uncorrelated on the circle
    u = np.exp(2j * math.pi * ref.cdf(s))
    for a in (u[1:] * np.conj(u[:-1]), u[1:] * u[:-1]):
        t.true(abs(np.mean(a)) < 7 / math.sqrt(n), f"{w}: successive variates are related ({abs(np.mean(a))})", key=key)


@facet("F09", "shape-and-seed", any_case(seed=SEEDS, size=SIZES), quick=1200, shards=4, rule="one variate or more requested")
def f09_shape(c, t):
    f, d, par = fam(c)
    size = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    t.label(c["fam"]); t.label(str(size))
    shape = () if size is None else (size,) if isinstance(size, int) else size
    t.nontrivial(int(np.prod(shape)) > 0)
    s = d.rvs(*par, size=size, random_state=c["seed"])
    w = f"{f.name}{par}.rvs(size={size}, random_state={c['seed']})"
    t.true(np.shape(s) == shape, f"{w} has shape {np.shape(s)}")
    a = np.asarray(s, float)
    t.true(np.all((a >= 0) & (a < TWO_PI)), f"{w} = {a} outside [0, 2pi)")
    for other, nm in ((lambda: d.rvs(*par, size=size, random_state=c["seed"]), "again"), (lambda: d(*par).rvs(size=size, random_state=c["seed"]), "frozen"),
                      (lambda: d.rvs(**dict(zip(f.shapes, par)), size=size, random_state=c["seed"]), "by keyword")):
        t.true(np.array_equal(np.asarray(other()), a), f"{w} {nm} gave different variates")
    b = np.asarray(d.rvs(*par, size=8, random_state=c["seed"] + 1)); b0 = np.asarray(d.rvs(*par, size=8, random_state=c["seed"]))
    t.true(not np.array_equal(b, b0), f"{w}: another seed gives the same variates")
    g = np.random.default_rng(c["seed"])
    v1 = np.asarray(d.rvs(*par, size=8, random_state=g)); v2 = np.asarray(d.rvs(*par, size=8, random_state=g))
    t.true(not np.array_equal(v1, v2), f"{w}: a supplied generator is not advanced")


# ---- F10, F11 --------------------------------------------------------------------

# parameters from which samples are drawn, away from the degenerate limits
FITPAR = dict(
    triangular=st.builds(lambda r: [r], finite(0.0, 4 / math.pi**2)), cardioid=st.builds(lambda m, r: [m, r], MU, finite(0.0, 0.5)),
    cartwright=st.builds(lambda m, z: [m, z], MU, log_uniform(0.05, 6.0)), wrapnorm=st.builds(lambda m, r: [m, r], MU, finite(0.05, 0.98)),
    wrapcauchy=st.builds(lambda m, r: [m, r], MU, finite(0.0, 0.98)), vonmises=st.builds(lambda m, k: [m, k], MU, log_uniform(0.05, 60.0)),
    vonmises_flattopped=st.builds(lambda m, k, n: [m, k, n], MU, log_uniform(0.1, 20.0), finite(-0.9, 0.9)),
    jonespewsey=st.builds(lambda m, k, p: [m, k, p], MU, log_uniform(0.1, 3.0), finite(-1.0, 1.5)),
    jonespewsey_sineskewed=st.builds(lambda m, k, p, l: [m, k, p, l], MU, log_uniform(0.1, 3.0), finite(-1.0, 1.5), finite(-0.9, 0.9)),
    jonespewsey_asym=st.builds(lambda m, k, p, n: [m, k, p, n], MU, log_uniform(0.1, 3.0), finite(-1.0, 1.5), finite(0.0, 0.9)),
    inverse_batschelet=st.builds(lambda m, k, n, l: [m, k, n, l], MU, log_uniform(0.3, 8.0), finite(-0.8, 0.8), finite(-0.8, 0.8)),
    wrapstable=st.builds(lambda d, a, b, g: [d, a, b, g], MU, finite(0.6, 2.0), finite(-0.8, 0.8), log_uniform(0.1, 2.0)),
    katojones=st.builds(FM.kj_params, MU, finite(0.05, 0.9), finite(0.0, 0.95), gen.ANGLE),
)
FITTED = list(FITPAR)
UNIMODAL_LL = ("triangular", "cardioid", "wrapnorm", "wrapcauchy", "vonmises")
# ranges the estimates are confined to (defaults of the fits), by parameter
FITBOX = dict(
    triangular=[(0, 4 / math.pi**2)], cardioid=[None, (0, 0.5)], cartwright=[None, (1e-6, 1e6)], wrapnorm=[None, (1e-9, 1 - 1e-9)], wrapcauchy=[None, (1e-9, 1 - 1e-9)], vonmises=[None, (1e-9, 1e6)],
    vonmises_flattopped=[None, (1e-6, 1000), (-.99, .99)], jonespewsey=[None, (1e-6, 1e3), (-4, 4)], jonespewsey_sineskewed=[None, (1e-6, 1e3), (-4, 4), (-.99, .99)],
    jonespewsey_asym=[None, (1e-6, 1e3), (-4, 4), (0, .99)], inverse_batschelet=[None, (1e-6, 700), (-.99, .99), (-.99, .99)], wrapstable=[None, (0.7, 2), (-.99, .99), (0.1, 10)], katojones=None)


def fit(f, x, method=None, **kw):
    """(parameters, info); None when the optimiser reports failure."""
    if method and f.name != "jonespewsey_asym":
        kw["method"] = method
    if f.name == "wrapstable" and method == "mle":       # keep the series short
        kw.update(alpha_bounds=(0.7, 2.0), gamma_bounds=(0.1, 10.0))
    try:
        est, info = f.dist.fit(x, return_info=True, **kw)
    except RuntimeError:
        return None, None
    return [float(v) for v in np.atleast_1d(est)], info


def ll(f, par, x, w):
    return float(np.sum(w * f.ref(par).logpdf(x)))


STRONG = ("triangular", "cardioid", "wrapnorm", "wrapcauchy", "vonmises", "vonmises_flattopped")
SLOW = ("inverse_batschelet", "wrapstable")
QUICKFIT = [n for n in FITTED if n not in SLOW]


def fit_case(names, ns, **extra):
    return st.one_of(*[st.fixed_dictionaries(dict(fam=st.just(n), par=FITPAR[n], n=st.sampled_from(ns), seed=SEEDS, wt=st.sampled_from(["none", "counts", "real", "zeros"]), mix=finite(0.0, 1.0), **extra)) for n in names])


def fit_data(c):
    f = FAMILIES[c["fam"]]
    par = [float(v) for v in c["par"]]
    r = np.random.default_rng(c["seed"])
    x = f.ref(par).sample(r, c["n"])
    m = int(c["n"] * c["mix"] * 0.3) if c["mix"] > 0.7 else 0     # sometimes contaminated: the family need not be the right one
    if m:
        x[:m] = r.uniform(0, TWO_PI, m)
    n = c["n"]
    w = dict(none=np.ones(n), counts=r.integers(1, 4, n).astype(float), real=r.uniform(0.2, 3.0, n), zeros=r.integers(0, 3, n).astype(float) + (np.arange(n) % 3 == 0))[c["wt"]]
    return f, par, x, w, {} if c["wt"] == "none" else dict(weights=w)


def in_box(f, par):
    b = FITBOX[f.name]
    return b is None or all(r is None or r[0] <= v <= r[1] for v, r in zip(par, b))


def boxed(f, par):
    """The parameter vector moved into the range of the fit; None when that is not a valid vector."""
    b = FITBOX[f.name]
    if b is not None:
        return [v if r is None else min(max(v, r[0]), r[1]) for v, r in zip(par, b)]
    mu, g, rho, lam = par
    ok = 0 <= g < 1 and 0 <= rho < 1 and (rho * math.cos(lam) - g)**2 + (rho * math.sin(lam))**2 <= (1 - g)**2
    return list(par) if ok else None


def check_maximum(c, t):
    f, par, x, w, kw = fit_data(c)
    t.label(c["fam"]); t.label(c["wt"])
    est, info = fit(f, x, "mle", **kw)
    if est is None:
        t.true(f.name not in STRONG, f"{f.name}.fit failed on {list(x)}")
        raise Skip("the optimiser reports failure")
    t.nontrivial(c["n"] >= 8)
    who = f"{f.name}.fit of {c['n']} variates of {par} (weights: {c['wt']}) = {est}"
    t.true(np.all(np.isfinite(est)) and np.isfinite(float(f.dist.pdf(1.0, *est))), f"{who}: not a valid parameter vector")
    t.true(in_box(f, [v - 1e-12 * (abs(v) > 1) for v in est]) or in_box(f, est), f"{who}: outside the range of the fit")
    if f.loc is not None:
        t.true(0 <= est[f.loc] < TWO_PI, f"{who}: location outside [0, 2pi)")
    if f.name == "wrapstable" and (est[1] < 0.4 or est[3] < 0.02):
        raise Skip("series longer than the reference evaluates")
    L = ll(f, est, x, w)
    if f.name == "inverse_batschelet":
        ref = f.ref(est)
        loose = 0.02 * np.sum(w) * 0.2 + 2 * np.sum(w) * min(coarse(f, ref), 0.05) + 0.05
    else:
        loose = 5e-3
    t.close(info["loglik"], L, f"{who}: reported log-likelihood", atol=loose + 1e-5 * abs(L), rtol=0)
    s = float(np.sum(w)); neff = s * s / float(np.sum(w * w))
    t.close(info["n_effective"], neff, f"{who}: effective sample size", rtol=1e-9)
    strong = f.name in STRONG
    # spiked estimates: the likelihood is unbounded towards a point mass on an observation
    tol = 1e-3 + 1e-6 * abs(L) if strong else (3.5 + 1e-3 * abs(L)) * (1.0 if c["wt"] in ("none",) else 3.0)
    if c["mix"] <= 0.7 and boxed(f, par) == par and not (f.name == "cartwright" and par[1] > 0.7):
        L0 = ll(f, par, x, w)
        t.true(L >= L0 - tol, f"{who}: log-likelihood {L}, but {L0} at the parameters that generated the data")
    mtol = 1e-3 + 1e-6 * abs(L) if strong else 0.1 + loose + 1e-3 * abs(L)
    if f.name not in ("jonespewsey_asym",):
        mo, _ = fit(f, x, "two-step" if f.name == "jonespewsey_sineskewed" else "moments", **kw) if f.name not in ("vonmises_flattopped", "inverse_batschelet") else (None, None)
        if mo is not None and boxed(f, mo) is not None and (f.name != "wrapstable" or (mo[1] > 0.4 and mo[3] > 0.02)):
            Lm = ll(f, boxed(f, mo), x, w)
            t.true(not L < Lm - mtol, f"{who}: log-likelihood {L}, but {Lm} at the moment estimates {mo}")
    else:
        b, _ = fit(FAMILIES["jonespewsey"], x, "mle", **kw)
        Lb = ll(FAMILIES["jonespewsey"], b, x, w)
        t.true(L >= Lb - mtol, f"{who}: log-likelihood {L}, but {Lb} for the symmetric special case {b}")
    if strong or f.name not in ("inverse_batschelet",) and peak(f.ref(est)) < 4:      # a spiked estimate approaches a point mass
        r = np.random.default_rng(c["seed"] + 1)
        ptol = 5e-3 + 2e-5 * abs(L) if strong else (1.5 + 5e-3 * abs(L)) * (1.0 if c["wt"] == "none" else 2.0)
        for k in range(4 * len(est)):
            q = list(est); j = k % len(est)
            step = [1e-3, 1e-2, 0.1, 0.3][(k // len(est)) % 4]
            if step > 0.05 and f.name in ("vonmises_flattopped", "cartwright"):      # may reach another local maximum
                continue
            q[j] += step * (1 if j == f.loc else max(abs(q[j]), 0.1)) * (1 if r.random() < 0.5 else -1)
            q = boxed(f, q)
            if q is None or (f.name == "wrapstable" and (q[1] < 0.4 or q[3] < 0.02)):
                continue
            Lq = ll(f, q, x, w)
            t.true(not Lq > L + ptol, f"{who}: log-likelihood {L}, but {Lq} at the neighbouring {q}")


@facet("F05", "von_mises_closed_form", st.fixed_dictionaries(dict(mu=MU, k=st.one_of(log_uniform(1e-4, 1e8), log_uniform(0.1, 1000.0)))), quick=300, rule="concentration above 0.1")
def f05_closed(c, t):
    """The von Mises summaries are closed forms, so they can be held to rounding error over the whole range."""
    d, mu, k = FAMILIES["vonmises"].dist, c["mu"], c["k"]
    t.nontrivial(k > 0.1); t.label("above 100" if k > 100 else "up to 100")
    y, gw = np.polynomial.legendre.leggauss(400)
    top = min(math.pi, 12 / math.sqrt(k)); phi = (y + 1) * top / 2; g = np.exp(-2 * k * np.sin(phi / 2) ** 2) * gw
    V = float(np.sum(2 * np.sin(phi / 2) ** 2 * g) / np.sum(g)); lz = math.log(2 * np.sum(g) * top / 2)     # 1 - r without cancellation, and log(2 pi I0) - k
    eps = 2e-15
    t.close(d.var(mu, k), V, f"variance at {k}", rtol=1e-9, atol=eps)
    t.close(d.std(mu, k) ** 2, -2 * math.log1p(-V), f"standard deviation at {k}", rtol=1e-9, atol=2 * eps)
    t.angle_close(d.mean(mu, k), mu, "mean direction", atol=1e-12)
    t.close(d.entropy(mu, k), lz + k * V, f"entropy at {k}", rtol=1e-9, atol=1e-9 + 2 * k * eps)
    fz = d(mu, k)
    t.close((fz.var(), fz.std(), fz.entropy()), (d.var(mu, k), d.std(mu, k), d.entropy(mu, k)), "frozen", rtol=1e-12, atol=0)


@facet("F05", "katojones_conversions", st.fixed_dictionaries(dict(
    g=st.one_of(st.floats(0.01, 0.98), st.sampled_from([0.001, 0.05, 0.5, 0.9])), d=st.one_of(st.floats(0, 0.999), st.sampled_from([0.0, 0.5, 0.99])),
    phi=st.one_of(st.floats(0, TWO_PI), st.sampled_from([0.0, math.pi / 2, math.pi])), mu=MU, out=st.floats(1.01, 3.0))), quick=300, rule="second moment not zero")
def f05_conversions(c, t):
    """Kato-Jones: (rho, lambda) and the second moment about the mean direction are two names for one thing."""
    kj, g = FAMILIES["katojones"].dist, c["g"]
    z = g * g + g * (1 - g) * c["d"] * np.exp(1j * c["phi"])       # any second moment in the feasible disc
    t.nontrivial(abs(z) > 1e-6)
    rho, lam = kj.convert_alpha2_beta2(g, z.real, z.imag)
    t.true(0 <= rho < 1 and 0 <= lam <= TWO_PI, f"converted parameters {rho}, {lam}")
    t.close(g * rho * np.exp(1j * lam), z, "second moment of the converted parameters", atol=1e-11)
    t.close(kj.convert_rho_lambda(g, rho, lam), (z.real, z.imag), "conversion and back", atol=1e-11)
    if rho < 0.95:
        th = np.arange(4096) * TWO_PI / 4096
        p = kj.pdf(th, c["mu"], g, rho, lam) * (TWO_PI / 4096)
        m1, m2 = np.sum(p * np.exp(1j * (th - c["mu"]))), np.sum(p * np.exp(2j * (th - c["mu"])))
        t.close(m1, g, "first moment of the density about its mean direction", atol=1e-8)
        t.close(m2, z, "second moment of the density about its mean direction", atol=1e-8)
    far = g * g + g * (1 - g) * c["out"] * np.exp(1j * c["phi"])
    calls = [lambda: kj.convert_alpha2_beta2(g, far.real, far.imag)]
    if abs(far) / g < 1:
        calls.append(lambda: kj.convert_rho_lambda(g, abs(far) / g, float(np.angle(far)) % TWO_PI))
    for f in calls:
        try:
            got = f()
        except ValueError:
            continue
        t.fail(f"Kato-Jones with mean resultant length {g} and second moment {far}, which no density has, is converted to {got}")


@facet("F10", "maximum", st.one_of(fit_case(STRONG, [8, 15, 40, 120, 400]), fit_case([n for n in QUICKFIT if n not in STRONG], [15, 40, 120, 400])), quick=800, shards=8, rule="at least 8 observations")
def f10_maximum(c, t):
    check_maximum(c, t)


@facet("F10", "maximum-slow", fit_case(SLOW, [15, 40]), quick=32, shards=8, rule="at least 8 observations")
def f10_slow(c, t):
    check_maximum(c, t)


@facet("F10", "small-samples", st.fixed_dictionaries(dict(fam=st.sampled_from(["vonmises", "vonmises", "cardioid", "wrapnorm", "wrapcauchy", "triangular"]), s=st.one_of(gen.spread_sample(3, 12), gen.continuous_sample(3, 14, finite(0.0, 2.0))), wt=st.sampled_from(["none", "none", "counts"]), seed=SEEDS)),
       quick=600, shards=4, rule="at least three distinct directions")
def f10_small(c, t):
    """Few, scattered observations: the likelihood is flat and the starting values are poor."""
    f = FAMILIES[c["fam"]]; x = gen.norm(gen.angles(c["s"])); n = len(x)
    r = np.random.default_rng(c["seed"]); w = np.ones(n) if c["wt"] == "none" else r.integers(1, 4, n).astype(float)
    if len(np.unique(np.round(x, 6))) < 3:
        raise Skip("point masses")
    if f.name == "wrapcauchy" and max(w[np.abs(circ(x - v)) < 1e-3].sum() for v in x) >= 0.5 * np.sum(w) - 1e-9:
        raise Skip("half of the observations coincide: the likelihood is unbounded")
    est, info = fit(f, x, "mle", **({} if c["wt"] == "none" else dict(weights=w)))
    t.true(est is not None, f"{f.name}.fit failed on {x.tolist()}"); t.nontrivial(True); t.label(c["fam"])
    L = ll(f, est, x, w); who = f"{f.name}.fit of {x.tolist()} with weights {w.tolist()} = {est}"
    t.close(info["loglik"], L, f"{who}: reported log-likelihood", atol=1e-6 + 1e-6 * abs(L), rtol=0)
    tol = 0.03 if f.name == "cardioid" else 1e-4 + 1e-6 * abs(L)      # the cardioid's ridge beside rho = 1/2 is nearly level
    if f.name == "vonmises":     # the maximum has a closed form: mean direction, and A(kappa) = resultant length
        m = np.sum(w * np.exp(1j * x)) / np.sum(w); R = abs(m)
        if R > 1 - 1e-5:
            return
        k = brentq(lambda v: i1e(v) / i0e(v) - R, 0, 1e6) if R > 1e-9 else 0.0
        best, at = (np.sum(w) * (k * R - math.log(TWO_PI * i0e(k)) - k), (float(np.angle(m)), k))
        t.true(L <= best + tol, f"{who}: log-likelihood {L} exceeds the maximum {best}")
    else:
        lo, hi = [b for b in FITBOX[f.name] if b is not None][0]
        start = est if len(est) == 2 else [0.0] + est
        def cost(v):
            return -ll(f, ([float(np.mod(v[0], TWO_PI))] if len(est) == 2 else []) + [float(min(max(v[1], lo), hi))], x, w)
        g = min(((cost([u, v]), u, v) for u in (start[0] + np.array([0.0, 0.1, -0.1]) if len(est) == 2 else [0.0]) for v in lo + (hi - lo) * np.array([1e-6, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.97])), key=lambda z: z[0])
        z = minimize(cost, [g[1], g[2]], method="Nelder-Mead", options=dict(maxfev=60))
        best, at = max((-g[0], g[1:]), (-z.fun, tuple(z.x)))
    t.true(L >= best - tol, f"{who}: log-likelihood {L}, but {best} at {at}")


METHODS = {n: ["mle", "moments"] for n in FITTED}
METHODS["jonespewsey_sineskewed"] = ["two-step", "mle"]
METHODS["jonespewsey_asym"] = ["mle"]
METHODS["vonmises_flattopped"] = ["mle", "moments"]
METHODS["inverse_batschelet"] = ["moments"]
METHODS["wrapstable"] = ["moments"]
N_IN_KAPPA = ("vonmises", "vonmises_flattopped", "jonespewsey", "inverse_batschelet")     # small-sample correction of kappa by the total weight


@facet("F11", "relations", st.one_of(fit_case(FITTED, [8, 15, 40, 120], how=st.integers(0, 5), rel=st.sampled_from(["rotate", "repeat", "rescale", "permute", "turns", "unit-weights"]), rot=MU, k=st.integers(-3, 3), scale=log_uniform(1e-3, 1e3))), quick=1000, shards=8,
       rule="at least 8 observations not all equal")
def f11_relations(c, t):
    f, par, x, w, kw = fit_data(c)
    method = METHODS[f.name][c["how"] % len(METHODS[f.name])]
    rel = c["rel"]
    t.label(c["fam"]); t.label(method); t.label(rel)
    t.nontrivial(np.ptp(x) > 1e-3)
    rot = 0.0
    x2, w2 = x, w
    r = np.random.default_rng(c["seed"] + 5)
    if rel == "rotate":
        if f.loc is None:
            raise Skip("no location")
        rot = c["rot"]; x2 = np.mod(x + rot, TWO_PI)
    elif rel == "repeat":
        w = np.ceil(w); kw = dict(weights=w)
        x2 = np.repeat(x, w.astype(int)); w2 = None
    elif rel == "rescale":
        w2 = w * c["scale"]
        if f.name in N_IN_KAPPA and method == "moments":
            raise Skip("the small-sample correction uses the total weight")
    elif rel == "permute":
        p = r.permutation(len(x)); x2, w2 = x[p], w[p]
    elif rel == "turns":
        x2 = x + TWO_PI * c["k"]
    else:
        w = w2 = np.full(len(x), 1.0); kw = {}
    a, ia = fit(f, x, method, **kw)
    b, ib = fit(f, x2, method, **({} if w2 is None else dict(weights=w2)))
    who = f"{f.name}.fit(method={method!r}) of {c['n']} variates of {par} (weights: {c['wt']}, relation: {rel})"
    if a is None or b is None:
        raise Skip("the optimiser reports failure")
    back = list(b)
    if f.loc is not None:
        back[f.loc] = float(np.mod(b[f.loc] - rot, TWO_PI))
    w = kw.get("weights", np.ones(len(x)))
    if method == "moments":
        for i, (u, v) in enumerate(zip(a, back)):
            d = abs(circ(u - v)) if i == f.loc or (f.name == "katojones" and i == 3) else abs(u - v) / max(abs(u), abs(v), 1e-3)
            m = np.sum(w * np.exp(1j * x)) / np.sum(w)
            cond = 1 / max(abs(m), 1e-6)
            if f.name in ("wrapstable", "katojones"):      # ratios of second to first moments
                m2 = np.sum(w * np.exp(2j * x)) / np.sum(w)
                cond = 1 / max(min(abs(m), abs(m2), 1 - abs(m)), 1e-6)**2
            t.true(d <= 1e-9 * cond + 1e-8, f"{who}: {a} and, transformed back, {back}")
    else:
        if f.name == "wrapstable" and min(a[1], b[1]) < 0.4 or f.name in ("wrapstable",) and min(a[3], b[3]) < 0.02:
            raise Skip("series longer than the reference evaluates")
        La = ll(f, a, x, w); Lb = ll(f, back, x, w)
        tol = 2e-3 + 2e-6 * abs(La) if f.name in STRONG else (2.5 + 5e-3 * abs(La)) * (1 if c["wt"] == "none" else 3)
        if f.name == "vonmises_flattopped":     # two local maxima of nearly equal height occur
            tol += 0.5 if max(a[1], b[1]) < 100 else 2.0
        if f.name == "cartwright":
            tol += 3.0
        if f.name not in STRONG and c["n"] < 40:
            raise Skip("few observations: local optima")
        if f.name not in STRONG and max(peak(f.ref(a)), peak(f.ref(b))) > 4:
            raise Skip("estimate close to a point mass")
        t.close(Lb, La, f"{who}: {a} and, transformed back, {back}; log-likelihoods", atol=tol, rtol=0)
    if w2 is not None:
        t.close(ib["n_effective"], ia["n_effective"], f"{who}: effective sample size", rtol=1e-9)


@facet("F11", "moments", fit_case([n for n in FITTED if "moments" in METHODS[n]], [2, 3, 5, 8, 15, 16, 40, 120]), quick=2500, shards=4, rule="at least 8 observations")
def f11_moments(c, t):
    f, par, x, w, kw = fit_data(c)
    t.label(c["fam"]); t.label(c["wt"])
    est, info = fit(f, x, "moments", **kw)
    who = f"{f.name}.fit(method='moments') of {list(np.round(x, 6))} (weights {list(w)}) = {est}"
    W = float(np.sum(w))
    m1, m2 = (complex(np.sum(w * np.exp(1j * k * x)) / W) for k in (1, 2))
    r = abs(m1)
    if r < 1e-4 or r > 1 - 1e-6:
        raise Skip("no mean direction, or a single point")
    t.nontrivial(c["n"] >= 8)
    if f.loc is not None:
        t.true(0 <= est[f.loc] < TWO_PI, f"{who}: location outside [0, 2pi)")
    if f.name not in ("triangular", "wrapstable"):
        t.true(abs(circ(est[f.loc] - np.angle(m1))) < 1e-9 / r + 1e-9, f"{who}: location is not the mean direction {np.angle(m1) % TWO_PI}")
    if f.name == "triangular":
        t.close(est[0], min(max(m1.real, 0), 4 / math.pi**2), f"{who}: mean cosine", atol=1e-12)
    elif f.name == "cardioid":
        t.close(est[1], min(r, 0.5), f"{who}: resultant length", atol=1e-9)
    elif f.name in ("wrapnorm", "wrapcauchy"):
        t.close(est[1], r, f"{who}: resultant length", atol=2e-9)
    elif f.name == "cartwright":
        # E cos = 1 / (1 + zeta)
        t.close(1 / (1 + est[1]), max(r, 1e-6), f"{who}: resultant length of the fitted distribution", atol=1e-6)
    elif f.name in N_IN_KAPPA:
        kap = float(circ_kappa(r=r, n=int(max(1, round(W)))))
        lo, hi = {"vonmises": (1e-9, 1e6), "inverse_batschelet": (1e-6, 700), "jonespewsey": (1e-6, 1e3), "vonmises_flattopped": (1e-6, 1e3)}[f.name]
        t.close(est[1], min(max(kap, lo), hi), f"{who}: kappa of the mean resultant length", rtol=1e-9)
    elif f.name == "wrapstable":
        d, a, b, g = est
        r2 = abs(m2)
        if r2 > 1e-4 and r2 < 1 - 1e-4:
            slope = (math.log(-math.log(r2)) - math.log(-math.log(r))) / math.log(2)
            if 1e-3 < slope < 2 and 1e-6 < math.exp(math.log(-math.log(r)) / slope) < 10:
                t.close([math.exp(-g**a), math.exp(-(2 * g)**a)], [r, r2], f"{who}: first two resultant lengths", rtol=1e-6)
                sh = lambda k: b * (math.tan(math.pi * a / 2) * ((g * k)**a - g * k) if abs(a - 1) > 1e-8 else -2 / math.pi * g * k * math.log(g * k))
                if abs(a - 1) > 1e-4:
                    t.true(abs(circ(d + sh(1) - np.angle(m1))) < 1e-7 / r, f"{who}: direction of the first moment")
                    if abs(b) < 0.989:
                        t.true(abs(circ(2 * d + sh(2) - np.angle(m2))) < 1e-6 / r2 + 1e-6, f"{who}: direction of the second moment")
    elif f.name == "katojones":
        mu, g, rho, lam = est
        t.close(g, r, f"{who}: gamma is the resultant length", atol=1e-8)
        z = m2 / np.exp(2j * est[0])
        disc = abs(z - r * r)
        want = z if disc <= r * (1 - r) else r * r + (z - r * r) * r * (1 - r) / disc
        t.true(abs(g * rho * np.exp(1j * lam) - want) < 1e-7, f"{who}: second moment {g * rho * np.exp(1j * lam)} instead of {want}")
    if f.name not in N_IN_KAPPA or f.name == "vonmises":
        with np.errstate(all="ignore"):
            lp = np.asarray(f.dist.logpdf(x, *est))
        L = float(np.sum(np.where(w > 0, w * lp, 0)))
        if np.isfinite(L) and np.isfinite(info["loglik"]) and not (f.name == "wrapstable" and (est[1] < 0.4 or est[3] < 0.02)) and L > -1e3:
            t.close(info["loglik"], L, f"{who}: reported log-likelihood", rtol=1e-6, atol=1e-5)


# ---- inherited interface ----------------------------------------------------------


@facet("F07", "inherited", any_case(x=POINTS, turns=st.integers(-3, 3), conf=st.one_of(finite(0.0, 1.0), st.sampled_from([0.0, 0.5, 0.95, 1.0])), k=st.integers(1, 3), frozen=st.booleans()),
       quick=1200, shards=4, rule="density not constant")
def f07_inherited(c, t):
    f, d, par = fam(c)
    ref = f.ref(par)
    t.label(c["fam"])
    top = peak(ref)
    t.nontrivial(top > 1.01 / TWO_PI)
    x = points(c, f, par)
    w = f"{f.name}{par}"
    o = d(*par) if c["frozen"] else d
    a = () if c["frozen"] else tuple(par)
    t.close(o.support(*a), (0.0, TWO_PI), f"{w}: support")
    lo, hi = o.interval(c["conf"], *a)
    ends = ((1 - c["conf"]) / 2, (1 + c["conf"]) / 2)
    t.close((lo, hi), [float(d.ppf(q, *par)) for q in ends], f"{w}: interval({c['conf']}) against the quantiles", rtol=0, atol=1e-9)
    if True:
        lp = np.asarray(d.logpdf(x, *par))
        # where the density vanishes (edge of the parameter range) its logarithm is that of a rounding error
        if np.all(np.isfinite(lp)) and (f.name == "vonmises" or np.all(lp > -30)):
            s = -float(np.sum(lp))
            t.close(d.nnlf(tuple(par) + (0.0, 1.0), x + TWO_PI * c["turns"]), s, f"{w}: negative log-likelihood of {list(x)}", rtol=1e-6,
                    atol=1e-6 + float(np.sum(np.max([np.abs(np.asarray(d.logpdf(x + e, *par)) - lp) for e in (-1e-14, 1e-14)], axis=0))) * 3)
    try:
        d.fit_loc_scale(x)
        t.fail(f"{f.name}.fit_loc_scale did not refuse")
    except NotImplementedError:
        pass
    if top < 2.0 and f.name not in ("wrapstable",):
        k = c["k"]
        g = lambda v: np.cos(k * v) + 0.5
        e = d(*par).expect(g) if c["frozen"] else d.expect(g, args=tuple(par))
        t.close(e, ref.moment(k).real + 0.5, f"{w}: expected value of cos({k} x) + 1/2", rtol=0, atol=1e-4 if f.name == "inverse_batschelet" else 1e-5)
