import contextlib, io, itertools, math
from fractions import Fraction
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import i0e, iv, comb
from scipy.stats import binom, binomtest, chi2, f as fdist, norm as gauss, rankdata, wilcoxon, mannwhitneyu, chi2_contingency, chisquare
import pycircstat2.hypothesis as H
from pycircstat2 import Circular
from pycircstat2.descriptive import circ_mean_ci, circ_median, circ_kappa
from pycircstat2.utils import A1inv
from core import facet, Skip
import gen
from gen import *

DEG = math.pi / 180


def signed(x):
    return np.angle(np.exp(1j * np.asarray(x, float)))


def near_ties(a, eps=1e-8):
    """Whether distinct values lie suspiciously close on the circle."""
    s = np.sort(norm(a)); g = np.r_[np.diff(s), s[0] + TWO_PI - s[-1]] if len(s) > 1 else np.array([1.0])
    return bool(np.any((g > 0) & (g < eps)))


def has_ties(a, eps=1e-8):
    if len(a) < 2:
        return False
    s = np.sort(norm(a)); g = np.r_[np.diff(s), s[0] + TWO_PI - s[-1]]
    return bool(np.any(g < eps))


def z_of(a, w=None):
    a = np.asarray(a, float); w = np.ones_like(a) if w is None else w
    return np.sum(w * np.exp(1j * a)) / np.sum(w)


# ---------------------------------------------------------------- reference statistics
def ref_rayleigh(r, n):
    R2 = (n * r) ** 2
    return n * r * r, math.exp(min(0.0, math.sqrt(1 + 4 * n + 4 * (n * n - R2)) - (1 + 2 * n)))


def ref_kuiper(a):
    n = len(a); u = np.sort(norm(a)) / TWO_PI; i = np.arange(1, n + 1)
    D = np.max(i / n - u) + np.max(u - (i - 1) / n)
    return D * (math.sqrt(n) + 0.155 + 0.24 / math.sqrt(n))


def ref_kuiper_p(V, n):
    if V < 0.4:
        return 1.0
    fac = math.sqrt(n) + 0.155 + 0.24 / math.sqrt(n); D = V / fac
    p = sum(2 * (4 * j * j * V * V - 1) * math.exp(-2 * j * j * V * V) for j in range(1, 101)) \
        - (8 * D / 3) * sum(j * j * (4 * j * j * V * V - 3) * math.exp(-2 * j * j * V * V) for j in range(1, 101))
    return p


def ref_watson(a):
    n = len(a); u = np.sort(norm(a)) / TWO_PI; i = np.arange(1, n + 1)
    # Mardia & Jupp eq. 6.3.36
    return float(np.sum((u - u.mean() - (2 * i - 1) / (2 * n) + 0.5) ** 2) + 1 / (12 * n))


def ref_watson_p(U2):
    # two representations of the same limit law, each where it converges fast
    if U2 > 0.05:
        return 2 * sum((-1) ** (m - 1) * math.exp(-2 * m * m * math.pi**2 * U2) for m in range(1, 40))
    if U2 <= 0:
        return 1.0
    return 1 - math.sqrt(2 / (math.pi * U2)) * sum(math.exp(-((2 * k + 1) ** 2) / (8 * U2)) for k in range(20))


def ref_rao(a):
    s = np.sort(norm(a)); n = len(s)
    g = np.r_[np.diff(s), s[0] + TWO_PI - s[-1]]
    return float(0.5 * np.sum(np.abs(g - TWO_PI / n)) / DEG)


def ref_range(a):
    s = np.sort(norm(a))
    if len(s) == 1:
        return 0.0
    return TWO_PI - float(np.max(np.r_[np.diff(s), s[0] + TWO_PI - s[-1]]))


def ref_range_p(r, n):
    if n == 1:
        return 1.0
    g = 1 - Fraction(r / TWO_PI)
    tot = Fraction(0)
    k = 1
    while k <= n and k * g < 1:
        tot += (-1) ** (k - 1) * math.comb(n, k) * (1 - k * g) ** (n - 1)
        k += 1
    return float(tot)


def omnibus_counts(a):
    """(minimum over lines of the points on one side, widest arc of line directions attaining it)."""
    a = norm(a)
    ev = np.unique(np.round(np.mod(np.r_[a, a + math.pi], TWO_PI), 12))
    nx = np.r_[ev[1:], ev[0] + TWO_PI]
    best, width = len(a) + 1, 0.0
    for lo, hi in zip(ev, nx):
        m = int(np.sum(np.mod(a - (lo + hi) / 2, TWO_PI) < math.pi))
        if m < best:
            best, width = m, hi - lo
        elif m == best:
            width = max(width, hi - lo)
    return best, width


def ref_omnibus_p(n, m):
    if n <= 2 * m:
        return 1.0
    return float(Fraction((n - 2 * m) * math.comb(n, m), 2 ** (n - 1)))


CONT = lambda lo, hi: st.one_of(continuous_sample(lo, hi, st.one_of(finite(0, 1.5), finite(0.5, 8.0))), st.builds(lambda a: {"k": "list", "a": a}, st.lists(ANGLE, min_size=lo, max_size=max(lo, min(hi, 12)))))

ONE = {
    "rayleigh": lambda a, c: (lambda r: ((r.r, r.z), r.pval))(H.rayleigh_test(a)),
    "omnibus": lambda a, c: (lambda r: ((r.m,), r.pval))(H.omnibus_test(a, scale=c["scale"])),
    "kuiper": lambda a, c: (lambda r: ((r.V,), r.pval))(H.kuiper_test(a, n_simulation=1)),
    "watson": lambda a, c: (lambda r: ((r.U2,), r.pval))(H.watson_test(a, n_simulation=1)),
    "rao": lambda a, c: (lambda r: ((r.statistic,), r.pval))(H.rao_spacing_test(a, n_simulation=30, seed=5)),
    "range": lambda a, c: (lambda r: ((r.range_stat,), r.pval))(H.circ_range_test(a)),
    "kuiper_sim": lambda a, c: (lambda r: ((r.V,), r.pval))(H.kuiper_test(a, n_simulation=30, seed=5)),
    "watson_sim": lambda a, c: (lambda r: ((r.U2,), r.pval))(H.watson_test(a, n_simulation=30, seed=5)),
    "rayleigh_boot": lambda a, c: (lambda r: ((r.z,), r.bootstrap_pval))(H.rayleigh_test(a, B=30, seed=5)),
}


def quiet(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn(*a, **k)
    return r, buf.getvalue()


def code(p):
    return "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""


# ---------------------------------------------------------------- H01
CASE1 = st.builds(lambda s, angle, scale, md: dict(s=s, angle=angle, scale=scale, md=md), st.one_of(spread_sample(1, 80), spread_sample(2, 30), st.builds(lambda n, o, j, sd: dict(k="even", n=n, o=o, j=j, seed=sd), st.integers(1, 600), ANGLE, st.sampled_from([0.0, 0.0, 1e-9, 1e-3, 0.3]), SEEDS)), ANY_ANGLE, st.integers(1, 4), ANGLE)


def sample1(s):
    if isinstance(s, dict) and s["k"] == "even":
        r = np.random.default_rng(s["seed"])
        return norm(s["o"] + np.arange(s["n"]) * TWO_PI / s["n"] + s["j"] * TWO_PI / s["n"] * r.uniform(-1, 1, s["n"]))
    return angles(s)


def pcheck(t, name, p, stat=()):
    t.true(p is not None and np.isfinite(p) and -1e-12 <= p <= 1 + 1e-9, f"{name}: p-value {p}", key=None)
    for s in stat:
        t.true(np.isfinite(s), f"{name}: statistic {s}")


@facet("H01", "one_sample", CASE1, quick=700, shards=3, rule="at least four distinct directions",
       examples=[dict(s=dict(k="even", n=n, o=0.0, j=0.0, seed=0), angle=1.0, scale=1, md=0.3) for n in (1, 2, 4, 100, 500)])
def h01_one(c, t):
    a = sample1(c["s"])
    t.nontrivial(len(set(np.round(a, 6))) >= 4)
    if c["s"]["k"] == "even":
        t.label("evenly spread")
    for name, fn in ONE.items():
        if name in ("kuiper_sim", "watson_sim", "rao", "rayleigh_boot") and len(a) > 100:
            continue
        stat, p = fn(a, c)
        pcheck(t, name, p, stat)
    for name, fn, args in (("V", H.V_test, (c["angle"], a)), ("batschelet", H.batschelet_test, (c["angle"], a)), ("binomial", H.binomial_test, (a, c["md"])),
                           ("rayleigh", H.rayleigh_test, (a,)), ("range", H.circ_range_test, (a,)), ("omnibus", H.omnibus_test, (a,))):
        r = fn(*args)
        pcheck(t, name, r.pval)
        t.true(r.significance() == code(r.pval) or r.significance().strip() == code(r.pval), f"{name}: significance {r.significance()!r} for p={r.pval}")
        d = r.asdict()
        t.true(d["pval"] == r.pval, f"{name}: asdict")
        v, out = quiet(fn, *args, verbose=True)
        t.true(v == r or np.isinf(getattr(r, "A", 0)), f"{name}: verbose result differs")
        t.true(f"{r.pval:.5f}" in out or f"{r.pval:.5g}" in out, f"{name}: printed p-value")
    if len(a) >= 3 and np.isfinite(circ_median(a)):
        d = np.abs(signed(a - circ_median(a)))
        if np.sum(d > 1e-8) >= 2:
            r = H.symmetry_test(a)
            pcheck(t, "symmetry", r.pval, (r.statistic,))


SIZES = st.lists(st.integers(2, 25), min_size=2, max_size=5)
MULTI = st.builds(lambda sizes, mus, kap, common, seed, grid: dict(sizes=sizes, mu=mus, kappa=kap, common=common, seed=seed, grid=grid), SIZES,
                  st.lists(ANGLE, min_size=1, max_size=5), st.lists(st.one_of(finite(0.2, 4.0), log_uniform(0.5, 100)), min_size=1, max_size=5), st.booleans(), SEEDS, st.sampled_from([0, 0, 0, 36, 72, 360]))
TWO = st.builds(lambda m: dict(m, sizes=m["sizes"][:2]), MULTI)


def groups(c):
    r = np.random.default_rng(c["seed"])
    out = []
    for i, n in enumerate(c["sizes"]):
        mu = c["mu"][0] if c["common"] else c["mu"][i % len(c["mu"])]
        k = c["kappa"][0] if c["common"] else c["kappa"][i % len(c["kappa"])]
        a = gen.vm_draw(r, mu, k, n)
        if c["grid"]:
            a = norm(np.round(a * c["grid"] / TWO_PI) * TWO_PI / c["grid"])
        out.append(a)
    return out


def multi_ok(name, gs):
    """Domain of each multi-sample test (documented or unavoidable non-degeneracy)."""
    n = np.array([len(g) for g in gs]); r = np.array([abs(z_of(g)) for g in gs]); N = n.sum()
    al = np.hstack(gs); R = abs(z_of(al))
    if name in ("ww", "anova_f", "anova_lrt"):
        return N > len(gs) and N - np.sum(n * r) > 1e-6 and R > 1e-3 and r.min() > 1e-6
    if name == "equal_kappa":
        if n.min() < 5 or np.any(n - n * r < 1e-9):
            return False
        return True
    if name == "common_median":
        if has_ties(al, 1e-6):
            return False
        m = circ_median(al)
        if not np.isfinite(m):
            return False
        s = np.sum(signed(al - m) < -1e-9)
        return 0 < s < N
    if name == "concentration":
        return n.min() >= 2 and len(gs) == 2 and np.all(n - n * r > 1e-9)
    if name == "rao_hom":
        return n.min() >= 3 and np.all(np.abs([np.mean(np.cos(g)) for g in gs]) > 1e-3) and np.all([np.var(np.cos(g)) > 1e-9 and np.var(np.sin(g)) > 1e-9 for g in gs]) and rh_var(gs)
    if name == "wheeler":
        return not has_ties(al, 1e-9)
    if name in ("u2", "wallraff", "art"):
        return len(gs) == 2
    return True


def rh_var(gs):
    return all(v > 1e-9 for v in ref_rao_hom_vars(gs)[0]) and all(v > 1e-9 for v in ref_rao_hom_vars(gs)[1])


def ref_rao_hom_vars(gs):
    P, Dp = [], []
    for g in gs:
        X = np.c_[np.cos(g), np.sin(g)]; n = len(g)
        C, S = X.mean(0); V = np.cov(X.T, ddof=1) / n
        gp = np.array([-S / C**2, 1 / C]); gd = np.array([2 * C, 2 * S])
        P.append(gp @ V @ gp); Dp.append(gd @ V @ gd)
    return np.array(P), np.array(Dp)


MT = {
    "ww": lambda g, c: (lambda r: ((r.F,), r.pval))(H.watson_williams_test(g)),
    "u2": lambda g, c: (lambda r: ((r.U2,), r.pval))(H.watson_u2_test(g)),
    "wheeler": lambda g, c: (lambda r: ((r.W,), r.pval))(H.wheeler_watson_test(g)),
    "wallraff": lambda g, c: (lambda r: ((r.U,), r.pval))(H.wallraff_test(g, angle=c.get("angle", 0.0))),
    "anova_f": lambda g, c: (lambda r: ((r.statistic,), r.pval))(H.circ_anova(g, method="F-test", f_mod=c.get("fmod", True))),
    "anova_lrt": lambda g, c: (lambda r: ((r.statistic,), r.pval))(H.circ_anova(g, method="LRT")),
    "equal_kappa": lambda g, c: (lambda r: ((r.statistic,), r.pval))(H.equal_kappa_test(g)),
    "common_median": lambda g, c: (lambda r: ((r.statistic,), r.pval))(H.common_median_test(g)),
    "concentration": lambda g, c: (lambda r: ((r.f_stat,), r.pval))(H.concentration_test(g[0], g[1])),
    "rao_hom": lambda g, c: (lambda r: ((r.H_disp,), r.pval_disp))(H.rao_homogeneity_test(list(g))),
    "rao_hom_polar": lambda g, c: (lambda r: ((r.H_polar,), r.pval_polar))(H.rao_homogeneity_test(list(g))),
    "art": lambda g, c: (lambda r: ((r.statistic,), r.pval))(H.angular_randomisation_test(g, n_simulation=20, seed=3)),
}
TWO_ONLY = ("u2", "wallraff", "concentration", "art")


def ek_key(gs):
    r = [abs(z_of(g)) for g in gs]
    return "equal-kappa-arcsin-domain" if abs(z_of(np.hstack(gs))) < 0.45 and max(r) > math.sqrt(2 / 3) else None


@facet("H01", "multi_sample", st.builds(lambda m, a: dict(m, angle=a), MULTI, ANY_ANGLE), quick=900, shards=3, rule="at least two groups that are not both tiny (5 or more observations in total)")
def h01_multi(c, t):
    gs = groups(c); t.nontrivial(sum(map(len, gs)) >= 5)
    pending = None
    for name, fn in MT.items():
        g = gs[:2] if name in TWO_ONLY else gs
        if not multi_ok(name if name != "rao_hom_polar" else "rao_hom", g):
            continue
        t.label(name)
        stat, p = fn(g, c)
        if name == "equal_kappa" and ek_key(g) and not np.isfinite(p):
            pending = (p, ek_key(g)); continue
        pcheck(t, name, p, stat)
        t.true(stat[0] >= -1e-6 or name == "anova_lrt", f"{name}: negative statistic {stat}")
    if multi_ok("rao_hom", gs):
        for al in (0.05, 0.3):
            r = H.rao_homogeneity_test(gs, alpha=al)
            for rej, p in ((r.reject_polar, r.pval_polar), (r.reject_disp, r.pval_disp)):
                if abs(p - al) > 1e-9:
                    t.true(bool(rej) == (p < al), f"homogeneity decision {rej} at p={p}, level {al}")
    if multi_ok("common_median", gs):
        for al in (0.05, 0.5):
            r = H.common_median_test(gs, alpha=al)
            if abs(r.pval - al) > 1e-9:
                t.true(bool(r.reject) == (r.pval < al), f"common median decision {r.reject} at p={r.pval}, level {al}")
            t.true(np.isnan(r.common_median) == bool(r.reject), "common median reported exactly when not rejected")
            if not r.reject:
                t.angle_close(r.common_median, circ_median(np.hstack(gs)), "common median")
    if pending:
        t.fail(f"equal_kappa: p-value {pending[0]}", key=pending[1])


@facet("H01", "decisions", st.fixed_dictionaries(dict(s=continuous_sample(10, 60), angle=ANY_ANGLE, mode=st.sampled_from(["data", "bounds"]), lb=ANY_ANGLE, ub=ANY_ANGLE, rot=ROT)), quick=600, rule="an interval exists")
def h01_dec(c, t):
    a = angles(c["s"])
    if c["mode"] == "bounds":
        lb, ub = c["lb"], c["ub"]
        r = H.one_sample_test(c["angle"], lb=lb, ub=ub)
    else:
        try:
            lb, ub = circ_mean_ci(alpha=a)
        except ValueError:
            raise Skip()
        if not (np.isfinite(lb) and np.isfinite(ub)):
            raise Skip()
        r = H.one_sample_test(c["angle"], alpha=a)
        t.close(r.ci, (lb, ub), "interval")
    span = float(np.mod(ub - lb, TWO_PI)); pos = float(np.mod(c["angle"] - lb, TWO_PI))
    if min(abs(pos - span), pos, TWO_PI - pos, span, TWO_PI - span) < 1e-8:
        raise Skip()
    t.nontrivial(True); t.label("reject" if pos > span else "keep")
    t.true(bool(r.reject) == (pos > span), f"decision {r.reject} for {c['angle']} against [{lb},{ub}]")
    t.true(r.angle == float(c["angle"]), "hypothesised angle reported")
    g = H.one_sample_test(c["angle"] + c["rot"], lb=lb + c["rot"], ub=ub + c["rot"])
    t.true(bool(g.reject) == bool(r.reject), "decision rotates")
    if c["mode"] == "data":
        g = H.one_sample_test(c["angle"] + c["rot"], alpha=norm(a + c["rot"]))
        t.true(bool(g.reject) == bool(r.reject), "decision rotates with the data")


@facet("H01", "refuse", st.fixed_dictionaries(dict(n=st.integers(2, 6), bad=st.sampled_from([float("nan"), float("inf")]), k=st.integers(0, 30))), quick=60, rule="always")
def h01_refuse(c, t):
    a = np.linspace(0.1, 3, c["n"]); e = np.array([]); b = a.copy(); b[0] = c["bad"]
    t.nontrivial(True)
    W = Circular(a, w=np.arange(1, c["n"] + 1), unit="radian", bins=None) if False else None
    triple = dict(mean=0.4, r=0.5, n=9)
    parts = [k for q in (0, 1, 2) for k in itertools.combinations(sorted(triple), q)]
    for k in parts:   # an incomplete summary is ignored in favour of the observations
        part = {x: triple[x] for x in k}
        x, y = H.V_test(0.3, a, **part), H.V_test(0.3, a)
        t.close((x.V, x.u, x.pval), (y.V, y.u, y.pval), f"V test given {k} and the observations")
    calls = {
        "summary": [lambda k=k: H.V_test(0.3, **{x: triple[x] for x in k}) for k in parts] + [lambda: H.V_test(0.3, mean=0.4, r=0.5, n=0), lambda: H.V_test(0.3, mean=0.4, r=1.5, n=4), lambda: H.rayleigh_test(n=5), lambda: H.rayleigh_test(r=0.3, n=0)],
        "empty": [lambda f=f: f(e) for f in (H.rayleigh_test, H.omnibus_test, H.symmetry_test, H.kuiper_test, H.watson_test, H.rao_spacing_test, H.circ_range_test)] +
                 [lambda: H.V_test(0.0, e), lambda: H.batschelet_test(0.0, e), lambda: H.binomial_test(e, 0.0), lambda: H.one_sample_test(0.0, alpha=e), lambda: H.chisquare_test(e)],
        "budget": [lambda f=f: f(a, n_simulation=-c["k"]) for f in (H.kuiper_test, H.watson_test, H.rao_spacing_test)] + [lambda: H.rayleigh_test(a, B=-c["k"]), lambda: H.angular_randomisation_test([a, a], n_simulation=-c["k"])],
        "groups": [lambda f=f: f([a]) for f in (H.watson_williams_test, H.watson_u2_test, H.wheeler_watson_test, H.wallraff_test, H.circ_anova, H.angular_randomisation_test, H.equal_kappa_test, H.common_median_test)] +
                  [lambda f=f: f([a, a, a]) for f in (H.watson_u2_test, H.wallraff_test, H.angular_randomisation_test)],
        "nonfinite": [lambda f=f: f([a, b]) for f in (H.watson_williams_test, H.watson_u2_test, H.wheeler_watson_test, H.wallraff_test, H.angular_randomisation_test)],
        "weights": [lambda: H.rayleigh_test(a, w=np.ones(c["n"] + 1)), lambda: H.rayleigh_test(a, w=np.zeros(c["n"])), lambda: H.rao_spacing_test(a, w=-np.ones(c["n"])), lambda: H.rao_spacing_test(a, w=np.full(c["n"], 0.5)),
                    lambda: H.V_test(0.0, a, w=np.zeros(c["n"])), lambda: H.chisquare_test(-np.ones(3)), lambda: H.rayleigh_test(r=1.5, n=3), lambda: H.rayleigh_test(r=0.5), lambda: H.rayleigh_test(), lambda: H.rayleigh_test(r=-0.1, n=4)],
        "misc": [lambda: H.circ_anova([a, a], method="x"), lambda: H.omnibus_test(a, scale=0), lambda: H.common_median_test([a, a + 0.1], alpha=1.0 + c["k"]), lambda: H.concentration_test(a[:1], a), lambda: H.change_point_test(a[:3]),
                 lambda: H.circ_range_test(a + 20.0), lambda: H.rao_homogeneity_test([a.tolist(), a.tolist()]), lambda: H.equal_kappa_test([a, a[:1]])],
    }
    for kind, fs in calls.items():
        for i, f in enumerate(fs):
            try:
                r = f()
            except ValueError:
                continue
            t.fail(f"{kind} #{i} accepted: {r}")


# ---------------------------------------------------------------- H02
@facet("H02", "group_action", st.fixed_dictionaries(dict(s=st.one_of(CONT(2, 60), spread_sample(2, 60)), rot=ROT, turns=SHIFT, pseed=SEEDS, refl=st.booleans(), op=st.sampled_from(["rotate", "reflect", "turns", "order", "all"]), grid=st.integers(0, 719), scale=st.integers(1, 3))),
       quick=1200, shards=3, rule="at least three distinct directions")
def h02(c, t):
    a = angles(c["s"]); n = len(a)
    t.nontrivial(len(set(np.round(a, 6))) >= 3); t.label(c["op"])
    b = a.copy()
    if c["op"] in ("rotate", "all"):
        b = norm(b + c["rot"])
    if c["op"] in ("reflect", "all"):
        b = norm(-b)
    if c["op"] in ("order", "all"):
        b = b[perm(n, c["pseed"])]
    if c["op"] in ("turns", "all"):
        b = add_turns(b, c["turns"])
    tight = {}
    for name, fn in ONE.items():
        if name == "omnibus":
            continue
        bb = np.mod(b, TWO_PI) if name == "range" else b
        s0, p0 = fn(a, c); s1, p1 = fn(bb, c)
        t.close(s1, s0, f"{name} statistic under {c['op']}", atol=1e-7)
        if name in ("kuiper_sim", "watson_sim", "rao", "rayleigh_boot"):
            t.true(abs(p1 - p0) <= 1.01 / 31, f"{name} p-value {p0} -> {p1}")
        else:
            t.close(p1, p0, f"{name} p-value under {c['op']}", rtol=1e-4, atol=1e-6)
    if near_ties(np.r_[a, norm(a + math.pi)]):
        return
    # the omnibus test searches lines at a fixed angular resolution: rotations by its step are exact
    step = math.pi / (360 * c["scale"])
    q = c["grid"] * step
    if np.min(np.abs(np.mod(a / step + 0.5, 1) - 0.5)) * step < 1e-7:
        t.label("omnibus: on a line"); return
    r0 = H.omnibus_test(a, scale=c["scale"])
    for what, x in (("rotation", norm(a + q)), ("reflection", norm(-a)), ("turns", add_turns(a, c["turns"])), ("order", a[perm(n, c["pseed"])]), ("half turn", norm(a + math.pi))):
        r1 = H.omnibus_test(x, scale=c["scale"])
        t.true(r1.m == r0.m, f"omnibus count {r0.m} -> {r1.m} under {what}")
        t.close(r1.pval, r0.pval, f"omnibus p-value under {what}")


@facet("H02", "omnibus_resolution", st.fixed_dictionaries(dict(s=st.one_of(CONT(1, 40), spread_sample(1, 40)), rot=ROT)), quick=800, rule="some half circle is unambiguously the emptiest at the search resolution")
def h02_omni(c, t):
    a = norm(angles(c["s"]) + c["rot"])
    if near_ties(np.r_[a, norm(a + math.pi)]) or has_ties(np.r_[np.unique(a), norm(np.unique(a) + math.pi)], 1e-8):
        raise Skip()
    m, width = omnibus_counts(a)
    got = H.omnibus_test(a).m
    t.true(got >= m, f"count {got} below the true minimum {m}")
    if width > 0.5 * DEG + 1e-6:
        t.nontrivial(True)
        t.true(got == m, f"count {got}, true minimum {m} attained over {width} rad")


# ---------------------------------------------------------------- H03
W1 = st.one_of(st.none(), POS_INT_W, INT_W)


@facet("H03", "rayleigh_family", st.fixed_dictionaries(dict(s=spread_sample(1, 80), w=W1, angle=ANY_ANGLE)), quick=1200, rule="resultant between 0.001 and 0.9999")
def h03_ray(c, t):
    a = angles(c["s"]); w = weights(len(a), c["w"])
    z = z_of(a, w); n = int(len(a) if w is None else w.sum()); r = abs(z)
    t.nontrivial(1e-3 < r < 0.9999)
    g = H.rayleigh_test(a, w=w)
    Z, p = ref_rayleigh(min(r, 1.0), n)
    t.close(g.r, r, "resultant"); t.close(g.z, Z, "z"); t.close(g.pval, p, "Rayleigh p-value", rtol=1e-6, atol=1e-9)
    g2 = H.rayleigh_test(r=float(min(r, 1.0)), n=n)
    t.close((g2.z, g2.pval), (g.z, g.pval), "from (r, n)", rtol=1e-6, atol=1e-9)
    t.true(g.bootstrap_pval is None, "no bootstrap requested")
    v = H.V_test(c["angle"], a, w=w)
    V = n * (z * np.exp(-1j * c["angle"])).real
    t.close(v.V, V, "V", atol=1e-6 if r < 1e-6 else 1e-8); t.close(v.u, V * math.sqrt(2 / n), "u", atol=1e-6 if r < 1e-6 else 1e-8); t.close(v.pval, gauss.sf(V * math.sqrt(2 / n)), "V p-value", atol=1e-6)
    if r > 1e-6:
        v2 = H.V_test(c["angle"], mean=float(np.angle(z)), r=float(min(r, 1.0)), n=n)
        t.close((v2.V, v2.pval), (v.V, v.pval), "from (mean, r, n)", atol=1e-7)
    fr = np.array([x for x in (c["w"] or [1, 2, 3])], float)
    if fr.sum() > 0:
        k = len(fr); E = fr.sum() / k
        x2 = np.sum((fr - E) ** 2) / E
        g = H.chisquare_test(fr)
        t.close(g.chi2, x2, "chi-square")
        if k > 1:
            t.close(g.pval, chi2.sf(x2, k - 1), "chi-square p-value")


@facet("H03", "rank_and_gap", st.fixed_dictionaries(dict(s=st.one_of(spread_sample(1, 60), CONT(1, 60)), rot=ROT, turns=SHIFT)), quick=900, shards=2, rule="at least four distinct directions")
def h03_gap(c, t):
    a = norm(angles(c["s"]) + c["rot"]); n = len(a); b = add_turns(a, c["turns"])
    t.nontrivial(len(set(np.round(a, 6))) >= 4)
    k = H.kuiper_test(b, n_simulation=1)
    V = ref_kuiper(a)
    t.close(k.V, V, "Kuiper V", atol=1e-8); t.true(k.mode == "asymptotic", "mode")
    t.close(k.pval, min(max(ref_kuiper_p(V, n), 0.0), 1.0), "Kuiper p", atol=2e-5)
    u = H.watson_test(b, n_simulation=1)
    U2 = ref_watson(a)
    t.close(u.U2, U2, "Watson U2", atol=1e-9)
    t.close(u.pval, min(ref_watson_p(U2), 1.0), "Watson p", atol=1e-6)
    if n >= 1:
        g = H.rao_spacing_test(b, n_simulation=2, seed=1)
        t.close(g.statistic, ref_rao(a), "Rao spacing", atol=1e-7); t.true(g.mode == "ungrouped", "mode")
    g = H.circ_range_test(a)
    rg = ref_range(a)
    t.close(g.range_stat, rg, "range", atol=1e-8)
    t.close(g.pval, min(max(ref_range_p(rg, n), 0.0), 1.0), "range p-value", rtol=1e-4, atol=1e-5)
    o = H.omnibus_test(b)
    t.close(o.pval, ref_omnibus_p(n, o.m), "omnibus p-value", rtol=1e-6)
    if n > 2 * o.m:
        t.close(o.A, math.pi * math.sqrt(n) / (2 * (n - 2 * o.m)), "omnibus A")


@facet("H03", "sign_and_symmetry", st.fixed_dictionaries(dict(s=st.one_of(CONT(3, 60), st.builds(lambda d, i, n: {"k": "list", "a": [TWO_PI * (j % d) / d for j in i][:n]}, st.sampled_from([24, 36, 72, 360]), st.lists(st.integers(0, 359), min_size=5, max_size=40), st.integers(5, 40))), angle=ANGLE, at=st.integers(0, 39), how=st.sampled_from(["free", "observation"]), turns=SHIFT)),
       quick=1000, rule="observations on both sides of the hypothesised direction")
def h03_sign(c, t):
    a = angles(c["s"]); n = len(a)
    md = a[c["at"] % n] if c["how"] == "observation" else c["angle"]
    b = add_turns(a, c["turns"])
    d = signed(a - md)
    clear = np.all((np.abs(d) > 1e-8) | (a == md)) and np.all(np.abs(np.abs(d) - math.pi) > 1e-8)
    if clear:
        n1, n2 = int(np.sum(d < -1e-8)), int(np.sum(d > 1e-8))
        t.nontrivial(n1 > 0 and n2 > 0)
        g = H.binomial_test(a, md)
        t.true((g.n1, g.n2, g.n_eff) == (n1, n2, n1 + n2), f"sides {g.n1},{g.n2},{g.n_eff} expected {n1},{n2}")
        t.close(g.pval, min(1.0, 2 * sum(math.comb(n1 + n2, k) for k in range(min(n1, n2) + 1)) / 2 ** (n1 + n2)), "binomial p", atol=1e-9)
        if c["how"] == "free" and np.all(np.abs(d) > 1e-8):
            g2 = H.binomial_test(b, md)
            t.true((g2.n1, g2.n2) == (n1, n2), "whole turns move observations across the median")
    e = np.abs(signed(a - c["angle"]))
    if np.all(np.abs(e - math.pi / 2) > 1e-8):
        C = int(np.sum(e > math.pi / 2))
        g = H.batschelet_test(c["angle"], b)
        t.true(g.C == C, f"Batschelet count {g.C}, expected {C} outside the predicted half circle")
        t.close(g.pval, binomtest(C, n, 0.5).pvalue, "Batschelet p")
    for med in (None, float(md)):
        m = circ_median(a) if med is None else med
        if not np.isfinite(m):
            continue
        dd = np.round(signed(a - m), 9)
        if np.any(np.abs(np.abs(dd) - math.pi) < 1e-7):
            continue
        gaps = np.diff(np.unique(np.r_[0.0, np.abs(signed(a - m))]))
        if np.any((gaps > 1e-12) & (gaps < 1e-8)):
            continue
        dd = dd[dd != 0]
        if len(dd) < 2:
            continue
        rk = rankdata(np.abs(dd)); wp, wm = rk[dd > 0].sum(), rk[dd < 0].sum()
        g = H.symmetry_test(a, median=med)
        t.close(g.statistic, min(wp, wm), "signed-rank statistic")
        t.close(g.pval, wilcoxon(np.round(signed(a - m), 9)).pvalue, "signed-rank p", atol=1e-7)
        if med is not None:
            h = H.symmetry_test(norm(-a), median=-med)
            t.close((h.statistic, h.pval), (g.statistic, g.pval), "reflection")


def ref_phi(x):
    k = float(A1inv(x))
    return x * k - (math.log(i0e(k)) + k)


@facet("H03", "change_point", st.fixed_dictionaries(dict(n1=st.integers(2, 25), n2=st.integers(2, 25), m1=ANGLE, m2=ANGLE, k1=log_uniform(0.3, 30), k2=log_uniform(0.3, 30), seed=SEEDS, rot=ROT, turns=SHIFT)), quick=600, rule="the two parts differ in direction by more than 0.3")
def h03_cp(c, t):
    r = np.random.default_rng(c["seed"])
    a = np.r_[gen.vm_draw(r, c["m1"], c["k1"], c["n1"]), gen.vm_draw(r, c["m2"], c["k2"], c["n2"])]; n = len(a)
    t.nontrivial(arc(c["m1"], c["m2"]) > 0.3)
    z = np.exp(1j * a); cz = np.cumsum(z)
    R1 = np.abs(cz); R2 = np.abs(cz[-1] - cz); R = abs(cz[-1])
    if np.any(R1[1:] / np.arange(2, n + 1) > 1 - 1e-7) or np.any(R2[:-2] / (n - np.arange(1, n - 1)) > 1 - 1e-7):
        raise Skip()
    # (small resultants make the ratio to the segment length delicate but finite)
    Rd = R1 + R2 - R
    ks = np.arange(2, n - 1)
    V = np.array([k / n * ref_phi(R1[k - 1] / k) + (n - k) / n * ref_phi(R2[k - 1] / (n - k)) for k in ks])
    g = H.change_point_test(a)
    t.true(g.n == n, "n"); t.close(g.rho, R / n, "rho"); t.close(g.rmax, Rd.max(), "rmax", atol=1e-8); t.close(g.rave, Rd.mean(), "rave", atol=1e-8)
    t.close(g.tmax, V.max(), "tmax", atol=1e-6); t.close(g.tave, V.mean(), "tave", atol=1e-6)
    t.close(Rd[g.k_r], Rd.max(), "change point of the direction statistic", atol=1e-8)
    t.true(0 <= g.k_t - 1 < len(V), "k_t in range"); t.close(V[g.k_t - 1], V.max(), "change point of the likelihood statistic", atol=1e-6)
    h = H.change_point_test(add_turns(a + c["rot"], c["turns"]))
    t.close((h.rmax, h.tmax, h.rave, h.tave), (g.rmax, g.tmax, g.rave, g.tave), "rotation", atol=1e-6)
    h = H.change_point_test(a[::-1])
    t.close((h.tmax, h.tave, h.rmax), (g.tmax, g.tave, g.rmax), "time reversal", atol=1e-6)


# ---------------------------------------------------------------- H04
@facet("H04", "group_action", st.builds(lambda m, **k: dict(m, **k), MULTI, angle=ANGLE, rot=ROT, turns=SHIFT, pseed=SEEDS, op=st.sampled_from(["rotate", "reflect", "turns", "order", "samples", "all"]), test=st.sampled_from(sorted(MT)), fmod=st.booleans()),
       quick=6000, shards=6, rule="at least six observations in all")
def h04(c, t):
    name = c["test"]; gs = groups(c)
    if name in TWO_ONLY:
        gs = gs[:2]
    base = "rao_hom" if name == "rao_hom_polar" else name
    if not multi_ok(base, gs):
        raise Skip()
    if name == "equal_kappa" and ek_key(gs):
        raise Skip()
    al = np.hstack(gs); N = len(al); tied = has_ties(al, 1e-9)
    if near_ties(al):
        raise Skip()
    t.nontrivial(N >= 6); t.label(name + "/" + c["op"])
    op = c["op"]
    if op == "all" and (tied or c["grid"]):
        op = "rotate"
    hs = [g.copy() for g in gs]; c2 = dict(c)
    if op in ("rotate", "all"):
        q = math.pi if name == "rao_hom_polar" else c["rot"]
        hs = [norm(g + q) for g in hs]; c2["angle"] = c["angle"] + q
        if tied and name in ("u2", "wallraff"):   # keep exact ties exact
            k = c["grid"] or 360
            lut = {}
            hs = [np.round(h, 11) for h in hs]
    if op in ("reflect", "all"):
        if tied and name == "u2":
            raise Skip()
        hs = [norm(-g) for g in hs]; c2["angle"] = -c2["angle"]
    if op in ("order", "all"):
        hs = [g[perm(len(g), c["pseed"] + i)] for i, g in enumerate(hs)]
    if op in ("samples", "all"):
        o = perm(len(hs), c["pseed"]); hs = [hs[i] for i in o]
    if op in ("turns", "all"):
        if not (tied and name in ("u2",)):
            hs = [add_turns(g, c["turns"]) for g in hs]
    if name == "common_median":
        d = signed(al - circ_median(al))
        if np.any(np.abs(np.abs(d) - math.pi) < 1e-7):
            raise Skip()
        m1 = circ_median(np.hstack(hs))
        want = -1 if op in ("reflect", "all") else 1
        # equally good medians are a free choice; and reflection swaps "below" and "not below" for a median observation
        if arc(want * (m1 - 0.0) if op == "reflect" else (-(m1) if op == "all" else m1 - (c["rot"] if op == "rotate" else 0)) , circ_median(al) + (c["rot"] if op == "all" else 0)) > 1e-7:
            raise Skip()
        if N % 2 == 1 and op in ("reflect", "all"):
            raise Skip()
    s0, p0 = MT[name](gs, c); s1, p1 = MT[name](hs, c2)
    if name == "concentration" and op in ("samples", "all") and not np.array_equal(np.sort(hs[0]), np.sort(gs[0])):
        if abs(p1 - p0) < 1e-9 and abs(s1[0] * s0[0] - 1) < 1e-6:
            return   # swapped samples: the ratio inverts
        if op == "samples":
            t.fail(f"concentration: swapping samples {s0},{p0} -> {s1},{p1}")
    if name == "wallraff" and op != "order" and tied:
        t.close(p1, p0, f"{name} p under {op}", atol=0.2)   # see H05 for the exact statistic on ties
        return
    t.close(s1, s0, f"{name} statistic under {op}", rtol=1e-5, atol=1e-6)
    if name == "art":
        if op in ("rotate", "turns"):
            t.true(abs(p1 - p0) <= 1.01 / 21, f"{name} p {p0} -> {p1} under {op}")
    else:
        t.close(p1, p0, f"{name} p under {op}", rtol=1e-4, atol=1e-6)


HK = st.builds(lambda p, q, m, seed, e1, e2, e3, kap, base: dict(p=p, q=q, m=m, seed=seed, e1=e1, e2=e2, e3=e3, kappa=kap, mu=base), st.integers(2, 4), st.integers(2, 4), st.integers(2, 8), SEEDS, finite(0, 1.5), finite(0, 1.5), finite(0, 1.0), log_uniform(0.3, 40), ANGLE)


def hk(c):
    r = np.random.default_rng(c["seed"])
    i, j, _ = np.meshgrid(np.arange(c["p"]), np.arange(c["q"]), np.arange(c["m"]), indexing="ij")
    i, j = i.ravel(), j.ravel()
    a = norm(c["mu"] + c["e1"] * i / c["p"] + c["e2"] * j / c["q"] + c["e3"] * ((i * j) % 2) + r.vonmises(0, c["kappa"], len(i)))
    return a, i, j


def origin_turns(g, seed):
    """Some of the observations on the origin are given as a full turn forwards or backwards (taken off without rounding)."""
    z = np.flatnonzero(g == 0); b = g.astype(float).copy()
    if z.size:
        b[z] = np.random.default_rng(seed).choice([0.0, TWO_PI, TWO_PI, -TWO_PI], z.size)
    return b


ON_ORIGIN = st.builds(lambda d, i, z: [TWO_PI * (j % d) / d for j in i] + [0.0] * z, st.sampled_from([5, 8, 12, 36]), st.lists(st.integers(0, 35), min_size=3, max_size=16), st.integers(1, 3))


@facet("H02", "origin", st.fixed_dictionaries(dict(a=ON_ORIGIN, seed=SEEDS)), quick=500, rule="at least four distinct directions")
def h02_origin(c, t):
    a = np.array(c["a"]); b = origin_turns(a, c["seed"])
    t.nontrivial(len(set(a)) > 3)
    for name, fn in ONE.items():
        if name in ("omnibus", "range"):
            continue
        s0, p0 = fn(a, c); s1, p1 = fn(b, c)
        t.close(s1, s0, f"{name} statistic with the origin given as {sorted(set(b[a == 0]))}", atol=1e-7)
        t.true(abs(p1 - p0) <= (1.01 / 31 if name in ("kuiper_sim", "watson_sim", "rao", "rayleigh_boot") else 1e-6), f"{name} p-value {p0} -> {p1} with the origin given as {sorted(set(b[a == 0]))}")


@facet("H04", "origin", st.fixed_dictionaries(dict(g=st.lists(ON_ORIGIN, min_size=2, max_size=4), seed=SEEDS, angle=st.sampled_from([0.0, 1.0, 3.0]), test=st.sampled_from(sorted(MT)))), quick=1500, shards=3, rule="at least ten observations in all")
def h04_origin(c, t):
    name = c["test"]; gs = [np.array(g) for g in c["g"]]
    if name in TWO_ONLY:
        gs = gs[:2]
    base = "rao_hom" if name == "rao_hom_polar" else name
    if not multi_ok(base, gs) or (name == "equal_kappa" and ek_key(gs)):
        raise Skip()
    t.nontrivial(sum(map(len, gs)) >= 10); t.label(name)
    hs = [origin_turns(g, c["seed"] + i) for i, g in enumerate(gs)]
    if name == "common_median":
        m = circ_median(np.hstack(gs))
        if arc(m, circ_median(np.hstack(hs))) > 1e-9 or np.any(np.abs(np.abs(signed(np.hstack(gs) - m)) - math.pi) < 1e-7) or near_ties(np.r_[np.hstack(gs), m]):
            raise Skip()
    if name == "wallraff" and any(near_ties(arc(np.hstack(gs), q)) for q in (c["angle"],)):
        raise Skip()
    s0, p0 = MT[name](gs, c); s1, p1 = MT[name](hs, c)
    t.close(s1, s0, f"{name} statistic with the origin given as a full turn", rtol=1e-6, atol=1e-7)
    t.true(abs(p1 - p0) <= (2.01 / 21 if name == "art" else 1e-6), f"{name} p-value {p0} -> {p1} with the origin given as a full turn")


@facet("H04", "two_way", st.builds(lambda h, **k: dict(h, **k), HK, rot=ROT, turns=SHIFT, pseed=SEEDS, inter=st.booleans(), refl=st.booleans()), quick=200, rule="always")
def h04_hk(c, t):
    a, i, j = hk(c); kk = float(circ_kappa(min(abs(z_of(a)), 1.0)))
    if abs(kk - 2) < 1e-6 or abs(z_of(a)) < 1e-3:
        raise Skip()
    t.nontrivial(True); t.label("large" if kk > 2 else "small")
    r = H.harrison_kanji_test(a, i, j, inter=c["inter"])
    p = perm(len(a), c["pseed"]); b = norm(-a) if c["refl"] else a
    g = H.harrison_kanji_test(add_turns(norm(b + c["rot"]), c["turns"])[p], i[p], j[p], inter=c["inter"])
    t.close(np.array(g.p_values, float), np.array(r.p_values, float), "rotation, reflection, turns, order", rtol=1e-5, atol=1e-7)
    g = H.harrison_kanji_test(a, j, i, inter=c["inter"])
    t.close(np.array(g.p_values, float)[[1, 0, 2]], np.array(r.p_values, float), "exchanging the factors", rtol=1e-5, atol=1e-7)
    g = H.harrison_kanji_test(a, np.array(["x", "b", "q", "a"])[i], (7 - j) * 3, inter=c["inter"])
    t.close(np.array(g.p_values, float), np.array(r.p_values, float), "relabelling the levels", rtol=1e-5, atol=1e-7)


# ---------------------------------------------------------------- H05
FORMS = st.sampled_from(["array", "list", "object", "grouped"])


def wrapped(c, g, form=None):
    """The sample in one of the forms the multi-sample tests accept."""
    f = form or c["form"]
    if f == "list":
        return g.tolist()
    if f in ("object", "grouped"):
        if 8 <= len(g) < 25:
            return g               # building such an object may run a bootstrap
        if f == "grouped" and c["grid"]:
            return Grouped(*np.unique(g, return_counts=True), c["grid"])
        return Circular(g, unit="radian", kwargs_median={"method": "none"})
    return g


@facet("H05", "mean_tests", st.builds(lambda m, **k: dict(m, **k), MULTI, fmod=st.booleans(), kap=st.one_of(st.none(), finite(0.5, 20)), form=FORMS), quick=900, shards=2, rule="at least six observations in all")
def h05_mean(c, t):
    gs = groups(c); n = np.array([len(g) for g in gs]); N = int(n.sum()); k = len(gs)
    if not multi_ok("ww", gs):
        raise Skip()
    t.nontrivial(N >= 6)
    zs = np.array([z_of(g) for g in gs]); Ri = n * np.abs(zs); zall = z_of(np.hstack(gs)); R = N * abs(zall)
    kap = float(circ_kappa(min(Ri.sum() / N, 1.0)))
    K = 1 + 3 / (8 * kap) if kap > 0 else 1.0
    F = K * (Ri.sum() - R) / (k - 1) / ((N - Ri.sum()) / (N - k))
    t.label(c["form"])
    g = H.watson_williams_test([wrapped(c, x) for x in gs])
    tol = 1e-10 / max(N - Ri.sum(), 1e-9) * N + 1e-9
    t.close(g.F, F, "Watson-Williams F", rtol=1e-6, atol=tol); t.close(g.pval, fdist.sf(max(F, 0), k - 1, N - k), "p", atol=1e-6 + tol)
    t.true((g.df_between, g.df_within, g.k, g.N) == (k - 1, N - k, k, N), "degrees of freedom")
    kap = float(circ_kappa(min(R / N, 1.0))) if c["kap"] is None else c["kap"]
    F = (1 + 3 / (8 * kap) if c["fmod"] else 1.0) * (Ri.sum() - R) / (k - 1) / ((N - Ri.sum()) / (N - k))
    g = H.circ_anova(gs, kappa=c["kap"], f_mod=c["fmod"])
    t.close(g.statistic, F, "ANOVA F", rtol=1e-6, atol=tol); t.close(g.pval, fdist.sf(max(F, 0), k - 1, N - k), "p", atol=1e-6 + tol)
    t.true(tuple(g.df) == (k - 1, N - k, N - 1), f"df {g.df}")
    t.close(g.SS, (Ri.sum() - R, N - Ri.sum(), N - R), "sums of squares", atol=1e-7); t.close(g.MS, (g.SS[0] / (k - 1), g.SS[1] / (N - k)), "mean squares")
    t.close(g.R, Ri, "resultants", atol=1e-8); t.close(g.R_all, R, "overall resultant", atol=1e-8)
    t.angle_close(g.mu, np.angle(zs), "group means", atol=1e-6); t.angle_close(g.mu_all, np.angle(zall), "overall mean", atol=1e-6)
    t.close((g.kappa, g.kappa_all), (kap, kap), "concentration")
    X = (1 - (np.sum(1 / n) - 1 / N) / (4 * kap)) * 2 * kap * np.sum(Ri * (1 - np.cos(np.angle(zs) - np.angle(zall))))
    g = H.circ_anova(gs, method="LRT", kappa=c["kap"])
    t.close(g.statistic, X, "likelihood-ratio statistic", rtol=1e-6, atol=1e-7); t.close(g.pval, chi2.sf(X, k - 1) if X > 0 else 1.0, "p", atol=1e-6); t.true(g.df == k - 1, "df")


def ref_u2(x, y):
    z = np.r_[x, y]; N = len(z)
    d = np.array([np.mean(x <= v) - np.mean(y <= v) for v in z])
    return len(x) * len(y) / N**2 * (np.sum(d * d) - np.sum(d) ** 2 / N)


@facet("H05", "rank_tests", st.builds(lambda m, **k: dict(m, **k), MULTI, angle=ANGLE, turns=SHIFT, form=st.sampled_from(["array", "list", "object", "grouped"]), two_angles=st.booleans()), quick=900, shards=2, rule="at least six observations in all")
def h05_rank(c, t):
    gs = groups(c); x, y = gs[0], gs[1]; N2 = len(x) + len(y)
    t.nontrivial(N2 >= 6)
    al = np.hstack(gs); tied = has_ties(al, 1e-9)
    if near_ties(al):
        raise Skip()

    def wrap(g, turn=None):
        f = c["form"]
        if turn is not None and f != "grouped":
            g = add_turns(g, turn)
        if f == "list":
            return g.tolist()
        if f in ("object", "grouped"):
            v, w = np.unique(g, return_counts=True)
            if f == "object":
                return Circular(g, unit="radian", kwargs_median={"method": "none"})
            if f == "grouped" and c["grid"]:
                return Grouped(v, w, c["grid"])
            return Circular(g, unit="radian", kwargs_median={"method": "none"})
        return g
    t.label(c["form"])
    if c["form"] in ("object", "grouped") and any(8 <= len(g) < 25 for g in gs):
        c = dict(c, form="array")   # building such objects may run a bootstrap
    X, Y = wrap(x), wrap(y)
    u = ref_u2(x, y)
    g = H.watson_u2_test([X, Y])
    t.close(g.U2, u, "two-sample U2", atol=1e-9); t.close(g.pval, min(1.0, 2 * math.exp(-19.74 * u)), "U2 p", atol=1e-9)
    ang = [c["angle"], c["angle"] + 1.0] if c["two_angles"] else c["angle"]
    aa = ang if c["two_angles"] else [ang, ang]
    d1, d2 = np.round(arc(x, aa[0]), 9), np.round(arc(y, aa[1]), 9)
    if not near_ties(np.r_[d1, d2] / 2, 1e-7):
        U = np.sum(d1[:, None] > d2[None, :]) + 0.5 * np.sum(d1[:, None] == d2[None, :]); nm = len(x) * len(y)
        U = min(U, nm - U)
        g = H.wallraff_test([X, Y], angle=ang)
        t.close(g.U, U, "Mann-Whitney U of the distances")
        z = min(0.0, U - nm / 2 + 0.5) / math.sqrt(nm * (N2 + 1) / 12)
        t.close(g.pval, 2 * gauss.cdf(z), "Wallraff p", atol=1e-9)
    g = H.angular_randomisation_test([X, Y], n_simulation=3, seed=1)
    t.close(g.statistic, math.sqrt(len(x) * len(y) / N2) * np.sum(arc(x[:, None], y[None, :])), "between-sample distance", atol=1e-7)
    if not tied:
        for sub in (gs[:2], gs):
            N = sum(map(len, sub)); rk = rankdata(np.hstack(sub)) * TWO_PI / N
            parts = np.split(rk, np.cumsum([len(s) for s in sub])[:-1])
            R2 = np.array([abs(np.sum(np.exp(1j * p))) ** 2 for p in parts]); ns = np.array([len(s) for s in sub])
            W = 2 * (N - 1) * R2[0] / np.prod(ns) if len(sub) == 2 else 2 * np.sum(R2 / ns)
            g = H.wheeler_watson_test([wrap(s, c["turns"]) for s in sub])
            t.close(g.W, W, "uniform-scores statistic", atol=1e-7); t.true(g.df == 2 * (len(sub) - 1), "df"); t.close(g.pval, chi2.sf(W, g.df), "p", atol=1e-8)


def Grouped(v, w, m=None):
    """Grouped object with its empty bins (the library asks for them)."""
    if m is None:
        return Circular(v, w=w, unit="radian")
    full = np.zeros(m, int); full[np.round(v * m / TWO_PI).astype(int) % m] = w
    return Circular(np.arange(m) * TWO_PI / m, w=full, unit="radian")


@facet("H05", "dispersion_tests", MULTI, quick=900, shards=2, rule="at least six observations in all")
def h05_disp(c, t):
    gs = groups(c); n = np.array([len(g) for g in gs]); N = int(n.sum()); k = len(gs)
    t.nontrivial(N >= 6)
    r = np.array([abs(z_of(g)) for g in gs]); R = n * r; rall = abs(z_of(np.hstack(gs)))
    if multi_ok("equal_kappa", gs) and not ek_key(gs) and min(abs(rall - 0.45), abs(rall - 0.7)) > 1e-9:
        if rall < 0.45:
            w = 4 * (n - 4) / 3; g1 = np.arcsin(np.sqrt(3 / 8) * 2 * r); reg = "small"
        elif rall <= 0.7:
            w = (n - 3) / 0.798; g1 = np.arcsinh((r - 1.089) / 0.258); reg = "moderate"
        else:
            reg = "large"; v = n - 1; d = (np.sum(1 / v) - 1 / (N - k)) / (3 * (k - 1))
            X = ((N - k) * math.log((N - R.sum()) / (N - k)) - np.sum(v * np.log((n - R) / v))) / (1 + d)
        if reg != "large":
            m = np.sum(w * g1) / np.sum(w); X = np.sum(w * (g1 - m) ** 2)
        g = H.equal_kappa_test(gs)
        t.label("kappa " + reg)
        t.true(g.regime == reg and g.df == k - 1, f"regime {g.regime} for {rall}")
        t.close(g.statistic, X, "equal-concentration statistic", rtol=1e-5, atol=1e-6); t.close(g.pval, chi2.sf(X, k - 1) if X > 0 else 1.0, "p", atol=1e-5)
        t.close(g.rho, r, "resultants"); t.close(g.rho_all, rall, "overall resultant")
        t.close(g.kappa, [float(circ_kappa(min(x, 1.0))) for x in r], "concentrations"); t.close(g.kappa_all, float(circ_kappa(rall)), "overall concentration")
    two = gs[:2]
    if multi_ok("concentration", two):
        F = ((n[0] - R[0]) / (n[0] - 1)) / ((n[1] - R[1]) / (n[1] - 1))
        g = H.concentration_test(*two)
        t.close(g.f_stat, F, "concentration ratio", rtol=1e-5); t.true((g.df1, g.df2) == (n[0] - 1, n[1] - 1), "df")
        # two-sided p-value: twice the tail beyond the ratio on its own side of 1
        p = 2 * (fdist.sf(F, n[0] - 1, n[1] - 1) if F >= 1 else fdist.cdf(F, n[0] - 1, n[1] - 1))
        t.close(g.pval, min(p, 1.0), "p", atol=1e-5)
    if multi_ok("rao_hom", gs):
        Vp, Vd = ref_rao_hom_vars(gs)
        C = np.array([np.cos(g).mean() for g in gs]); S = np.array([np.sin(g).mean() for g in gs])
        g = H.rao_homogeneity_test(gs)
        for T, V, got, p, nm in ((S / C, Vp, g.H_polar, g.pval_polar, "polar"), (C**2 + S**2, Vd, g.H_disp, g.pval_disp, "dispersion")):
            m = np.sum(T / V) / np.sum(1 / V); X = np.sum((T - m) ** 2 / V)
            sc = np.sum(T**2 / V)
            t.close(got, X, f"homogeneity {nm}", rtol=1e-5, atol=1e-6 + 1e-11 * sc)
            t.close(p, chi2.sf(X, k - 1), f"p {nm}", atol=1e-5 + 1e-11 * sc)
    if multi_ok("common_median", gs):
        m = circ_median(np.hstack(gs)); dev = [signed(g - m) for g in gs]
        if np.all(np.abs(np.abs(np.hstack(dev)) - math.pi) > 1e-8):
            lo = np.array([np.sum(d < -1e-9) for d in dev])
            g = H.common_median_test(gs)
            tab = np.c_[lo, n - lo]
            X = chi2_contingency(tab, correction=False)[0]
            t.close(g.statistic, X, "common-median statistic", rtol=1e-7, atol=1e-8); t.close(g.pval, chi2.sf(X, k - 1), "p", atol=1e-8)


@facet("H05", "two_way", st.builds(lambda h, **k: dict(h, **k), HK, inter=st.booleans(), names=st.sampled_from([None, ["sex", "dose"]])), quick=250, rule="always")
def h05_hk(c, t):
    a, i, j = hk(c); n = len(a); p, q, m = c["p"], c["q"], c["m"]
    R = abs(np.exp(1j * a).sum()); kk = float(circ_kappa(min(R / n, 1.0)))
    if abs(kk - 2) < 1e-6 or R / n < 1e-3:
        raise Skip()
    cell = np.array([[abs(np.exp(1j * a[(i == x) & (j == y)]).sum()) for y in range(q)] for x in range(p)])
    row = np.array([abs(np.exp(1j * a[i == x]).sum()) for x in range(p)]); col = np.array([abs(np.exp(1j * a[j == y]).sum()) for y in range(q)])
    sA = np.sum(row**2) / (q * m) - R**2 / n; sB = np.sum(col**2) / (p * m) - R**2 / n
    sC = np.sum(cell**2) / m; sI = sC - np.sum(row**2) / (q * m) - np.sum(col**2) / (p * m) + R**2 / n
    t.nontrivial(True)
    g = H.harrison_kanji_test(a, i, j, inter=c["inter"], fn=c["names"]); pv = np.array([np.nan if x is None else x for x in g.p_values], float)
    names = c["names"] or ["A", "B"]
    tb = g.anova_table
    t.true(list(tb.index[:2]) == names and tb.index[2] == "Interaction", f"rows {list(tb.index)}")
    if kk > 2:
        t.label("large" + ("+" if c["inter"] else "-"))
        if c["inter"]:
            dr = p * q * (m - 1); res = n - sC; beta = 1 / (1 - 1 / (5 * kk) - 1 / (10 * kk**2))
        else:
            dr = (p - 1) * (q - 1); res = n - np.sum(row**2) / (q * m) - np.sum(col**2) / (p * m) + R**2 / n; beta = 1.0
        if res < 1e-6:
            raise Skip()
        FA, FB = beta * sA / (p - 1) / (res / dr), beta * sB / (q - 1) / (res / dr)
        t.close(tb["F"].to_numpy(float)[:2], (FA, FB), "F", rtol=1e-5, atol=1e-6)
        want = [fdist.sf(max(FA, 0), p - 1, dr), fdist.sf(max(FB, 0), q - 1, dr)]
        t.close(pv[:2], want, "p", atol=1e-6)
        if c["inter"]:
            FI = sI / ((p - 1) * (q - 1)) / (res / dr)
            t.close(pv[2], fdist.sf(max(FI, 0), (p - 1) * (q - 1), dr), "interaction p", atol=1e-6)
        else:
            t.true(np.isnan(pv[2]), "no interaction requested")
        t.close(tb["SS"].to_numpy(float)[[0, 1, 3, 4]], (sA, sB, res, n - R**2 / n), "sums of squares", rtol=1e-6, atol=1e-6)
    else:
        t.label("small")
        rr = float(iv(1, kk) / iv(0, kk)); fac = 2 / (1 - rr**2)
        x = fac * np.array([sA, sB, sI]); df = np.array([2 * (p - 1), 2 * (q - 1), (p - 1) * (q - 1)])
        t.close(tb["chi2"].to_numpy(float), x, "chi2", rtol=1e-5, atol=1e-6); t.close(pv, [chi2.sf(u, d) if u > 0 else 1.0 for u, d in zip(x, df)], "p", atol=1e-5)
        t.true(list(tb["DoF"]) == df.tolist(), "df")


# ---------------------------------------------------------------- D03, tests part
@facet("D03", "tests", st.fixed_dictionaries(dict(s=spread_sample(2, 25), w=INT_W, angle=ANY_ANGLE, s2=spread_sample(2, 20), w2=INT_W, m=st.integers(3, 36))), quick=500, rule="weights not all equal")
def d03_tests(c, t):
    a, b = angles(c["s"]), angles(c["s2"]); wa, wb = weights(len(a), c["w"]).astype(int), weights(len(b), c["w2"]).astype(int)
    A, B = np.repeat(a, wa), np.repeat(b, wb)
    t.nontrivial(len(set(wa.tolist())) > 1 or len(set(wb.tolist())) > 1)
    r1, r2 = H.rayleigh_test(a, w=wa, B=20, seed=3), H.rayleigh_test(A, B=20, seed=3)
    t.close((r1.r, r1.z, r1.pval), (r2.r, r2.z, r2.pval), "Rayleigh", atol=1e-8); t.true(abs(r1.bootstrap_pval - r2.bootstrap_pval) < 1.01 / 21, "Rayleigh bootstrap")
    v1, v2 = H.V_test(c["angle"], a, w=wa), H.V_test(c["angle"], A)
    t.close((v1.V, v1.pval), (v2.V, v2.pval), "V", atol=1e-6)
    q = H.rao_spacing_test(a, w=wa, n_simulation=5, seed=2)
    t.close(q.statistic, H.rao_spacing_test(A, n_simulation=2, seed=2).statistic, "Rao spacing", atol=1e-8); t.true(q.mode == "grouped", "mode")
    try:
        want = circ_mean_ci(alpha=A)
    except ValueError:
        want = None
    if want is not None and np.all(np.isfinite(want)):
        span = np.mod(want[1] - want[0], TWO_PI); pos = np.mod(c["angle"] - want[0], TWO_PI)
        o = H.one_sample_test(c["angle"], alpha=a, w=wa)
        t.angle_close(o.ci, want, "interval", atol=1e-6)
        if min(abs(pos - span), pos, TWO_PI - pos) > 1e-6:
            t.true(bool(o.reject) == bool(H.one_sample_test(c["angle"], alpha=A).reject), "one-sample decision")
    # grouped objects
    m = c["m"]
    bins = lambda x: np.bincount(np.floor(norm(x) * m / TWO_PI).astype(int) % m, minlength=m)
    fa, fb = bins(A), bins(B); ctr = (np.arange(m) + 0.5) * TWO_PI / m
    if 8 <= len(A) < 25 or 8 <= len(B) < 25:
        return
    A, B = np.repeat(ctr, fa), np.repeat(ctr, fb)
    CA, CB = Circular(ctr, w=fa, unit="radian"), Circular(ctr, w=fb, unit="radian")
    t.label("objects")
    for name in ("ww", "u2", "wheeler", "wallraff", "art"):
        if name == "ww" and not multi_ok("ww", [A, B]) or name == "wallraff" and near_ties(np.r_[arc(A, c["angle"]), arc(B, c["angle"])] / 2):
            continue
        s1, p1 = MT[name]([CA, CB], c); s2, p2 = MT[name]([A, B], c)
        t.close(s1, s2, f"{name}: grouped object vs repeated angles", rtol=1e-5, atol=1e-6)
        if name != "art":
            t.close(p1, p2, f"{name}: grouped object vs repeated angles, p", atol=1e-5)


# ---------------------------------------------------------------- H06
def mc_close(t, what, p, n1, p_ref, n2):
    """Two Monte-Carlo p-values of the same null agree within 6 standard errors."""
    q = min(max((p + p_ref) / 2, 1.0 / n1), 1 - 1.0 / n1)
    se = math.sqrt(q * (1 - q) * (1 / n1 + 1 / n2))
    t.true(abs(p - p_ref) <= 6 * se + 6.0 / n1 + 6.0 / n2, f"{what}: p={p} ({n1} resamples), independent simulation {p_ref} ({n2})")


def counts(t, what, p, n):
    k = p * (n + 1)
    t.true(abs(k - round(k)) < 1e-6 and 1 <= round(k) <= n + 1, f"{what}: p={p} is not a count out of {n + 1} that includes the observation")


@facet("H06", "uniformity_simulation", st.fixed_dictionaries(dict(s=st.one_of(continuous_sample(2, 40, st.one_of(finite(0, 1), finite(0, 4))), CONT(2, 20)), seed=SEEDS, nsim=st.sampled_from([2, 19, 199, 400, 999]))), quick=160, shards=4, rule="simulated p-value strictly between 0.005 and 0.995 for some test")
def h06_unif(c, t):
    a = angles(c["s"]); n = len(a); B = c["nsim"]
    r = np.random.default_rng([c["seed"], 77]); M = 1500
    U = r.uniform(0, TWO_PI, (M, n))
    for what, fn, ref in (("rayleigh", lambda: H.rayleigh_test(a, B=B, seed=c["seed"]), lambda x: len(x) * abs(z_of(x)) ** 2),
                          ("kuiper", lambda: H.kuiper_test(a, n_simulation=B, seed=c["seed"]), ref_kuiper),
                          ("watson", lambda: H.watson_test(a, n_simulation=B, seed=c["seed"]), ref_watson),
                          ("rao", lambda: H.rao_spacing_test(a, n_simulation=B, seed=c["seed"]), ref_rao)):
        g = fn()
        p = g.bootstrap_pval if what == "rayleigh" else g.pval
        counts(t, what, p, B)
        obs = ref(a); null = np.array([ref(u) for u in U])
        # values equal to the observed one by construction do not occur; allow rounding
        lo, hi = np.mean(null >= obs + 1e-9), np.mean(null >= obs - 1e-9)
        t.nontrivial(0.005 < lo < 0.995 and B > 100)
        mc_close(t, what, p, B, min(max(p, lo), hi), M)


@facet("H06", "long_simulation", st.fixed_dictionaries(dict(n=st.integers(2, 30), q=finite(0.05, 0.95), k=finite(0, 2.5), mu=ANGLE, seed=SEEDS, test=st.sampled_from(["kuiper", "watson", "rao", "rayleigh"]))), quick=120, shards=4, thorough=4000, rule="simulated p-value strictly between 0.02 and 0.98")
def h06_long(c, t):
    """Long simulations: p-values resolved to a few hundredths against an independent, vectorised null sample."""
    n, B, M = c["n"], 8000, 40000
    r = np.random.default_rng([c["seed"], 78])
    a = np.mod(r.vonmises(c["mu"], c["k"], n) if c["k"] > 0.5 else r.uniform(0, TWO_PI, n), TWO_PI)
    def null_of(X):
        u = np.sort(X, axis=1) / TWO_PI; i = np.arange(1, n + 1)
        if c["test"] == "kuiper":
            return (i / n - u).max(1) + (u - (i - 1) / n).max(1)
        if c["test"] == "watson":
            return ((u - (2 * i - 1) / (2 * n)) ** 2).sum(1) - n * (u.mean(1) - 0.5) ** 2
        if c["test"] == "rao":
            return np.abs(np.diff(np.c_[u, u[:, :1] + 1], axis=1) - 1 / n).sum(1)
        return np.abs(np.exp(1j * X).sum(1))
    obs = float(null_of(a[None])[0]); null = np.concatenate([null_of(r.uniform(0, TWO_PI, (M // 4, n))) for _ in range(4)])
    g = {"kuiper": lambda: H.kuiper_test(a, n_simulation=B, seed=c["seed"]).pval, "watson": lambda: H.watson_test(a, n_simulation=B, seed=c["seed"]).pval,
         "rao": lambda: H.rao_spacing_test(a, n_simulation=B, seed=c["seed"]).pval, "rayleigh": lambda: H.rayleigh_test(a, B=B, seed=c["seed"]).bootstrap_pval}[c["test"]]()
    t.label(c["test"])
    lo, hi = float(np.mean(null >= obs + 1e-9)), float(np.mean(null >= obs - 1e-9))
    t.nontrivial(0.02 < lo < 0.98)
    counts(t, c["test"], g, B)
    mc_close(t, c["test"], g, B, min(max(g, lo), hi), M)


@facet("H06", "grouped_spacing", st.fixed_dictionaries(dict(m=st.integers(3, 40), w=INT_W, o=ANGLE, seed=SEEDS, kappa=st.sampled_from([10.0, 100.0, 1000.0]))), quick=60, shards=2, rule="simulated p-value strictly between 0.005 and 0.995")
def h06_grouped(c, t):
    m = c["m"]; a = norm(c["o"] + TWO_PI * np.arange(m) / m); w = weights(m, c["w"]).astype(int); n = int(w.sum()); B = 300
    g = H.rao_spacing_test(a, w=w, kappa=c["kappa"], n_simulation=B, seed=c["seed"])
    counts(t, "grouped rao", g.pval, B)
    r = np.random.default_rng([c["seed"], 5]); M = 600
    X = r.integers(0, m, (M, n)) * TWO_PI / m + r.vonmises(0, c["kappa"], (M, n))
    null = np.array([ref_rao(x) for x in X]); obs = ref_rao(np.repeat(a, w))
    lo, hi = np.mean(null >= obs + 1e-9), np.mean(null >= obs - 1e-9)
    t.nontrivial(0.005 < lo < 0.995)
    mc_close(t, "grouped rao", g.pval, B, min(max(g.pval, lo), hi), M)


@facet("H06", "permutation", st.fixed_dictionaries(dict(n1=st.integers(1, 5), n2=st.integers(1, 5), mu=ANGLE, d=finite(0, 3), k=log_uniform(0.3, 10), seed=SEEDS, nsim=st.sampled_from([1, 49, 400]), grid=st.sampled_from([0, 0, 12]))), quick=160, shards=4, rule="exact permutation p-value below 0.9")
def h06_perm(c, t):
    r = np.random.default_rng(c["seed"])
    x, y = gen.vm_draw(r, c["mu"], c["k"], c["n1"]), gen.vm_draw(r, c["mu"] + c["d"], c["k"], c["n2"])
    if c["grid"]:
        x, y = [norm(np.round(v * c["grid"] / TWO_PI) * TWO_PI / c["grid"]) for v in (x, y)]
    z = np.r_[x, y]; N = len(z); Dm = arc(z[:, None], z[None, :])
    stats = []
    for s in itertools.combinations(range(N), len(x)):
        o = [i for i in range(N) if i not in s]
        stats.append(Dm[np.ix_(s, o)].sum())
    stats = np.array(stats); obs = Dm[:len(x), len(x):].sum()
    pe = float(np.mean(stats >= obs - 1e-9))
    B = c["nsim"]
    g = H.angular_randomisation_test([x, y], n_simulation=B, seed=c["seed"])
    counts(t, "randomisation", g.pval, B); t.true(g.n_simulation == B, "resample count")
    t.nontrivial(pe < 0.9)
    k = round(g.pval * (B + 1)) - 1
    lo, hi = binom.cdf(k, B, pe), binom.sf(k - 1, B, pe)
    t.true(min(lo, hi) > 1e-9, f"randomisation p={g.pval} from {B} resamples, exact permutation p={pe}")


@facet("H06", "null_calibration", st.fixed_dictionaries(dict(seed=SEEDS, n=st.integers(3, 20), test=st.sampled_from(["kuiper", "watson", "rao", "rayleigh", "art", "art_same"]))), quick=40, shards=4, rule="always")
def h06_cal(c, t):
    r = np.random.default_rng(c["seed"]); B = 39; T = 120; n = c["n"]
    ps = []
    t.nontrivial(True); t.label(c["test"])
    for i in range(T):
        a = r.uniform(0, TWO_PI, n); sd = int(r.integers(2**31))
        if c["test"] == "kuiper":
            p = H.kuiper_test(a, n_simulation=B, seed=sd).pval
        elif c["test"] == "watson":
            p = H.watson_test(a, n_simulation=B, seed=sd).pval
        elif c["test"] == "rao":
            p = H.rao_spacing_test(a, n_simulation=B, seed=sd).pval
        elif c["test"] == "rayleigh":
            p = H.rayleigh_test(a, B=B, seed=sd).bootstrap_pval
        elif c["test"] == "art":
            p = H.angular_randomisation_test([a, r.uniform(0, TWO_PI, n)], n_simulation=B, seed=sd).pval
        else:
            b = gen.vm_draw(r, 1.0, 2.0, n)
            p = H.angular_randomisation_test([b, b.copy()], n_simulation=B, seed=sd).pval
            t.true(p > 0.3, f"identical samples called different: p={p}")
        ps.append(p)
    if c["test"] == "art_same":
        return
    for q in (0.1, 0.5, 0.9):
        k = int(np.sum(np.array(ps) <= q + 1e-9))
        if c["test"] == "art":
            t.true(binom.sf(k - 1, T, q) > 1e-9, f"{k} of {T} p-values at most {q} under the null")
        else:
            t.true(min(binom.sf(k - 1, T, q), binom.cdf(k, T, q)) > 1e-9, f"{k} of {T} p-values at most {q} under the null")


# ---------------------------------------------------------------- how the observations are handed over
def handed(a, how):
    a = np.asarray(a)
    if how == "list":
        return a.tolist()
    if how == "tuple":
        return tuple(a.tolist())
    if how == "int":
        return a.astype(int)
    if how == "reversed view":
        return a[::-1].astype(float)[::-1]
    if how == "strided":
        b = np.full(2 * len(a) + 1, 77.0); b[1::2] = a
        return b[1::2]
    if how == "series":
        return pd.Series(a.astype(float), index=np.arange(len(a))[::-1] + 3)
    b = a.astype(float).copy(); b.flags.writeable = False
    return b


HOW = ["list", "tuple", "int", "reversed view", "strided", "series", "read-only"]
ONEF = {
    "rayleigh": lambda a, m: H.rayleigh_test(a), "rayleigh_boot": lambda a, m: H.rayleigh_test(a, B=20, seed=3), "V": lambda a, m: H.V_test(m, a), "omnibus": lambda a, m: H.omnibus_test(a), "batschelet": lambda a, m: H.batschelet_test(m, a),
    "binomial": lambda a, m: H.binomial_test(a, m), "symmetry": lambda a, m: H.symmetry_test(a, median=m), "symmetry_median": lambda a, m: H.symmetry_test(a), "kuiper": lambda a, m: H.kuiper_test(a, n_simulation=1), "watson": lambda a, m: H.watson_test(a, n_simulation=1),
    "kuiper_sim": lambda a, m: H.kuiper_test(a, n_simulation=20, seed=3), "watson_sim": lambda a, m: H.watson_test(a, n_simulation=20, seed=3), "rao": lambda a, m: H.rao_spacing_test(a, n_simulation=20, seed=3), "range": lambda a, m: H.circ_range_test(a),
    "change_point": lambda a, m: H.change_point_test(a), "one_sample": lambda a, m: H.one_sample_test(m, lb=m - 0.5, ub=m + 0.7, alpha=a), "chisquare": lambda a, m: H.chisquare_test(np.bincount(np.asarray(a).astype(int), minlength=7)),
}
MULTIF = {
    "ww": (H.watson_williams_test, 9), "u2": (H.watson_u2_test, 2), "wwm": (H.wheeler_watson_test, 9), "wallraff": (H.wallraff_test, 2), "common_median": (H.common_median_test, 9), "anova": (H.circ_anova, 9), "anova_lrt": (lambda g: H.circ_anova(g, method="LRT"), 9),
    "equal_kappa": (H.equal_kappa_test, 9), "rao_hom": (H.rao_homogeneity_test, 9), "art": (lambda g: H.angular_randomisation_test(g, n_simulation=20, seed=3), 2), "concentration": (lambda g: H.concentration_test(*g), 2),
}
ARRAYS_ONLY = {"change_point", "anova", "anova_lrt", "rao_hom"}   # written for arrays alone


def same_result(t, got, want, msg):
    for f in (want._fields if hasattr(want, "_fields") else sorted(vars(want))):
        x, y = getattr(got, f), getattr(want, f)
        if isinstance(y, (str, bool, type(None), tuple, list)) or isinstance(y, np.bool_):
            t.true(str(x) == str(y) or np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-12, equal_nan=True), f"{msg}: {f} {x} instead of {y}")
        else:
            t.close(x, y, f"{msg}: {f}", rtol=1e-9, atol=1e-12)


WHOLE = st.lists(st.integers(0, 6), min_size=4, max_size=30)


@facet("H03", "forms", st.fixed_dictionaries(dict(a=WHOLE, m=st.sampled_from([0.0, 1.0, 2.5, 3.0, 6.0]), test=st.sampled_from(sorted(ONEF)), how=st.sampled_from(HOW))), quick=500, rule="at least three distinct directions")
def h03_forms(c, t):
    a = np.array(c["a"]); name = c["test"]
    if len(set(c["a"])) < 2 or (c["how"] in ("list", "tuple") and name in ARRAYS_ONLY):
        raise Skip()
    t.nontrivial(len(set(c["a"])) >= 3); t.label(name); t.label(c["how"])
    try:
        want = ONEF[name](a.astype(float), c["m"])
    except ValueError:
        raise Skip()
    x = handed(a, c["how"]); same_result(t, ONEF[name](x, c["m"]), want, f"{name} given as {c['how']}")
    t.true(np.array_equal(np.asarray(x), a), "the observations are left as they were")


@facet("H05", "forms", st.fixed_dictionaries(dict(g=st.lists(WHOLE, min_size=2, max_size=4), outer=st.sampled_from(["list", "list", "tuple"]), test=st.sampled_from(sorted(MULTIF)), how=st.lists(st.sampled_from(HOW), min_size=4, max_size=4))), quick=500, rule="every sample has at least three distinct directions")
def h05_forms(c, t):
    name = c["test"]; fn, most = MULTIF[name]; gs = [np.array(g) for g in c["g"][:most]]
    if any(len(set(g.tolist())) < 2 for g in gs):
        raise Skip()
    how = [("read-only" if h in ("list", "tuple", "series") and name in ARRAYS_ONLY else h) for h in c["how"]]
    t.nontrivial(all(len(set(g.tolist())) >= 3 for g in gs)); t.label(name)
    try:
        want = fn([g.astype(float) for g in gs])
    except ValueError:
        raise Skip()
    xs = [handed(g, h) for g, h in zip(gs, how)]
    same_result(t, fn(tuple(xs) if c["outer"] == "tuple" and name != "rao_hom" else xs), want, f"{name} given as {how[:len(gs)]}")
    t.true(all(np.array_equal(np.asarray(x), g) for x, g in zip(xs, gs)), "the observations are left as they were")
