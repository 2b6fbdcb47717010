import math, io, contextlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import i0e, i1e, ive
from scipy.stats import chi2, norm as gauss
from pycircstat2.regression import CLRegression, CCRegression
from core import facet, Skip
from gen import *

MT = st.sampled_from(["mean", "kappa", "mixed"])
CL = st.fixed_dictionaries(dict(mt=MT, n=st.integers(12, 150), p=st.integers(1, 3), seed=SEEDS, sx=log_uniform(0.15, 3.0), ox=st.sampled_from([0.0, 0.0, 0.5, -2.0]),
                                slope=finite(0.0, 0.6), gam=finite(0.0, 0.5), k=log_uniform(0.5, 60.0), mu=ANY_ANGLE))


def cl_data(c):
    r = np.random.default_rng(c["seed"])
    X = r.normal(size=(c["n"], c["p"])) * c["sx"] + c["ox"]
    b = r.normal(size=c["p"]); b *= c["slope"] / np.linalg.norm(b)
    g = r.normal(size=c["p"]); g *= c["gam"] / np.linalg.norm(g)
    kap = c["k"] * np.exp(((X - X.mean(0)) / max(c["sx"], 1.0)) @ g) if c["mt"] != "mean" else np.full(c["n"], c["k"])
    th = c["mu"] + (2 * np.arctan(X @ b) if c["mt"] != "kappa" else 0.0) + r.vonmises(0.0, np.minimum(kap, 2000.0))
    return th, X


def cl_fit(c, th, X, **kw):
    try:
        m = CLRegression(theta=th, X=X, model_type=c["mt"], **kw)
    except ValueError as e:
        if "zero derivative" in str(e):
            raise Skip()
        raise
    if not np.isfinite(m.result["log_likelihood"]):
        raise Skip()            # the iteration diverged: nothing was fitted
    return m


def kappas(mt, res, X):
    return np.full(len(X), float(res["kappa"])) if mt == "mean" else np.exp(res["alpha"] + X @ res["gamma"])


def loglik(mt, th, X, mu, beta, kap):
    d = th - mu - (2 * np.arctan(X @ beta) if mt != "kappa" else 0.0)
    return float(np.sum(kap * (np.cos(d) - 1.0) - np.log(i0e(kap))))


def a1(k):
    return i1e(k) / i0e(k)


def a1p(k):
    return 0.5 * (1.0 + ive(2, k) / ive(0, k)) - a1(k) ** 2


def converged(c, th, X, m):
    """More iterations change nothing, i.e. the fit is the fixed point of the scheme and not a stop on the way."""
    ms = [cl_fit(c, th, X, max_iter=it, tol=1e-11) for it in (300, 299, 297)]
    lls = [q.result["log_likelihood"] for q in ms] + [m.result["log_likelihood"]]
    return max(lls) - min(lls) < 1e-5, ms[0]        # neither on the way nor in a cycle


@facet("R01", "reported", st.fixed_dictionaries(dict(d=CL, it=st.sampled_from([None, None, None, 1, 2, 3, 5]))), quick=900, shards=2, rule="slopes not all zero")
def r01_reported(c, t):
    """Whatever the iteration reached, likelihood, criteria, concentration and predictions are those of the reported coefficients."""
    d = c["d"]
    th, X = cl_data(d)
    m = cl_fit(d, th, X, **({} if c["it"] is None else dict(max_iter=c["it"])))
    R = m.result
    p, n, mt = d["p"], d["n"], d["mt"]
    if max(np.max(np.abs(R["beta"])), np.max(np.abs(R["gamma"]))) > 50:
        raise Skip()            # diverged
    kap = kappas(mt, R, X)
    ll = loglik(mt, th, X, R["mu"], R["beta"], kap)
    t.close(R["log_likelihood"], ll, "reported log-likelihood is that of the reported parameters", rtol=1e-7, atol=1e-6)
    t.close(np.asarray(R["kappa"]), float(R["kappa"]) if mt == "mean" else kap, "reported concentrations", rtol=1e-7)
    k = {"mean": p + 2, "kappa": p + 2, "mixed": 2 * p + 2}[mt]
    t.close(m.AIC(), 2 * k - 2 * ll, "AIC counts every fitted parameter", rtol=1e-7, atol=1e-5)
    t.close(m.BIC(), k * math.log(n) - 2 * ll, "BIC counts every fitted parameter", rtol=1e-7, atol=1e-5)
    new = np.random.default_rng(d["seed"] + 1).normal(size=(7, p)) * d["sx"]
    want = R["mu"] + (2 * np.arctan(new @ R["beta"]) if mt != "kappa" else np.zeros(7))
    t.angle_close(m.predict(new), want, "prediction is the link at the coefficients")
    t.angle_close(m.predict(X[:3]), m.predict(X)[:3], "prediction is row-wise")
    for name in ("beta", "gamma"):
        if not (mt == "mixed" or (mt == "mean") == (name == "beta")):
            t.true(np.all(R[name] == 0), f"{name} of a {mt} model stays zero")
    # direction given everything else is the exact maximiser
    w = kap * np.exp(1j * (th - (2 * np.arctan(X @ R["beta"]) if mt != "kappa" else 0.0)))
    if abs(w.sum()) > 1e-6 * np.sum(kap):
        t.angle_close(R["mu"], np.angle(w.sum()), "mean direction is the likelihood direction of the deviations", atol=1e-6)
    if mt == "mean":
        rbar = abs(np.mean(np.exp(1j * (th - 2 * np.arctan(X @ R["beta"])))))
        t.close(a1(float(R["kappa"])), rbar, "concentration matches the resultant of the deviations", atol=8e-3, rtol=0)
    t.nontrivial(np.any(R["beta"] != 0) or np.any(R["gamma"] != 0))
    t.label(mt)


@facet("R01", "maximum", st.fixed_dictionaries(dict(d=CL, dirseed=SEEDS)), quick=700, shards=2, rule="the iteration converged to finite coefficients")
def r01_maximum(c, t):
    d = c["d"]
    th, X = cl_data(d)
    m = cl_fit(d, th, X)
    R, mt, p, n = m.result, d["mt"], d["p"], d["n"]
    ok, m2 = converged(d, th, X, m)
    if not ok:
        t.label("not converged")
        return
    R = m2.result
    if max(np.max(np.abs(R["beta"])), np.max(np.abs(R["gamma"]))) > 10:
        t.label("diverged")
        return
    kap = kappas(mt, R, X)
    if np.max(kap) > 3000 or np.min(kap) < 1e-3:
        return
    dev = th - R["mu"] - (2 * np.arctan(X @ R["beta"]) if mt != "kappa" else 0.0)
    ll0 = loglik(mt, th, X, R["mu"], R["beta"], kap)
    # score
    G = 2 * X / (1 + (X @ R["beta"]) ** 2)[:, None]
    X1 = np.column_stack([np.ones(n), X])
    if mt != "kappa":
        score, info = G.T @ (kap * np.sin(dev)), G.T @ ((kap * a1(kap))[:, None] * G) + 1e-8 * np.eye(p)
        z = score @ np.linalg.solve(info, score)
        t.true(z < 2e-3, f"score of the slopes vanishes (statistic {z:.3g})")
    if mt != "mean":
        score, info = X1.T @ (kap * (np.cos(dev) - a1(kap))), X1.T @ ((kap**2 * a1p(kap))[:, None] * X1) + 1e-8 * np.eye(p + 1)
        z = score @ np.linalg.solve(info, score)
        t.true(z < 2e-3, f"score of the concentration model vanishes (statistic {z:.3g})")
    # no small move improves
    r = np.random.default_rng(c["dirseed"])
    for eps in (1e-3, 1e-2):
        for _ in range(4):
            mu = R["mu"] + eps * r.normal() * 0.3
            b = R["beta"] + (eps * r.normal(size=p) / max(d["sx"], abs(d["ox"]), 0.3) if mt != "kappa" else 0.0)
            kk = kap if mt == "mean" else kap * np.exp(eps * (X1 @ r.normal(size=p + 1)) / max(d["sx"], abs(d["ox"]), 1.0))
            ll = loglik(mt, th, X, mu, b, kk)
            t.true(ll <= ll0 + 2e-3 + 1e-6 * n, f"a move of size {eps} improves the likelihood from {ll0!r} to {ll!r}")
    t.nontrivial()
    t.label(mt)


@facet("R01", "recovery", st.fixed_dictionaries(dict(mt=MT, seed=SEEDS, k=log_uniform(3.0, 40.0), mu=ANGLE, p=st.integers(1, 2), slope=finite(0.1, 0.5), gam=finite(0.1, 0.4))),
       quick=150, shards=2, rule="always")
def r01_recovery(c, t):
    """n=600 well-identified data: every coefficient within 6 of its own standard errors of the truth; standard errors are those of the expected information."""
    n, p = 600, c["p"]
    r = np.random.default_rng(c["seed"])
    X = r.normal(size=(n, p))
    b = r.normal(size=p); b *= c["slope"] / np.linalg.norm(b)
    g = r.normal(size=p); g *= c["gam"] / np.linalg.norm(g)
    mt = c["mt"]
    kap = np.full(n, c["k"]) if mt == "mean" else c["k"] * np.exp(X @ g)
    th = c["mu"] + r.vonmises(0.0, kap) + (0.0 if mt == "kappa" else 2 * np.arctan(X @ b))
    m = CLRegression(theta=th, X=X, model_type=mt)
    R = m.result
    kh = kappas(mt, R, X)
    G = 2 * X / (1 + (X @ R["beta"]) ** 2)[:, None]
    X1 = np.column_stack([np.ones(n), X])
    if mt != "kappa":
        t.close(R["se_beta"], np.sqrt(np.diag(np.linalg.inv(G.T @ ((kh * a1(kh))[:, None] * G)))), "standard errors of the slopes", rtol=1e-4)
        t.true(np.all(np.abs(R["beta"] - b) < 6 * R["se_beta"] + 0.02), f"slopes {R['beta']} within six standard errors of {b}")
    if mt != "mean":
        cov = np.linalg.inv(X1.T @ ((kh**2 * a1p(kh))[:, None] * X1))
        t.close(np.r_[R["se_alpha"], R["se_gamma"]], np.sqrt(np.diag(cov)), "standard errors of the concentration coefficients", rtol=1e-3)
        t.true(np.all(np.abs(np.r_[R["alpha"] - math.log(c["k"]), R["gamma"] - g]) < 6 * np.r_[R["se_alpha"], R["se_gamma"]] + 0.02), "concentration coefficients near the truth")
    se_mu = math.sqrt(1 / ((n - p) * R["kappa"] * a1(R["kappa"]))) if mt == "mean" else math.sqrt(1 / (np.sum(kh * a1(kh)) - 0.5))
    t.close(R["se_mu"], se_mu, "standard error of the mean direction", rtol=1e-4)
    t.close(R["se_kappa"], np.sqrt(1 / (n * a1p(kh if mt != "mean" else R["kappa"]))), "standard error of the concentration", rtol=1e-3)
    if mt == "mean":
        t.true(abs(R["kappa"] - c["k"]) < 6 * R["se_kappa"] + 0.02 * c["k"], "concentration near the truth")
    t.true(float(arc(R["mu"], c["mu"])) < 8 * R["se_mu"] + 0.02, "mean direction near the truth")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.summary()
    s = out.getvalue()
    for v in ([f"{x:.5f}" for x in R["beta"]] if mt != "kappa" else []) + ([f"{x:.5f}" for x in R["gamma"]] + [f"{R['alpha']:.5f}"] if mt != "mean" else []) + [f"{R['mu']:.5f}", f"{m.AIC():.5f}", f"{m.BIC():.5f}", f"{-R['log_likelihood']:.5f}"]:
        t.true(v in s, f"the summary shows {v}")
    if mt != "kappa":
        for coef, se in zip(R["beta"], R["se_beta"]):
            t.true(f"{2 * gauss.sf(abs(coef / se)):.5f}" in s or f"{2 * (1 - gauss.cdf(abs(coef / se))):.5f}" in s, "the summary shows the normal p-value of each slope")
    t.nontrivial()
    t.label(mt)


# ---- circular-circular -------------------------------------------------------
CC = st.fixed_dictionaries(dict(n=st.integers(8, 90), p=st.sampled_from([1, 1, 1, 2]), order=st.integers(1, 4), seed=SEEDS, noise=log_uniform(0.2, 60.0), k=log_uniform(0.05, 2.0),
                                slope=st.sampled_from([-1, 0, 1, 2]), level=st.sampled_from([0.01, 0.05, 0.2])))


def cc_data(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    x = r.vonmises(0.5, c["k"], size=(n, c["p"]))
    th = c["slope"] * x[:, 0] + 0.5 * np.sin(x[:, -1]) + 2.0 + r.vonmises(0, c["noise"], n)
    return th, x


def design(x, order):
    x = np.asarray(x)
    ks = [(j, k) for j in range(x.shape[1]) for k in range(1, order + 1)]
    return np.column_stack([np.ones(len(x))] + [np.cos(k * x[:, j]) for j, k in ks] + [np.sin(k * x[:, j]) for j, k in ks]), ks


def well_posed(th, x, order):
    D, ks = design(x, order)
    if len(th) < D.shape[1] + 2:
        raise Skip()
    W = np.column_stack([np.cos((order + 1) * x), np.sin((order + 1) * x)])
    full = np.column_stack([D, W])
    if np.linalg.cond(D) > 200 or (len(th) > full.shape[1] and np.linalg.cond(full) > 2000):
        raise Skip()
    return D, ks, W, full


@facet("R02", "definition", CC, quick=1500, shards=2, rule="more than one harmonic or more than one predictor")
def r02_definition(c, t):
    th, x = cc_data(c)
    order = c["order"]
    D, ks, W, full = well_posed(th, x, order)
    n = len(th)
    m = CCRegression(theta=th, x=x if c["p"] > 1 else x[:, 0], order=order, level=c["level"])
    R = m.result
    Y = np.column_stack([np.cos(th), np.sin(th)])
    Q, Rr = np.linalg.qr(D)
    B = np.linalg.solve(Rr, Q.T @ Y)
    t.close(np.column_stack([R["coefficients"]["cos"], R["coefficients"]["sin"]]), B, "coefficients are the least-squares trigonometric polynomial", rtol=1e-7, atol=1e-8)
    F = D @ B
    size = np.hypot(F[:, 0], F[:, 1])
    sel = size > 1e-6
    t.angle_close(np.where(sel, R["fitted"], 0), np.where(sel, np.arctan2(F[:, 1], F[:, 0]), 0), "fitted values are the directions of the fitted vectors", atol=1e-6)
    t.true(np.all((np.asarray(R["fitted"]) >= 0) & (np.asarray(R["fitted"]) <= TWO_PI)), "fitted values lie on one turn")
    t.angle_close(R["fitted"] + R["residuals"], th, "residual plus fitted value is the response", atol=1e-8)
    t.true(np.all(np.abs(R["residuals"]) <= math.pi + 1e-9), "residuals are signed angles of at most half a turn")
    t.close(R["rho"], math.sqrt(min(1.0, np.mean(np.sum(F**2, axis=1)))), "rho is the root mean squared fitted length", rtol=1e-7, atol=1e-8)
    t.true(0 <= R["rho"] <= 1, "rho is within [0, 1]")
    t.true(list(R["cos_labels"]) == ks and list(R["sin_labels"]) == ks, "labels name predictor and harmonic in design order")
    # the test of the next harmonic: residual sum of squares explained by it
    if n > full.shape[1] + 1:
        Q2, _ = np.linalg.qr(full)
        E = Y - F
        E2 = Y - Q2 @ (Q2.T @ Y)
        rss, rss2 = np.sum(E**2, axis=0), np.sum(E2**2, axis=0)
        if np.min(rss) > 1e-6:
            T = (n - D.shape[1]) * (rss - rss2) / rss
            p = chi2.sf(T, W.shape[1])
            t.close(R["p_values"], p, "higher-order tests compare residual sums of squares", rtol=1e-5, atol=1e-7)
            pv = np.asarray(R["p_values"])
            if np.min(np.abs(pv - c["level"])) > 1e-9:
                t.true(("not significant" in R["message"]) == bool(np.all(pv > c["level"])), f"message {R['message']!r} follows from the p-values {pv} at level {c['level']}")
    if c["p"] == 1 or order == 1:
        t.label(f"order{order}")
    t.nontrivial(order > 1 or c["p"] > 1)


@facet("R02", "exact", st.fixed_dictionaries(dict(n=st.integers(14, 60), p=st.sampled_from([1, 2]), order=st.integers(1, 3), seed=SEEDS, rot=ANGLE, sign=st.sampled_from([-1, 1]))),
       quick=500, rule="always")
def r02_exact(c, t):
    """A response that is a rotation or reflection of a predictor is reproduced exactly, at every order."""
    r = np.random.default_rng(c["seed"])
    x = r.uniform(0, TWO_PI, size=(c["n"], c["p"]))
    th = c["rot"] + c["sign"] * x[:, 0]
    well_posed(th, x, c["order"])
    m = CCRegression(theta=th, x=x, order=c["order"])
    t.angle_close(m.result["fitted"], th, "an exact relation is fitted exactly", atol=1e-6)
    t.close(m.result["residuals"], np.zeros(c["n"]), "no residuals", atol=1e-6)
    t.close(m.result["rho"], 1.0, "association is one", atol=1e-7)
    cs = np.zeros((1 + 2 * c["p"] * c["order"], 2))
    jc, js = 1, 1 + c["p"] * c["order"]
    cs[jc] = [math.cos(c["rot"]), math.sin(c["rot"])]
    cs[js] = [-c["sign"] * math.sin(c["rot"]), c["sign"] * math.cos(c["rot"])]
    t.close(np.column_stack([m.result["coefficients"]["cos"], m.result["coefficients"]["sin"]]), cs, "coefficients of an exact rotation", atol=1e-7)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.summary()
    t.true(f"{m.result['rho']:.5f}" in out.getvalue(), "summary shows rho")
    for j in range(c["p"]):
        for k in range(1, c["order"] + 1):
            t.true(f"cos(x{j + 1},k={k})" in out.getvalue() and f"sin(x{j + 1},k={k})" in out.getvalue(), "summary lists every harmonic")
    t.nontrivial()


# ---- call style, row order, turns, origin --------------------------------------
def same_cl(t, a, b, what, mt, rot=0.0, tol=1e-6):
    t.close(b["log_likelihood"], a["log_likelihood"], f"{what}: likelihood", rtol=tol, atol=tol)
    t.close(b["beta"], a["beta"], f"{what}: slopes", rtol=tol, atol=tol)
    t.close(b["gamma"], a["gamma"], f"{what}: concentration slopes", rtol=tol, atol=tol)
    t.close(b["alpha"], a["alpha"], f"{what}: concentration intercept", rtol=tol, atol=tol)
    t.angle_close(b["mu"], a["mu"] + rot, f"{what}: mean direction", atol=max(tol, 1e-6))


@facet("R03", "circular_linear", st.fixed_dictionaries(dict(d=CL, pseed=SEEDS, turns=SHIFT, rot=ROT)), quick=600, shards=2, rule="the iteration converged to finite coefficients")
def r03_cl(c, t):
    d = c["d"]
    th, X = cl_data(d)
    m = cl_fit(d, th, X)
    mt, n, p = d["mt"], d["n"], d["p"]
    a = m.result
    if max(np.max(np.abs(a["beta"])), np.max(np.abs(a["gamma"]))) > 10 or np.max(a["kappa"]) > 3000 or not converged(d, th, X, m)[0]:
        return
    for eps in (1e-9, -1e-9):        # the undamped iteration can wander chaotically before settling: then rounding decides where
        z = cl_fit(d, th + eps, X * (1 + eps)).result
        if abs(z["log_likelihood"] - a["log_likelihood"]) > 1e-4 or np.max(np.abs(np.r_[z["beta"] - a["beta"], z["gamma"] - a["gamma"]])) > 1e-5:
            t.label("chaotic")
            return
    # call style: same numbers in, same numbers out
    names = [["speed"], ["x1", "wind"], ["a", "b b", "c"]][p - 1]
    df = pd.DataFrame({"θ": th, **{nm: X[:, j] for j, nm in enumerate(names)}, "unused": 1.0})[["unused"] + names[::-1] + ["θ"]]
    df.index = np.arange(n)[::-1] + 5
    f = CLRegression(formula="θ ~ " + " + ".join(names), data=df, model_type=mt)
    same_cl(t, a, f.result, "formula", mt, tol=1e-9)
    t.true(list(f.feature_names) == names, f"feature names {f.feature_names}")
    lst = CLRegression(theta=list(th), X=X.tolist() if p > 1 else list(X[:, 0]), model_type=mt)
    same_cl(t, a, lst.result, "lists", mt, tol=1e-9)
    # rows, turns, origin
    o = perm(n, c["pseed"])
    q = CLRegression(theta=th[o], X=X[o], model_type=mt)
    same_cl(t, a, q.result, "row order", mt, tol=1e-4)
    if mt != "mean":
        t.close(np.asarray(q.result["kappa"]), np.asarray(a["kappa"])[o], "row order: concentrations follow their rows", rtol=1e-4)
    same_cl(t, a, CLRegression(theta=add_turns(th, c["turns"]), X=X, model_type=mt).result, "whole turns", mt, tol=1e-4)
    b = CLRegression(theta=th + c["rot"], X=X, model_type=mt)
    same_cl(t, a, b.result, "rotation", mt, rot=c["rot"], tol=1e-4)
    t.angle_close(b.predict(X), m.predict(X) + c["rot"], "predictions rotate with the response", atol=1e-3)
    for k in ("se_mu", "se_kappa", "se_beta", "se_gamma", "se_alpha"):
        if k in a:
            t.close(b.result[k], a[k], f"rotation: {k}", rtol=1e-3, atol=1e-6)
    # reflection: slopes and direction change sign
    e = CLRegression(theta=-th, X=X, model_type=mt)
    t.close(e.result["beta"], -a["beta"], "reflection: slopes change sign", rtol=1e-4, atol=1e-4)
    t.close(e.result["log_likelihood"], a["log_likelihood"], "reflection: likelihood", rtol=1e-4, atol=1e-4)
    # order of predictors
    if p > 1:
        s = CLRegression(theta=th, X=X[:, ::-1], model_type=mt)
        t.close(s.result["beta"], a["beta"][::-1], "swapped predictors: slopes", rtol=1e-4, atol=1e-4)
        t.close(s.result["gamma"], a["gamma"][::-1], "swapped predictors: concentration slopes", rtol=1e-4, atol=1e-4)
    t.nontrivial()
    t.label(mt)


@facet("R03", "circular_circular", st.fixed_dictionaries(dict(d=CC, pseed=SEEDS, turns=SHIFT, rot=ROT, xrot=ROT)), quick=1000, shards=2, rule="always")
def r03_cc(c, t):
    d = c["d"]
    th, x = cc_data(d)
    D, ks, W, full = well_posed(th, x, d["order"])
    n, p, order = len(th), d["p"], d["order"]
    if n <= full.shape[1] + 1:
        raise Skip()
    a = CCRegression(theta=th, x=x, order=order).result
    size = np.hypot(D @ a["coefficients"]["cos"], D @ a["coefficients"]["sin"])
    sel = size > 1e-4

    def same(b, what, rot=0.0, o=slice(None), pv=True):
        t.close(b["rho"], a["rho"], f"{what}: rho", rtol=1e-7, atol=1e-8)
        t.angle_close(np.where(sel[o], b["fitted"], 0), np.where(sel[o], a["fitted"][o] + rot, 0), f"{what}: fitted", atol=1e-6)
        keep = sel[o] & (np.abs(np.abs(a["residuals"][o]) - math.pi) > 1e-6)
        t.close(np.where(keep, b["residuals"], 0), np.where(keep, a["residuals"][o], 0), f"{what}: residuals", atol=1e-6)
        if pv:
            t.close(b["p_values"], a["p_values"], f"{what}: p-values", rtol=1e-5, atol=1e-7)
            if np.min(np.abs(a["p_values"] - 0.05)) > 1e-5:
                t.true(b["message"] == a["message"], f"{what}: message")

    names = ["psi", "wind dir"][:p]
    df = pd.DataFrame({"unused": 0.0, **{nm: x[:, j] for j, nm in reversed(list(enumerate(names)))}, "θ": th}, index=np.arange(n)[::-1])
    f = CCRegression(formula="θ~" + "+".join(names), data=df, order=order)
    same(f.result, "formula")
    t.close(f.result["coefficients"]["cos"], a["coefficients"]["cos"], "formula: coefficients", rtol=1e-9)
    t.true(list(f.feature_names) == names, f"feature names {f.feature_names}")
    same(CCRegression(theta=list(th), x=x.tolist() if p > 1 else list(x[:, 0]), order=order).result, "lists")
    o = perm(n, c["pseed"])
    same(CCRegression(theta=th[o], x=x[o], order=order).result, "row order", o=o)
    same(CCRegression(theta=add_turns(th, c["turns"]), x=np.column_stack([add_turns(x[:, j], c["turns"] if isinstance(c["turns"], dict) else c["turns"][::-1]) for j in range(p)]), order=order).result, "whole turns")
    same(CCRegression(theta=th, x=x + c["xrot"], order=order).result, "rotation of the predictors")
    same(CCRegression(theta=th, x=-x, order=order).result, "reflection of the predictors")
    same(CCRegression(theta=th + c["rot"], x=x, order=order).result, "rotation of the response", rot=c["rot"], pv=False)
    b = CCRegression(theta=th + math.pi, x=x, order=order).result
    same(b, "half-turn of the response", rot=math.pi)
    e = CCRegression(theta=math.pi / 2 - th, x=x, order=order).result
    t.close(e["p_values"], a["p_values"][::-1], "cosine and sine exchanged: p-values exchanged", rtol=1e-5, atol=1e-7)
    if p > 1:
        same(CCRegression(theta=th, x=x[:, ::-1], order=order).result, "order of the predictors")
    t.nontrivial()


@facet("R03", "refusals", st.fixed_dictionaries(dict(kind=st.sampled_from(["nan_theta", "nan_x", "rows", "none", "model", "order", "level", "beta0", "empty", "newx"]), seed=SEEDS, n=st.integers(8, 20))), quick=300,
       rule="always")
def r03_refusals(c, t):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    th, X = r.vonmises(0, 5, n), r.normal(size=(n, 2))
    k = c["kind"]
    bad = lambda a: np.where(np.arange(a.size).reshape(a.shape) == c["seed"] % a.size, [np.nan, np.inf][c["seed"] % 2], a)
    calls = dict(
        nan_theta=[lambda: CLRegression(theta=bad(th), X=X), lambda: CCRegression(theta=bad(th), x=X), lambda: CLRegression("t~x", pd.DataFrame(dict(t=np.where(np.arange(n) == 1, np.nan, th), x=X[:, 0]))),
                   lambda: CCRegression("t~x", pd.DataFrame(dict(t=bad(th), x=X[:, 0])))],
        nan_x=[lambda: CLRegression(theta=th, X=bad(X)), lambda: CCRegression(theta=th, x=bad(X)), lambda: CLRegression("t~x", pd.DataFrame(dict(t=th, x=bad(X[:, 0])))), lambda: CCRegression("t~x", pd.DataFrame(dict(t=th, x=bad(X[:, 0])))),
               lambda: CLRegression("t~x+y", pd.DataFrame(dict(t=th, x=X[:, 1], y=bad(X[:, 0]))))],
        rows=[lambda: CLRegression(theta=th, X=X[:-1]), lambda: CCRegression(theta=th, x=X[:-1])],
        none=[lambda: CLRegression(), lambda: CCRegression(), lambda: CLRegression(theta=th), lambda: CCRegression(x=th), lambda: CLRegression(formula="a~b"), lambda: CCRegression(data=pd.DataFrame(dict(a=th)))],
        model=[lambda: CLRegression(theta=th, X=X, model_type="median")], order=[lambda: CCRegression(theta=th, x=X, order=0)],
        level=[lambda: CCRegression(theta=th, x=X, level=0.0), lambda: CCRegression(theta=th, x=X, level=1.0)],
        beta0=[lambda: CLRegression(theta=th, X=X, beta0=[0.1]), lambda: CLRegression(theta=th, X=X, gamma0=[0.1, np.nan])],
        empty=[lambda: CLRegression(theta=[], X=[])],
        newx=[lambda: CLRegression(theta=th, X=X, model_type="mean").predict(X[:, :1]), lambda: CLRegression(theta=th, X=X, model_type="mean").predict(bad(X))])[k]
    for i, call in enumerate(calls):
        try:
            call()
        except (ValueError, KeyError):
            continue
        except Exception as e:
            t.fail(f"{k}[{i}]: refused with {type(e).__name__}: {e}, not with a ValueError")
        t.fail(f"{k}[{i}]: accepted invalid input")
    t.nontrivial()
    t.label(k)
