"""K01-K04: clustering on the circle."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Skip, facet
from families import FAMILIES
from gen import ANGLE, SEEDS, finite
from pycircstat2 import clustering as CL
from pycircstat2 import distributions as DI
from pycircstat2.descriptive import circ_kappa

TWO_PI = 2 * math.pi
CYCLES = st.sampled_from([None, None, 360, 24, 12, 7.5, 1.0])
MIXES = ["movm", "mocd:vonmises", "mocd:wrapnorm", "mocd:wrapcauchy", "mocd:cardioid", "mocd:cartwright"]
NPAR = {"movm": 3, "mokj": 5}


def circ(d):
    return np.mod(np.asarray(d, float) + math.pi, TWO_PI) - math.pi


def data_in(alpha, cycle):
    return np.array(alpha) if cycle is None else np.asarray(alpha) / TWO_PI * cycle


def unit_kw(cycle):
    return dict(unit="radian") if cycle is None else dict(unit="degree", full_cycle=cycle)


def model(kind, k, iters, seed, cycle, **kw):
    a = dict(n_clusters=k, n_iters=iters, random_seed=seed, **unit_kw(cycle), **kw)
    if kind == "movm":
        return CL.MovM(**a)
    if kind == "mokj":
        return CL.MoKJ(**a)
    return CL.MoCD(getattr(DI, kind.split(":")[1]), **a)


def family(kind):
    return FAMILIES[{"movm": "vonmises", "mokj": "katojones"}.get(kind) or kind.split(":")[1]]


def matrix(kind, m):
    """K x (number of parameters), in the order of the distribution."""
    if kind == "movm":
        return np.column_stack([m.m_, m.kappa_])
    if kind == "mokj":
        return np.column_stack([m.mu_, m.gamma_, m.rho_, m.lam_])
    return np.array(m.param_matrix_)


def resp_of(kind, m):
    return m.gamma_resp_ if kind == "mokj" else m.gamma_


def cap(kind, par):
    """Component too concentrated for double precision references."""
    j = {"vonmises": 1e7, "wrapnorm": 1 - 1e-7, "wrapcauchy": 1 - 1e-7, "cartwright": 50.0, "cardioid": 1, "katojones": 1}[family(kind).name]
    return par[1] > j


def comp_logpdf(kind, par, x):
    return np.asarray(family(kind).ref([float(v) for v in par]).logpdf(np.asarray(x, float)), float)


def log_parts(kind, m, x):
    P = matrix(kind, m)
    with np.errstate(all="ignore"):
        return np.array([np.log(m.p_[i] + 1e-32) + comp_logpdf(kind, P[i], x) for i in range(len(P))])


def lse(a):
    mx = np.maximum(np.max(a, axis=0), -1e300)
    return mx + np.log(np.sum(np.exp(a - mx), axis=0))


def mix_case(kinds, iters, n=(5, 60), ks=(1, 4), **extra):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(kinds), s=st.one_of(gen.continuous_sample(*n), gen.continuous_sample(*n), gen.spread_sample(*n), gen.tight_sample(*n)),
                                      k=st.integers(*ks), iters=st.sampled_from(iters), seed=SEEDS, cycle=CYCLES, turns=gen.SHIFT, tf=st.booleans(), **extra))


def prepare(c):
    a = gen.angles(c["s"])
    if c["tf"]:
        a = gen.add_turns(a, c["turns"])
    if c["k"] > len(a) // 2:
        raise Skip("fewer than two observations per component")
    return spread(c["kind"], a)


def spread(kind, a):
    """Cardioid and Cartwright densities may vanish exactly opposite to their mode: ties and antipodes are broken for them."""
    if kind in ("mocd:cardioid", "mocd:cartwright"):
        a = a + np.random.default_rng(len(a)).uniform(-2e-3, 2e-3, len(a))
    return a


def fitted(kind, k, iters, seed, cycle, X, **kw):
    m = model(kind, k, iters, seed, cycle, **kw)
    m.fit(X.copy())
    return m


def who_of(c):
    return f"{c['kind']}(n_clusters={c['k']}, n_iters={c['iters']}, random_seed={c['seed']}, cycle={c['cycle']})"


def coherent(t, kind, m, X, cycle, who, r):
    """Weights, memberships, labels, prediction and density of a fitted mixture."""
    K, n = m.n_clusters, len(X)
    alpha = X if cycle is None else X / cycle * TWO_PI
    t.true(m.n == n and np.array_equal(m.data, X), f"{who}: stored data")
    t.close(m.alpha, alpha, f"{who}: stored radians", rtol=1e-12, atol=1e-12)
    P = matrix(kind, m)
    t.true(P.shape[0] == K and np.all(np.isfinite(P)), f"{who}: parameters {P}")
    p = np.asarray(m.p_)
    t.true(p.shape == (K,) and np.all(p >= 0) and abs(p.sum() - 1) < 1e-9, f"{who}: component weights {p}")
    names = dict(movm=["mu", "kappa"], mokj=["mu", "gamma", "rho", "lam"]).get(kind) or list(m.param_names)
    t.true(len(m.params_) == K and all(set(d) == set(names) for d in m.params_), f"{who}: params_ {m.params_}")
    t.close([[d[k] for k in names] for d in m.params_], P, f"{who}: params_ against the parameter arrays", rtol=1e-12, atol=0)
    g = np.asarray(resp_of(kind, m))
    t.true(g.shape == (K, n) and np.all(g >= 0), f"{who}: memberships of shape {g.shape}")
    t.close(g.sum(axis=0), np.ones(n), f"{who}: memberships of each observation sum to one", atol=1e-9)
    t.true(np.array_equal(np.asarray(m.labels_), np.argmax(g, axis=0)), f"{who}: labels are not the most probable components")
    t.close(m.predict_proba(X.copy()), g, f"{who}: membership probabilities of the training data", atol=1e-9, rtol=1e-9)
    t.true(np.array_equal(m.predict(X.copy()), np.asarray(m.labels_)), f"{who}: predicting the training data gives other labels")
    q = r.uniform(0, TWO_PI, 23)
    Q = data_in(q, cycle)
    if any(cap(kind, par) for par in P):
        return False
    L = log_parts(kind, m, alpha)
    conc = max(1.0, np.max(np.abs(L[np.isfinite(L)]))) if np.any(np.isfinite(L)) else 1.0
    t.close(g, np.exp(L - lse(L)), f"{who}: memberships are the shares of the weighted component densities", atol=1e-7 + 1e-11 * conc, rtol=1e-6)
    Lq = log_parts(kind, m, q)
    t.close(m.predict_proba(Q.copy()), np.exp(Lq - lse(Lq)), f"{who}: membership probabilities of new data", atol=1e-7 + 1e-11 * conc, rtol=1e-6)
    pr = np.asarray(m.predict(Q.copy()))
    if kind == "movm":
        t.close(m.compute_gamma(q.copy(), m.p_, m.m_, m.kappa_), np.exp(Lq - lse(Lq)), f"{who}: compute_gamma at new points", atol=1e-7 + 1e-11 * conc, rtol=1e-6)
    if kind.startswith("mocd"):
        t.close(m.predict_density_grid(Q.copy()), m.predict_density(Q.copy()), f"{who}: predict_density_grid", atol=0)
    best = Lq.max(axis=0)
    t.true(np.all(Lq[pr, np.arange(len(q))] >= best - 1e-6 - 1e-10 * conc), f"{who}: predicted labels of new data")
    dens = np.exp(lse(Lq))
    t.close(m.predict_density(Q.copy()), dens, f"{who}: density at new points", rtol=1e-6, atol=1e-12)
    t.close(m.predict_density(q.copy(), unit="radian"), dens, f"{who}: density at new points in radians", rtol=1e-6, atol=1e-12)
    t.close(m.predict_density(q / TWO_PI * 17.0, unit="degree", full_cycle=17.0), dens, f"{who}: density at new points with cycle 17", rtol=1e-6, atol=1e-12)
    if kind != "mokj" and not kind == "movm":
        t.close(m.score_samples(Q.copy()), lse(Lq), f"{who}: log-density of new points", rtol=1e-6, atol=1e-6)
        t.close(m.score(Q.copy()), np.mean(lse(Lq)), f"{who}: mean log-density of new points", rtol=1e-6, atol=1e-6)
    if kind != "mokj":
        d0 = np.asarray(m.predict_density())
        grid = np.arange(len(d0)) * TWO_PI / len(d0)
        t.close(d0, np.exp(lse(log_parts(kind, m, grid))), f"{who}: density on the default grid", rtol=1e-6, atol=1e-10)
    N = 4096
    grid = np.arange(N) * TWO_PI / N
    sharp = {"vonmises": lambda v: v[1] < 1e4, "wrapnorm": lambda v: v[1] < 1 - 1e-4, "wrapcauchy": lambda v: v[1] < 0.99, "cartwright": lambda v: 1e-3 < v[1] < 0.5,
             "cardioid": lambda v: True, "katojones": lambda v: v[2] < 0.99}[family(kind).name]
    d = np.asarray(m.predict_density(data_in(grid, cycle)))
    t.true(np.all(d >= -1e-12), f"{who}: negative density")
    if all(sharp(v) for v in P):
        t.close(d.mean() * TWO_PI, 1.0, f"{who}: integral of the density", atol=1e-7)
    return True


@facet("K01", "mixtures", mix_case(MIXES, [1, 2, 5, 25, 60]), quick=600, shards=4, rule="two or more components")
def k01_mixtures(c, t):
    a = prepare(c)
    t.label(c["kind"])
    X = data_in(a, c["cycle"])
    m = fitted(c["kind"], c["k"], c["iters"], c["seed"], c["cycle"], X)
    t.nontrivial(c["k"] >= 2)
    t.label(f"K={c['k']}")
    if coherent(t, c["kind"], m, X, c["cycle"], who_of(c), np.random.default_rng(c["seed"])):
        t.label("against reference densities")


@facet("K01", "katojones", mix_case(["mokj"], [1, 3], n=(15, 60), ks=(1, 3)), quick=100, shards=8, rule="two or more components")
def k01_katojones(c, t):
    a = prepare(c)
    X = data_in(a, c["cycle"])
    m = fitted("mokj", c["k"], c["iters"], c["seed"], c["cycle"], X)
    t.nontrivial(c["k"] >= 2)
    coherent(t, "mokj", m, X, c["cycle"], who_of(c), np.random.default_rng(c["seed"]))


def nll_of(kind, m, alpha):
    return -float(np.sum(lse(log_parts(kind, m, alpha))))


def npar(kind, m):
    K = m.n_clusters
    per = dict(movm=2, mokj=4).get(kind) or len(m.param_names)
    return K * per + K - 1


def check_likelihood(t, kind, m, alpha, who, last=True):
    nll = nll_of(kind, m, alpha)
    tol = 1e-6 * (1 + abs(nll)) + 1e-5
    for name in ("compute_BIC", "bic"):
        if hasattr(m, name):
            t.close(getattr(m, name)(), 2 * nll + math.log(len(alpha)) * npar(kind, m), f"{who}: {name} is the penalised likelihood of the training data", atol=2 * tol, rtol=0)
    if kind == "movm":
        t.close(m.compute_nLL(m.alpha, m.p_, m.m_, m.kappa_), nll, f"{who}: compute_nLL of the fitted parameters", atol=tol, rtol=0)
        t.close(m.compute_gamma(m.alpha, m.p_, m.m_, m.kappa_), m.gamma_, f"{who}: compute_gamma of the fitted parameters", atol=1e-9)
    if kind.startswith("mocd"):
        t.close(m.score(m.data), -nll / len(alpha), f"{who}: score of the training data", atol=tol, rtol=0)
    return nll, tol


@facet("K02", "history", mix_case(MIXES, [1, 2, 3, 6, 15, 40], burnin=st.sampled_from([0, 3, 20]), thr=st.sampled_from([1e-16, 1e-6, 1e-3])), quick=700, shards=4, rule="two or more components and two or more iterations")
def k02_history(c, t):
    a = prepare(c)
    kind, cyc = c["kind"], c["cycle"]
    X = data_in(a, cyc)
    kw = dict(burnin=c["burnin"], threshold=c["thr"])
    m = fitted(kind, c["k"], c["iters"], c["seed"], cyc, X, **kw)
    who = who_of(c)
    t.label(kind)
    h = np.asarray(m.nLL)
    t.true(1 <= len(h) <= c["iters"] and np.all(np.isfinite(h)), f"{who}: history {h}")
    if m.converged:
        t.label("converged")
        t.true(m.converged_iters == len(h) and len(h) > c["burnin"] + 1 and abs(h[-1] - h[-2]) < c["thr"], f"{who}: reported convergence at iteration {m.converged_iters} of history {h}")
    else:
        t.true(len(h) == c["iters"] and m.converged_iters is None, f"{who}: neither converged nor at the maximum of iterations: {len(h)} entries")
    for j in range(c["burnin"] + 1, len(h) - 1):
        t.true(abs(h[j] - h[j - 1]) >= c["thr"], f"{who}: went on after the change fell below the threshold at iteration {j}")
    P = matrix(kind, m)
    if any(cap(kind, v) for v in P):
        raise Skip("component of a single point")
    nll, tol = check_likelihood(t, kind, m, a, who)
    t.nontrivial(c["k"] > 1 and c["iters"] > 1)
    # one more iteration: its first len(h) entries are this history, its next entry is the likelihood of this fit
    if not m.converged:
        m2 = fitted(kind, c["k"], c["iters"] + 1, c["seed"], cyc, X, **kw)
        h2 = np.asarray(m2.nLL)
        t.close(h2[:len(h)], h, f"{who}: history of a longer fit with the same seed", rtol=1e-9, atol=1e-7)
        if len(h2) > len(h):
            t.close(h2[len(h)], nll, f"{who}: next entry of the history is the likelihood of the fitted parameters", atol=tol, rtol=0)
            em_step(t, kind, m, m2, a, who)


def em_step(t, kind, m, m2, a, who):
    """m2 is m after one further EM iteration."""
    L = log_parts(kind, m, a)
    g = np.exp(L - lse(L))
    p = g.sum(axis=1) / len(a)
    t.close(m2.p_, p, f"{who}: component weights after one more iteration are the mean memberships", atol=1e-7, rtol=1e-6)
    P, P2 = matrix(kind, m), matrix(kind, m2)
    for i in range(len(P)):
        W = g[i].sum()
        if W < 1e-3:
            continue
        z = np.sum(g[i] * np.exp(1j * a)) / W
        r = abs(z)
        if r < 1e-4 or r > 1 - 1e-6:
            continue
        cond = 1e-7 / r * (1 + 1 / W)
        t.true(abs(circ(P2[i][0] - np.angle(z))) < cond, f"{who}: location {P2[i][0]} of component {i} after one more iteration is not the weighted mean direction {np.angle(z)}")
        if kind == "movm":
            t.close(m2.r_[i], r, f"{who}: resultant length of component {i}", atol=cond)
            want, tl = max(float(circ_kappa(r=r)), 1e-3), 1e-6 + 1e-6 / (1 - r)
            if min(abs(r - .53), abs(r - .85)) > 1e-5:
                t.close(P2[i][1], want, f"{who}: concentration of component {i} after one more iteration", rtol=tl * (1 + 1 / W), atol=1e-6)
        elif kind in ("mocd:wrapnorm", "mocd:wrapcauchy"):
            t.close(P2[i][1], r, f"{who}: resultant length of component {i}", atol=cond + 2e-9)
        elif kind == "mocd:cardioid":
            t.close(P2[i][1], min(r, 0.5), f"{who}: resultant length of component {i}", atol=cond)
        elif kind == "mocd:cartwright":
            t.close(1 / (1 + P2[i][1]), max(r, 1e-6), f"{who}: resultant length of component {i}", atol=cond + 1e-6)
        elif kind == "mocd:vonmises":
            n = int(max(1, round(W)))
            if abs(W - math.floor(W) - 0.5) > 1e-3 and min(abs(r - .53), abs(r - .85), abs(r - .7)) > 1e-5:
                want = min(max(float(circ_kappa(r=r, n=n)), 1e-9), 1e6)
                t.close(P2[i][1], want, f"{who}: concentration of component {i} after one more iteration", rtol=(1e-6 + 1e-6 / (1 - r)) * (1 + 1 / W), atol=1e-6 * (1 + 1 / max(r, 1e-3)**2))


@facet("K02", "improvement", mix_case(["movm", "mocd:wrapcauchy", "mocd:wrapnorm", "mocd:cardioid", "mocd:vonmises"], [12, 40], n=(15, 80), ks=(1, 3), mle=st.booleans()), quick=200, shards=8, rule="two or more components")
def k02_improvement(c, t):
    """Expectation-maximisation does not decrease the likelihood (up to the closed-form approximations used in its steps)."""
    a = prepare(c)
    kind = c["kind"]
    mle = kind == "mocd:wrapcauchy" or c["mle"] and kind != "movm"      # the moment estimates of wrapped Cauchy components need not raise the likelihood
    kw = dict(fit_method="mle") if mle else {}
    iters = 12 if mle else c["iters"]
    try:
        m = fitted(kind, c["k"], iters, c["seed"], None, a, **kw)
    except RuntimeError:
        raise Skip("the optimiser of a component fit reports failure")
    t.label(kind + (":mle" if mle else ""))
    t.nontrivial(c["k"] >= 2)
    if any(cap(kind, v) for v in matrix(kind, m)):
        raise Skip("component of a single point")
    h = np.append(np.asarray(m.nLL), nll_of(kind, m, a))
    worst = float(np.max(np.diff(h))) if len(h) > 1 else 0.0
    per = TOL_STEP["mle" if mle else kind]
    t.true(h[-1] <= h[0] + per * len(a), f"{who_of(c)}: the likelihood of the fit (nLL {h[-1]}) is worse than that of the initialisation ({h[0]})")
    t.true(worst <= per * len(a), f"{who_of(c)}: one iteration raised the negative log-likelihood by {worst}: {h}")


TOL_STEP = {"mle": 1e-4, "movm": 0.02, "mocd:vonmises": 0.1, "mocd:wrapcauchy": 0.2, "mocd:wrapnorm": 0.1, "mocd:cardioid": 0.2}


@facet("K02", "katojones", mix_case(["mokj"], [1, 2, 4], n=(15, 60), ks=(1, 3)), quick=80, shards=8, rule="two or more components")
def k02_katojones(c, t):
    a = prepare(c)
    X = data_in(a, c["cycle"])
    m = fitted("mokj", c["k"], c["iters"], c["seed"], c["cycle"], X)
    who = who_of(c)
    nll, tol = check_likelihood(t, "mokj", m, a, who)
    h = np.asarray(m.nLL)
    t.close(h[-1], nll, f"{who}: last entry of the history is the likelihood of the fitted parameters", atol=tol, rtol=0)
    t.nontrivial(c["k"] > 1)
    if c["iters"] > 1:
        b = fitted("mokj", c["k"], c["iters"] - 1, c["seed"], c["cycle"], X)
        t.close(np.asarray(b.nLL), h[:-1], f"{who}: history of a shorter fit with the same seed", rtol=1e-9, atol=1e-7)
        L = log_parts("mokj", b, a)
        p = np.clip(np.exp(L - lse(L)).sum(axis=1), 1e-6, None)
        t.close(m.p_, p / p.sum(), f"{who}: component weights are the mean memberships of the iteration before", atol=1e-6, rtol=1e-5)


@facet("K02", "one-component", mix_case(MIXES, [1, 3, 30], n=(3, 60), ks=(1, 1)), quick=400, shards=2, rule="all cases")
def k02_one(c, t):
    a = prepare(c)
    kind = c["kind"]
    m = fitted(kind, 1, c["iters"], c["seed"], c["cycle"], data_in(a, c["cycle"]))
    z = np.mean(np.exp(1j * a)); r = abs(z)
    if r < 1e-4 or r > 1 - 1e-6:
        raise Skip("no mean direction, or a single point")
    t.nontrivial()
    P = matrix(kind, m)[0]
    who = who_of(c)
    t.close(m.p_, [1.0], f"{who}: weight", atol=1e-12)
    t.true(np.all(np.asarray(m.labels_) == 0), f"{who}: labels")
    t.true(abs(circ(P[0] - np.angle(z))) < 1e-9 / r, f"{who}: location {P[0]} is not the mean direction {np.angle(z)}")
    if kind == "movm":
        t.close(m.r_, [r], f"{who}: resultant length", atol=1e-9)
        t.close(P[1], max(float(circ_kappa(r=r)), 1e-3), f"{who}: concentration", rtol=1e-8 / (1 - r))
    else:
        est = family(kind).dist.fit(a, method="moments")
        t.true(abs(circ(P[0] - est[0])) < 1e-9 / r, f"{who}: location differs from the single-distribution fit {est}")
        t.close(P[1], est[1], f"{who}: single-distribution fit {est}", rtol=1e-7 / (1 - r))


# ---- K03 --------------------------------------------------------------------------
def same_model(t, kind, a, b, rot, who, tol=1e-6):
    A, B = matrix(kind, a), matrix(kind, b)
    t.close(b.p_, a.p_, f"{who}: component weights", atol=tol, rtol=0)
    for i in range(len(A)):
        if a.p_[i] * a.n < 1e-3:
            continue
        t.close(B[i][1:3], A[i][1:3], f"{who}: parameters of component {i}", rtol=tol * (1 + 100 * (kind == 'mocd:cartwright')), atol=tol)
    ga, gb = resp_of(kind, a), resp_of(kind, b)
    t.close(gb, ga, f"{who}: memberships", atol=10 * tol, rtol=0)
    for i in range(len(A)):
        z = np.sum(ga[i] * np.exp(1j * np.asarray(a.alpha))) / max(np.sum(ga[i]), 1e-300)
        if np.sum(ga[i]) > 1e-3 and abs(z) > 1e-2:
            t.true(abs(circ(B[i][0] - A[i][0] - rot)) < 10 * tol / abs(z), f"{who}: location of component {i}: {A[i][0]} and {B[i][0]} (rotated by {rot})")
    close = np.sort(ga, axis=0)[-2:] if len(A) > 1 else None
    clear = np.ones(a.n, bool) if close is None else close[1] - close[0] > 1e-4
    t.true(np.array_equal(np.asarray(a.labels_)[clear], np.asarray(b.labels_)[clear]), f"{who}: partitions")


@facet("K03", "mixtures", mix_case(MIXES, [1, 3, 10, 20], rot=gen.ROT, cycle2=CYCLES, rel=st.sampled_from(["unit", "unit", "rotate", "turns", "again", "reflect"])), quick=500, shards=4, rule="two or more components")
def k03_mixtures(c, t):
    a = prepare(c)
    kind = c["kind"]
    t.label(kind); t.label(c["rel"])
    rot, a2, c2 = 0.0, a, c["cycle"]
    if c["rel"] == "unit":
        c2 = c["cycle2"]
    elif c["rel"] == "rotate":
        rot = c["rot"]; a2 = a + rot
    elif c["rel"] == "turns":
        a2 = gen.add_turns(a, c["turns"])
    elif c["rel"] == "reflect":
        a2 = -a
    A = fitted(kind, c["k"], c["iters"], c["seed"], c["cycle"], data_in(a, c["cycle"]))
    B = fitted(kind, c["k"], c["iters"], c["seed"], c2, data_in(a2, c2))
    who = f"{who_of(c)} and, related by {c['rel']} (cycle {c2})"
    if any(cap(kind, v) for v in np.vstack([matrix(kind, A), matrix(kind, B)])):
        raise Skip("component of a single point")
    t.nontrivial(c["k"] > 1)
    z = [np.abs(np.sum(g * np.exp(1j * a))) / max(g.sum(), 1e-9) for g in A.gamma_]
    if min(z) < 1e-2 or np.min(A.p_) * A.n < 0.05:
        raise Skip("component without direction or members: ill-conditioned iteration")
    if kind == "mocd:cartwright" and np.max(A.param_matrix_[:, 1]) > 5:
        raise Skip("cusps: ill-conditioned iteration")
    if c["rel"] == "again":
        t.true(np.array_equal(A.nLL, B.nLL) and np.array_equal(A.gamma_, B.gamma_) and np.array_equal(matrix(kind, A), matrix(kind, B)), f"{who}: two fits with the same seed differ")
    if c["rel"] == "reflect":
        t.close(B.p_, A.p_, f"{who}: component weights", atol=1e-6, rtol=0)
        t.close(B.gamma_, A.gamma_, f"{who}: memberships", atol=1e-5, rtol=0)
        return
    t.close(B.nLL[-1], A.nLL[-1], f"{who}: final likelihood", rtol=1e-6, atol=1e-5)
    same_model(t, kind, A, B, rot, who)


@facet("K03", "katojones", st.fixed_dictionaries(dict(kind=st.just("mokj"), n=st.integers(15, 40), mu=ANGLE, kappa=finite(3.0, 10.0), k=st.integers(1, 2), iters=st.just(1), seed=SEEDS, cycle=CYCLES, cycle2=CYCLES,
       rel=st.sampled_from(["unit", "again"]))), quick=40, shards=8, rule="two components")
def k03_katojones(c, t):
    """Two opposite groups: samples without structure make the numerical maximisation of each step unstable."""
    r = np.random.default_rng(c["seed"])
    a = np.concatenate([gen.vm_draw(r, c["mu"], c["kappa"], c["n"]), gen.vm_draw(r, c["mu"] + math.pi, c["kappa"], c["n"])])
    c2 = c["cycle2"] if c["rel"] == "unit" else c["cycle"]
    A = fitted("mokj", c["k"], c["iters"], c["seed"], c["cycle"], data_in(a, c["cycle"]))
    B = fitted("mokj", c["k"], c["iters"], c["seed"], c2, data_in(a, c2))
    t.nontrivial(c["k"] > 1)
    who = f"{who_of(c)} and, related by {c['rel']} (cycle {c2})"
    if c["rel"] == "again":
        t.true(np.array_equal(A.nLL, B.nLL) and np.array_equal(A.labels_, B.labels_), f"{who}: two fits with the same seed differ")
    t.close(B.p_, A.p_, f"{who}: component weights", atol=1e-5)


REFITS = st.lists(st.fixed_dictionaries(dict(s=gen.spread_sample(6, 40), cycle=st.just(None))), min_size=2, max_size=3)


@facet("K03", "refit", st.fixed_dictionaries(dict(kind=st.sampled_from(MIXES + ["hac", "hac", "kmeans", "kmeans"]), k=st.integers(1, 3), iters=st.sampled_from([1, 4, 30]), seed=SEEDS, cycle=CYCLES, data=REFITS,
       metric=st.sampled_from(["center", "geodesic", "angularseparation", "chord"]))), quick=400, shards=2, rule="fits of different sizes")
def k03_refit(c, t):
    """A model refitted to new data describes the new data only."""
    kind = c["kind"]
    t.label(kind)
    sets = [data_in(spread(kind, gen.angles(d["s"])), c["cycle"]) for d in c["data"]]
    t.nontrivial(len({len(s) for s in sets}) > 1)
    if kind in ("hac", "kmeans"):
        new = lambda: CL.CircHAC(n_clusters=c["k"], metric=c["metric"], **unit_kw(c["cycle"])) if kind == "hac" else CL.CircKMeans(n_clusters=c["k"], metric=c["metric"], random_seed=c["seed"], **unit_kw(c["cycle"]))
        m = new()
        for X in sets:
            m.fit(X.copy())
        f = new().fit(sets[-1].copy())
        for name in ("labels_", "centers_", "alpha", "data"):
            t.true(np.array_equal(np.asarray(getattr(m, name)), np.asarray(getattr(f, name)), equal_nan=True), f"{kind}: {name} after refitting differs from a fresh fit")
        if kind == "hac":
            t.true(np.array_equal(m.merges_, f.merges_, equal_nan=True) and np.array_equal(m.r_, f.r_, equal_nan=True), "hac: merges after refitting differ from a fresh fit")
        else:
            t.close(m.inertia_, f.inertia_, "kmeans: inertia after refitting", rtol=1e-12)
        return
    m = model(kind, c["k"], c["iters"], c["seed"], c["cycle"], burnin=1, threshold=1e-3)
    for X in sets:
        m.fit(X.copy())
        h = np.asarray(m.nLL)
        who = f"{kind} refitted"
        t.true(bool(m.converged) == (m.converged_iters is not None), f"{who}: converged {m.converged} at {m.converged_iters}")
        t.true(len(h) == (m.converged_iters if m.converged else c["iters"]), f"{who}: history of {len(h)} entries, converged: {m.converged}")
        if not coherent(t, kind, m, X, c["cycle"], who, np.random.default_rng(c["seed"])):
            raise Skip("component of a single point")
        check_likelihood(t, kind, m, np.asarray(m.alpha), who)


METRIC = st.sampled_from(["center", "geodesic", "angularseparation", "chord"])


def partition(labels):
    d = {}
    for i, v in enumerate(np.asarray(labels)):
        d.setdefault(int(v), []).append(i)
    return {frozenset(v) for v in d.values()}


HARD = st.fixed_dictionaries(dict(s=gen.continuous_sample(2, 30), k=st.integers(1, 5), metric=METRIC, seed=SEEDS, cycle=CYCLES, cycle2=CYCLES, rot=gen.ROT, turns=gen.SHIFT, tf=st.booleans(),
                                  rel=st.sampled_from(["unit", "rotate", "turns", "permute", "reflect"]), init=st.one_of(st.none(), st.none(), st.integers(2, 8))))


def related(c, a):
    r = np.random.default_rng(c["seed"])
    a2, cyc, order, rot = a, c["cycle"], np.arange(len(a)), 0.0
    if c["rel"] == "unit":
        cyc = c["cycle2"]
    elif c["rel"] == "rotate":
        rot = c["rot"]; a2 = a + rot
    elif c["rel"] == "turns":
        a2 = gen.add_turns(a, c["turns"])
    elif c["rel"] == "reflect":
        a2 = -a
    else:
        order = r.permutation(len(a)); a2 = a[order]
    return a2, cyc, order, rot


def near_tie(a, m):
    """Distances recorded by the merges too close to call."""
    d = np.sort(np.abs(circ(a[:, None] - a[None, :]))[np.triu_indices(len(a), 1)])
    return len(d) > 1 and np.min(np.diff(d)) < 1e-7


@facet("K03", "hierarchical", HARD, quick=500, shards=2, rule="more observations than clusters")
def k03_hac(c, t):
    a = gen.angles(c["s"])
    a2, cyc, order, rot = related(c, a)
    t.label(c["rel"]); t.label(c["metric"])
    new = lambda cy: CL.CircHAC(n_clusters=c["k"], metric=c["metric"], n_init_clusters=c["init"] if c["rel"] != "permute" else None, random_seed=c["seed"], **unit_kw(cy))
    A = new(c["cycle"]).fit(data_in(a, c["cycle"]))
    B = new(cyc).fit(data_in(a2, cyc))
    t.nontrivial(len(a) > c["k"])
    if near_tie(a, A) or np.min(A.r_) < 1e-3:
        raise Skip("tied distances")
    who = f"CircHAC(n_clusters={c['k']}, metric={c['metric']!r}, n_init_clusters={c['init']}) of {list(a)}, related by {c['rel']}"
    back = np.empty(len(a), int); back[order] = B.labels_
    t.true(partition(A.labels_) == partition(back), f"{who}: partitions {A.labels_} and {back}")
    if len(A.merges_):
        t.close(B.merges_[:, 2:], A.merges_[:, 2:], f"{who}: merge distances and sizes", atol=1e-7, rtol=1e-7)
    if c["rel"] in ("unit", "turns", "rotate") and len(a) > c["k"]:
        t.true(np.all(np.abs(circ(np.asarray(B.centers_) - np.asarray(A.centers_) - rot)) < 1e-6), f"{who}: centres {A.centers_} and {B.centers_}")
        t.close(B.r_, A.r_, f"{who}: resultant lengths", atol=1e-8)
    if len(np.unique(A.labels_)) > 1:
        t.close(B.silhouette_score(), A.silhouette_score(), f"{who}: silhouette", atol=1e-6)


@facet("K03", "k-means", HARD, quick=500, shards=2, rule="more observations than clusters")
def k03_kmeans(c, t):
    if c["rel"] == "permute":
        c = dict(c, rel="turns")       # the initial centres are drawn by position
    a = gen.angles(c["s"])
    a2, cyc, order, rot = related(c, a)
    t.label(c["rel"]); t.label(c["metric"])
    new = lambda cy: CL.CircKMeans(n_clusters=c["k"], metric=c["metric"], random_seed=c["seed"], **unit_kw(cy))
    A = new(c["cycle"]).fit(data_in(a, c["cycle"]))
    B = new(cyc).fit(data_in(a2, cyc))
    t.nontrivial(len(a) > c["k"])
    D = np.sort(np.abs(circ(a[:, None] - np.asarray(A.centers_)[None, :])), axis=1)
    if not np.all(np.isfinite(D)) or (D.shape[1] > 1 and np.min(D[:, 1] - D[:, 0]) < 1e-6):
        raise Skip("tied distances")
    who = f"CircKMeans(n_clusters={c['k']}, metric={c['metric']!r}, random_seed={c['seed']}) of {list(a)}, related by {c['rel']}"
    t.true(np.array_equal(A.labels_, B.labels_), f"{who}: labels {A.labels_} and {B.labels_}")
    t.close(B.inertia_, A.inertia_, f"{who}: inertia", atol=1e-6)
    if c["rel"] != "reflect":
        t.true(np.all(np.abs(circ(np.asarray(B.centers_) - np.asarray(A.centers_) - rot)) < 1e-6), f"{who}: centres {A.centers_} and {B.centers_}")


# ---- K04 --------------------------------------------------------------------------
def distance(metric, x, y):
    d = np.abs(circ(np.asarray(x, float) - y))
    if metric in ("center", "geodesic"):
        return d
    return 1 - np.cos(d) if metric == "angularseparation" else 2 * np.sin(d / 2)


def mean_dir(a):
    z = np.mean(np.exp(1j * np.asarray(a)))
    return float(np.angle(z)), abs(z)


TIED = st.fixed_dictionaries(dict(s=st.one_of(gen.spread_sample(1, 30), gen.continuous_sample(2, 30)), k=st.integers(1, 6), metric=METRIC, seed=SEEDS, cycle=CYCLES, turns=gen.SHIFT, tf=st.booleans(),
                                  init=st.one_of(st.none(), st.none(), st.none(), st.integers(1, 10)), iters=st.sampled_from([1, 2, 3, 100])))


def silhouette(D, labels):
    s = []
    for i in range(len(labels)):
        own = labels == labels[i]
        if own.sum() == 1:
            s.append(0.0); continue
        a = D[i, own].sum() / (own.sum() - 1)
        b = min(D[i, labels == o].mean() for o in set(labels.tolist()) - {int(labels[i])})
        if max(a, b) < 1e-5:
            raise Skip("coinciding observations in different clusters")
        s.append((b - a) / max(a, b))
    return float(np.mean(s))


@facet("K04", "hierarchical", TIED, quick=1200, shards=4, rule="at least one merge")
def k04_hac(c, t):
    a = gen.angles(c["s"])
    if c["tf"]:
        a = gen.add_turns(a, c["turns"])
    m = CL.CircHAC(n_clusters=c["k"], metric=c["metric"], n_init_clusters=c["init"], random_seed=c["seed"], **unit_kw(c["cycle"]))
    X = data_in(a, c["cycle"])
    m.fit(X.copy())
    n, k = len(a), c["k"]
    who = f"CircHAC(n_clusters={k}, metric={c['metric']!r}, n_init_clusters={c['init']}, random_seed={c['seed']}) of {list(a)}"
    lab = np.asarray(m.labels_)
    t.true(lab.shape == (n,) and lab.min() >= 0, f"{who}: labels {lab}")
    mg = np.asarray(m.merges_, float)
    t.true(mg.ndim == 2 and mg.shape[1] == 4, f"{who}: merges {mg}")
    t.label("pre-clustered" if c["init"] is not None and c["init"] < n else "from single observations")
    if c["init"] is None or c["init"] >= n or n <= k:
        cur = {i: [i] for i in range(n)}
    else:       # leaves are the clusters of the preliminary k-means: rebuilt from the final partition only when nothing was merged
        cur = None
    undefined = False
    if cur is not None:
        nxt = n
        for A, B, dist, size in mg:
            A, B = int(A), int(B)
            t.true(A in cur and B in cur and A != B, f"{who}: merges {A} and {B}, which are not both current clusters")
            mu = {i: mean_dir(a[v]) for i, v in cur.items()}
            if min(r for _, r in mu.values()) < 1e-6:
                undefined = True
                break
            ids = list(cur)
            mm = np.array([mu[i][0] for i in ids])
            D = distance(c["metric"], mm[:, None], mm[None, :])
            best = np.min(D[np.triu_indices(len(ids), 1)])
            d = float(distance(c["metric"], mu[A][0], mu[B][0]))
            t.close(dist, d, f"{who}: recorded distance of merging {cur[A]} and {cur[B]}", atol=2e-7)
            t.true(d <= best + 2e-7, f"{who}: merged clusters at distance {d} while two others are {best} apart")
            new = cur.pop(A) + cur.pop(B)
            t.true(size == len(new), f"{who}: recorded size {size} of {new}")
            cur[nxt] = new; nxt += 1
            t.nontrivial()
        if undefined:
            raise Skip("cluster without mean direction")
        t.true(partition(lab) == {frozenset(v) for v in cur.values()}, f"{who}: labels {lab} are not the merged clusters {list(cur.values())}")
    else:
        t.nontrivial(len(mg) > 0)
        sizes = [s for s in mg[:, 3]]
        t.true(all(2 <= s <= n for s in sizes), f"{who}: recorded sizes {sizes}")
        km = CL.CircKMeans(n_clusters=c["init"], unit="radian", metric=c["metric"], random_seed=int(np.random.default_rng(c["seed"]).integers(0, 2**32 - 1))).fit(a)
        if not np.all(np.isfinite(np.asarray(km.centers_))):
            raise Skip("cluster without mean direction")
        seen, births = set(), {}
        for A, B, dist, size in mg:
            t.true(A not in seen and B not in seen and A != B, f"{who}: a cluster is merged twice")
            seen |= {A, B}
    kk = len(set(lab.tolist()))
    t.true(set(lab.tolist()) == set(range(kk)), f"{who}: labels {lab} are not 0..{kk - 1}")
    if c["seed"] % 8 == 0:
        t.label("dendrogram drawn")
        check_dendrogram(t, m, mg, who)
    t.true(kk == min(n, k) or (c["init"] is not None and kk <= k), f"{who}: {kk} clusters")
    cen, r = np.asarray(m.centers_), np.asarray(m.r_)
    t.true(cen.shape == (kk,) and r.shape == (kk,), f"{who}: centres {cen}")
    for j in range(kk):
        mu, rr = mean_dir(a[lab == j])
        t.close(r[j], rr, f"{who}: resultant length of cluster {j}", atol=1e-9)
        if rr > 1e-6:
            t.true(abs(circ(cen[j] - mu)) < 1e-8 / rr, f"{who}: centre {cen[j]} of cluster {j} is not the mean direction {mu}")
    if np.all(np.isfinite(cen)):
        check_predict(t, m, cen, c, who)
        if kk > 1:
            D = distance(c["metric"], a[:, None], a[None, :])
            want = silhouette(D, lab)
            t.close(m.silhouette_score(), want, f"{who}: silhouette score of labels {lab}", atol=1e-6)


def check_dendrogram(t, m, mg, who):
    """Each merge is drawn as two legs up to its distance and a bar joining them."""
    from matplotlib.figure import Figure
    ax = Figure().subplots()
    t.true(m.plot_dendrogram(ax=ax, color="k") is ax, f"{who}: plot_dendrogram draws elsewhere")
    got = sorted(tuple(np.concatenate(l.get_data()).tolist()) for l in ax.lines)
    want = sorted(x for A, B, d, _ in mg for x in [(A, A, 0.0, d), (B, B, 0.0, d), (A, B, d, d)])
    t.true(len(got) == len(want) and np.allclose(got, want, atol=1e-12), f"{who}: dendrogram lines {got} of merges {mg.tolist()}")


def check_predict(t, m, cen, c, who):
    q = np.random.default_rng(c["seed"]).uniform(-TWO_PI, 2 * TWO_PI, 25)
    p = np.asarray(m.predict(data_in(q, c["cycle"])))
    t.true(p.shape == q.shape and p.min() >= 0 and p.max() < len(cen), f"{who}: predictions {p}")
    D = distance("center", q[:, None], cen[None, :])
    got = D[np.arange(len(q)), p]
    t.true(np.all(got <= D.min(axis=1) + 1e-6), f"{who}: new observations {q[got > D.min(axis=1) + 1e-6]} are not assigned to the nearest of {cen}")


@facet("K04", "k-means", TIED, quick=1200, shards=4, rule="two or more clusters")
def k04_kmeans(c, t):
    a = gen.angles(c["s"])
    if c["tf"]:
        a = gen.add_turns(a, c["turns"])
    n, k = len(a), c["k"]
    X = data_in(a, c["cycle"])
    fit = lambda it: CL.CircKMeans(n_clusters=k, max_iter=it, metric=c["metric"], random_seed=c["seed"], **unit_kw(c["cycle"])).fit(X.copy())
    m = fit(c["iters"])
    who = f"CircKMeans(n_clusters={k}, max_iter={c['iters']}, metric={c['metric']!r}, random_seed={c['seed']}) of {list(a)}"
    lab, cen = np.asarray(m.labels_), np.asarray(m.centers_, float)
    t.true(lab.shape == (n,) and lab.min() >= 0 and lab.max() < len(cen), f"{who}: labels {lab}, centres {cen}")
    if n < k:
        t.true(len(set(lab.tolist())) == n and m.inertia_ == 0, f"{who}: fewer observations than clusters")
        t.true(np.all(np.abs(circ(cen[lab] - a)) < 1e-9), f"{who}: fewer observations than clusters: centres {cen}")
        check_predict(t, m, cen, c, who)
        return
    t.true(len(cen) == k, f"{who}: {len(cen)} centres")
    t.nontrivial(k > 1)
    if not np.all(np.isfinite(cen)):
        raise Skip("cluster without mean direction")
    for j in range(k):
        if np.any(lab == j):
            mu, r = mean_dir(a[lab == j])
            if r > 1e-6:
                t.true(abs(circ(cen[j] - mu)) < 1e-8 / r, f"{who}: centre {cen[j]} is not the mean direction {mu} of its members")
    D = distance(c["metric"], a[:, None], cen[None, :])
    t.close(m.inertia_, float(np.sum(D[np.arange(n), lab])), f"{who}: inertia", atol=1e-6)
    m2 = fit(c["iters"] + 1)
    cen2, lab2 = np.asarray(m2.centers_), np.asarray(m2.labels_)
    geo = distance("center", a[:, None], cen[None, :])
    got = geo[np.arange(n), lab2]
    t.true(np.all(got <= geo.min(axis=1) + 1e-5), f"{who}: the next iteration assigns observations to clusters that are not nearest to the current centres {cen}: {lab2}")
    if np.max(np.abs(circ(cen2 - cen))) == 0 and np.array_equal(lab, lab2):
        t.label("converged")
        got = geo[np.arange(n), lab]
        t.true(np.all(got <= geo.min(axis=1) + 1e-5), f"{who}: converged, but observations {a[got > geo.min(axis=1) + 1e-5]} are not assigned to the nearest of {cen}")
        check_predict(t, m, cen, c, who)
        p = np.asarray(m.predict(X.copy()))
        t.true(np.all(geo[np.arange(n), p] <= geo.min(axis=1) + 1e-5), f"{who}: prediction of the training data")
    else:
        t.label("not converged")
    t.true(c["iters"] < 100 or np.max(np.abs(circ(cen2 - cen))) < 1e-5, f"{who}: not converged after 100 iterations")
