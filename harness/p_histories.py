"""C04 / C05: histories of mixed calls over the whole public interface."""
import contextlib, copy, dataclasses, io, math
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from pycircstat2 import Axial, Circular, clustering as CL, correlation as K, descriptive as D, distributions as DI, hypothesis as H, regression as RG, utils as U
import pycircstat2.visualization as VZ
from core import facet, Skip
import gen
from gen import *
from families import FAMILIES, NAMES


def canon(x, depth=0):
    """A value as nested plain data, so that equal outcomes compare equal."""
    if depth > 8:
        return "..."
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return np.asarray(x)
    if isinstance(x, np.ndarray):
        return np.array(x) if x.dtype != object else [canon(v, depth + 1) for v in x.ravel()]
    if isinstance(x, pd.DataFrame):
        return [list(map(str, x.columns)), [canon(x[c].to_numpy(), depth + 1) for c in x.columns], canon(x.index.to_numpy(), depth + 1)]
    if isinstance(x, pd.Series):
        return [canon(x.to_numpy(), depth + 1), canon(x.index.to_numpy(), depth + 1)]
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, np.random.Generator):
        return canon(x.bit_generator.state, depth + 1)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {f.name: canon(getattr(x, f.name), depth + 1) for f in dataclasses.fields(x)}
    if type(x).__module__.startswith("pycircstat2") and not callable(x):
        return {k: canon(v, depth + 1) for k, v in vars(x).items()}
    return type(x).__name__


def same(a, b, rtol=1e-12, path=""):
    """None when equal, else the place and the two values; keys only in b are ignored (results kept on an object)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            return f"{path}: shape {a_.shape} became {b_.shape}"
        if a_.dtype.kind in "fc":
            return None if np.allclose(a_, b_, rtol=rtol, atol=rtol, equal_nan=True) else f"{path}: {str(a_)[:150]} became {str(b_)[:150]}"
        return None if np.array_equal(a_, b_) else f"{path}: {str(a_)[:150]} became {str(b_)[:150]}"
    if type(a) is not type(b):
        return f"{path}: {a!r:.100} became {b!r:.100}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} vanished"
            r = same(a[k], b[k], rtol, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            r = same(u, v, rtol, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {a!r:.100} became {b!r:.100}"


STATE = st.fixed_dictionaries(dict(n=st.integers(25, 45), mu=ANGLE, k=log_uniform(0.6, 12.0), seed=SEEDS, grid=st.sampled_from([0, 0, 24, 72]), turns=st.lists(st.integers(-2, 2), min_size=1, max_size=4),
                                   form=st.sampled_from(["array", "array", "list", "readonly"])))


class State:
    def __init__(self, c):
        r = np.random.default_rng(c["seed"])
        n = c["n"]

        def draw(mu, k, m):
            a = gen.vm_draw(r, mu, k, m)
            if c["grid"]:
                a = np.round(a / TWO_PI * c["grid"]) / c["grid"] * TWO_PI % TWO_PI
            return a
        a = [draw(c["mu"] + d, c["k"], n + j) for j, d in ((0, 0.0), (3, 0.4), (5, -0.3))]
        self.raw = add_turns(a[0], c["turns"])                      # not reduced to one turn
        self.a, self.b, self.c = a
        self.pair = np.mod(a[0] + r.vonmises(0, 4.0, n), TWO_PI)
        self.lin = np.cos(a[0]) + 0.5 * r.normal(size=n)
        self.w = r.integers(0, 5, 18)
        self.w[0] = 3
        self.wfrac = r.random(n) + 0.1
        self.centres = np.arange(18) * TWO_PI / 18
        self.idp, self.idq = np.arange(n) % 2, (np.arange(n) // 2) % 3
        self.X = r.normal(size=(n, 2)) * 0.5
        self.samples = [self.a.copy(), self.b.copy(), self.c.copy()]
        self.df = pd.DataFrame({"θ": a[0], "x": self.X[:, 0], "psi": self.pair, "z": self.X[:, 1]}, index=np.arange(n)[::-1])
        self.deg = np.rad2deg(self.raw)
        self.obj = Circular(self.a.copy(), unit="radian")
        self.obj2 = Circular(self.b.copy(), unit="radian")
        self.binned = Circular(self.raw.copy(), unit="radian", bins=12)
        self.axial = Axial(np.mod(self.a, math.pi), unit="radian")
        self.kw_median = {"method": "count"}
        self.kw_mean_ci = {"method": "approximate"}
        self.cfg = {"rose": {"bins": 8, "counts": True}, "density": {"color": "blue"}, "mean": {"ci": True}, "median": False, "radius": {"lim_max": 3.0}}
        self.probs = np.array([0.25, 0.5, 0.75])
        self.order = np.array([3, 1, 2])
        self.beta0, self.gamma0 = np.array([0.1, -0.1]), np.array([0.05, 0.0])
        self.fn = ["P", "Q"]
        self.par = dict(mu=float(norm(c["mu"])), kappa=min(c["k"], 5.0), nu=0.4)
        form = c["form"]
        if form == "list":
            for k in ("a", "b", "raw", "w", "lin", "pair", "deg", "centres"):
                setattr(self, k, list(getattr(self, k)))
        elif form == "readonly":
            for v in list(vars(self).values()) + self.samples:
                if isinstance(v, np.ndarray):
                    v.setflags(write=False)

    def inputs(self):
        return canon(vars(self))


A = lambda s, k="a": np.asarray(getattr(s, k)) if isinstance(getattr(s, k), list) else getattr(s, k)     # functions documented for arrays get arrays
OPS = {}


def op(name, weight=1):
    def deco(f):
        OPS[name] = (f, weight)
        return f
    return deco


def simple(name, f, weight=1):
    OPS[name] = (f, weight)


# utilities
simple("data2rad", lambda s: U.data2rad(A(s, "deg"), k=360))
simple("rad2data", lambda s: U.rad2data(A(s), k=24))
simple("angmod", lambda s: U.angmod(A(s, "raw")))
simple("angmod_pi", lambda s: U.angmod(A(s, "raw"), bounds=[-np.pi, np.pi]))
simple("rotate", lambda s: U.rotate_data(A(s, "deg"), 30, unit="degree"))
simple("angular_distance", lambda s: U.angular_distance(A(s), 1.0))
# descriptive
simple("circ_mean_r", lambda s: D.circ_mean_and_r(A(s, "raw"), s.wfrac))
simple("circ_mean", lambda s: [D.circ_mean(A(s)), D.circ_r(A(s), s.wfrac)])
simple("moment", lambda s: [D.circ_moment(A(s), p=p, centered=True, w=s.wfrac) for p in (1, 2, 3)])
simple("shape", lambda s: [D.circ_dispersion(A(s), s.wfrac), D.circ_skewness(A(s), s.wfrac), D.circ_kurtosis(A(s), s.wfrac)])
simple("spread", lambda s: [D.angular_var(A(s)), D.angular_std(A(s)), D.circ_var(A(s)), D.circ_std(A(s), s.wfrac)])
simple("median", lambda s: [D.circ_median(A(s, "raw")), D.circ_median(A(s), method="count"), D.circ_median(A(s), return_average=False)])
simple("median_grouped", lambda s: D.circ_median(A(s, "centres"), w=A(s, "w")))
simple("median_ci", lambda s: D.circ_median_ci(alpha=A(s)))
simple("mean_ci", lambda s: [D.circ_mean_ci(A(s), method=m) for m in ("approximate", "dispersion")])
simple("mean_deviation", lambda s: [D.circ_mean_deviation(A(s), A(s, "b")), D.circ_mean_deviation_chunked(A(s), A(s, "b"), chunk_size=7)])
simple("distances", lambda s: [D.circ_dist(A(s), A(s, "pair")), D.circ_pairdist(A(s), A(s, "b"))])
simple("quantile", lambda s: D.circ_quantile(A(s), s.probs))
simple("range", lambda s: D.circ_range(A(s, "raw")))
simple("hdi", lambda s: D.compute_hdi(A(s, "raw"), ci=0.8))
simple("density", lambda s: D.nonparametric_density_estimation(A(s, "raw"), 0.6))
simple("mean_of_means", lambda s: [D.circ_mean_and_r_of_means(circs=[s.obj, s.obj2])])
# correlation
simple("corr_fl", lambda s: K.circ_corrcc(s.a, s.pair, test=True))
simple("corr_js", lambda s: K.circ_corrcc(s.obj, s.pair, method="js", test=True))
simple("corr_np", lambda s: K.circ_corrcc(s.a, s.pair, method="nonparametric", test=True))
simple("corr_cl", lambda s: K.circ_corrcl(s.a, s.lin))
# tests
simple("rayleigh", lambda s: H.rayleigh_test(A(s)))
simple("rayleigh_grouped", lambda s: H.rayleigh_test(A(s, "centres"), w=A(s, "w")))
simple("rayleigh_boot", lambda s: H.rayleigh_test(A(s), B=40, seed=7))
simple("chisquare", lambda s: H.chisquare_test(A(s, "w")))
simple("v_test", lambda s: H.V_test(1.0, A(s)) if hasattr(H, "V_test") else None)
simple("one_sample", lambda s: H.one_sample_test(1.0, A(s)))
simple("omnibus", lambda s: H.omnibus_test(A(s, "raw")))
simple("batschelet", lambda s: H.batschelet_test(1.0, A(s, "raw")))
simple("symmetry", lambda s: H.symmetry_test(A(s, "raw")))
simple("binomial", lambda s: H.binomial_test(A(s), 1.0))
simple("range_test", lambda s: H.circ_range_test(A(s, "raw")))
simple("kuiper", lambda s: H.kuiper_test(A(s), n_simulation=50, seed=3))
simple("watson", lambda s: H.watson_test(A(s), n_simulation=50, seed=3))
simple("rao", lambda s: H.rao_spacing_test(A(s), n_simulation=50, seed=3))
simple("rao_grouped", lambda s: H.rao_spacing_test(A(s, "centres"), w=A(s, "w"), n_simulation=30, seed=3))
simple("change_point", lambda s: H.change_point_test(A(s)))
simple("watson_williams", lambda s: H.watson_williams_test(s.samples))
simple("watson_williams_obj", lambda s: H.watson_williams_test([s.obj, s.obj2]))
simple("watson_u2", lambda s: [H.watson_u2_test(s.samples[:2]), H.watson_u2_test([s.obj, s.obj2])])
simple("wheeler", lambda s: [H.wheeler_watson_test(s.samples), H.wheeler_watson_test([s.obj, s.obj2])])
simple("wallraff", lambda s: [H.wallraff_test(s.samples[:2], angle=0.5), H.wallraff_test([s.obj, s.obj2])])
simple("anova", lambda s: [H.circ_anova(s.samples), H.circ_anova(s.samples, method="LRT")])
simple("art", lambda s: H.angular_randomisation_test(s.samples[:2], n_simulation=25, seed=5))
simple("concentration", lambda s: H.concentration_test(A(s), A(s, "b")))
simple("homogeneity", lambda s: H.rao_homogeneity_test(s.samples))
simple("harrison_kanji", lambda s: H.harrison_kanji_test(A(s), s.idp, s.idq, fn=s.fn))
simple("equal_kappa", lambda s: H.equal_kappa_test(s.samples))
simple("common_median", lambda s: H.common_median_test(s.samples))


@op("verbose")
def _verbose(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return [H.rayleigh_test(A(s), verbose=True), H.watson_williams_test(s.samples, verbose=True), H.harrison_kanji_test(A(s), s.idp, s.idq, fn=s.fn, verbose=True)]


# regression
def reg(m):
    return m.result


simple("cl_mean", lambda s: reg(RG.CLRegression(theta=s.a, X=s.X, model_type="mean", beta0=s.beta0)))
simple("cl_mixed", lambda s: reg(RG.CLRegression(theta=s.a, X=s.X, model_type="mixed", beta0=s.beta0, gamma0=s.gamma0, max_iter=15)))
simple("cl_kappa_formula", lambda s: reg(RG.CLRegression("θ ~ x + z", s.df, model_type="kappa", max_iter=15)))
simple("cc", lambda s: reg(RG.CCRegression(theta=s.a, x=s.pair, order=2)))
simple("cc_formula", lambda s: reg(RG.CCRegression("θ ~ psi", s.df)))


@op("cl_predict")
def _cl_predict(s):
    m = RG.CLRegression("θ ~ x + z", s.df, model_type="mean")
    with contextlib.redirect_stdout(io.StringIO()):
        m.summary()
    return [m.predict(s.X), m.predict(s.X[:3]), m.AIC(), m.BIC()]


# objects
simple("circular", lambda s: Circular(s.raw, unit="radian", kwargs_median=s.kw_median, kwargs_mean_ci=s.kw_mean_ci), 2)
simple("circular_deg", lambda s: Circular(s.deg), 2)
simple("circular_rotated", lambda s: Circular(s.raw, unit="radian", rotate=0.7))
simple("circular_bins", lambda s: Circular(s.raw, unit="radian", bins=9))
simple("circular_grouped", lambda s: Circular(s.centres, w=s.w, unit="radian"), 2)
simple("axial_new", lambda s: Axial(s.deg))
simple("axial_bins", lambda s: Axial(s.deg, bins=6))
simple("mixtures", lambda s: Circular(s.a, unit="radian", n_clusters_max=2))
simple("summary", lambda s: [s.obj.summary(), str(s.axial), repr(s.binned)])


# clustering
def clus(m, X):
    m.fit(X)
    return {k: canon(v) for k, v in vars(m).items() if not k.startswith("_")}


simple("movm", lambda s: clus(CL.MovM(n_clusters=2, n_iters=8, unit="radian", random_seed=1), A(s)))
simple("mokj", lambda s: clus(CL.MoKJ(n_clusters=2, n_iters=5, unit="radian", random_seed=1), A(s)))
simple("mocd", lambda s: clus(CL.MoCD(CL_FAMILY, n_clusters=2, n_iters=5, unit="radian", random_seed=1), A(s)) if CL_FAMILY is not None else None)
simple("kmeans", lambda s: clus(CL.CircKMeans(n_clusters=3, unit="radian", random_seed=1), A(s)))
simple("hac", lambda s: clus(CL.CircHAC(n_clusters=3, unit="radian"), A(s)))
CL_FAMILY = DI.vonmises


@op("movm_predict")
def _movm(s):
    m = CL.MovM(n_clusters=2, n_iters=8, unit="radian", random_seed=1)
    m.fit(A(s))
    return [m.predict(A(s)), m.predict_density(x=s.centres, unit="radian"), m.compute_BIC(), m.predict(s.samples[1])]


# distributions
simple("vm_fit", lambda s: [DI.vonmises.fit(A(s, "raw")), DI.vonmises.fit(A(s), weights=s.wfrac)])
simple("cardioid_fit", lambda s: DI.cardioid.fit(A(s, "raw")))
simple("vm_eval", lambda s: [DI.vonmises.pdf(A(s, "raw"), s.par["mu"], s.par["kappa"]), DI.vonmises.cdf(A(s), s.par["mu"], s.par["kappa"]), DI.vonmises.ppf(s.probs, s.par["mu"], s.par["kappa"])])
simple("vmft_eval", lambda s: [DI.vonmises_flattopped.pdf(A(s), s.par["mu"], s.par["kappa"], s.par["nu"]), DI.vonmises_flattopped.cdf(A(s), s.par["mu"], s.par["kappa"], s.par["nu"]), DI.vonmises_flattopped.ppf(s.probs, s.par["mu"], s.par["kappa"], s.par["nu"])])
simple("jp_eval", lambda s: [DI.jonespewsey.pdf(A(s), s.par["mu"], s.par["kappa"], s.par["nu"]), DI.jonespewsey.cdf(A(s), s.par["mu"], s.par["kappa"], s.par["nu"])])
simple("rvs", lambda s: [DI.vonmises.rvs(s.par["mu"], s.par["kappa"], size=9, random_state=4), DI.wrapcauchy.rvs(s.par["mu"], 0.4, size=9, random_state=4)])


# plots
@op("plot")
def _plot(s):
    try:
        ax = s.obj.plot(config=s.cfg)
        return [[np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)] for ln in ax.lines] + [[p.get_height(), p.get_x()] for p in ax.patches]
    finally:
        plt.close("all")


@op("plot_other")
def _plot2(s):
    try:
        fig, ax = plt.subplots(1, 2, subplot_kw=dict(projection="polar"))
        VZ.circ_plot(s.binned, ax=ax[0]); VZ.circ_plot(s.axial, ax=ax[1], config={"rose": True, "density": False})
        return [[np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)] for a in ax for ln in a.lines]
    finally:
        plt.close("all")


NAMES_OPS = list(OPS)
PICK = st.sampled_from([n for n in NAMES_OPS for _ in range(OPS[n][1])])
REFUSED = (ValueError, TypeError)


def run(name, s):
    with contextlib.redirect_stdout(io.StringIO()):
        return OPS[name][0](s)


def outcome(name, s):
    """Result, or the refusal: some inputs are outside some functions' domain, which has to be just as repeatable."""
    try:
        return run(name, s)
    except (ValueError, AssertionError) as e:
        return f"refused: {type(e).__name__}"


@facet("C04", "histories", st.fixed_dictionaries(dict(s=STATE, ops=st.lists(PICK, min_size=2, max_size=7))), quick=900, thorough=20000, shards=8, rule="at least two different operations")
def c04_histories(c, t):
    s = State(c["s"])
    before = s.inputs()
    defaults = canon(VZ.DEFAULT_CIRC_PLOT_CONFIG)
    kept, frozen = [], []
    for name in c["ops"]:
        res = outcome(name, s)
        after = s.inputs()
        bad = same(before, after, rtol=0.0)
        t.true(bad is None, f"{name} modified its inputs: {bad}")
        for (n2, r2), f2 in zip(kept, frozen):
            bad = same(f2, canon(r2), rtol=0.0)
            t.true(bad is None, f"{name} changed the earlier result of {n2}: {bad}")
        t.true(same(defaults, canon(VZ.DEFAULT_CIRC_PLOT_CONFIG)) is None, f"{name} changed the plotting defaults")
        kept.append((name, res)); frozen.append(canon(res))
        if isinstance(res, str) and res.startswith("refused"):
            t.label(f"{name} {res}")
    for name, f in zip(c["ops"], frozen):
        again = canon(outcome(name, s))
        bad = same(f, again) or same(again, f)
        t.true(bad is None, f"{name} repeated after {c['ops']} differs: {bad}")
        fresh = canon(outcome(name, State(c["s"])))
        bad = same(f, fresh)
        t.true(bad is None, f"{name} on fresh equal data differs: {bad}")
    t.nontrivial(len(set(c["ops"])) > 1)


@facet("C04", "each_operation", st.fixed_dictionaries(dict(s=STATE, i=st.integers(0, len(NAMES_OPS) - 1))), quick=900, thorough=20000, shards=4, rule="always",
       examples=[dict(s=dict(n=30, mu=0.3, k=2.0, seed=5, grid=g, turns=[1, 0], form=fm), i=i) for i in range(len(NAMES_OPS)) for g, fm in ((0, "array"), (24, "readonly"))])
def c04_each(c, t):
    """Every operation on the list, also with data that cannot be written to."""
    s = State(c["s"])
    before = s.inputs()
    name = NAMES_OPS[c["i"]]
    r1 = outcome(name, s)
    f1 = canon(r1)
    bad = same(before, s.inputs(), rtol=0.0)
    t.true(bad is None, f"{name} modified its inputs: {bad}")
    r2 = outcome(name, s)
    bad = same(f1, canon(r2))
    t.true(bad is None, f"{name} called twice differs: {bad}")
    t.true(same(f1, canon(r1), rtol=0.0) is None, f"the second {name} changed the result of the first")
    if c["s"]["form"] == "readonly":
        plain = canon(outcome(name, State({**c["s"], "form": "array"})))
        bad = same(plain, f1)
        t.true(bad is None, f"{name} on read-only data differs: {bad}")
    t.nontrivial()


# ------------------------------------------------------------------ C05
PROCS = {}
PROCS["rayleigh"] = lambda s, seed: H.rayleigh_test(A(s), B=60, seed=seed)
PROCS["art"] = lambda s, seed: H.angular_randomisation_test(s.samples[:2], n_simulation=60, seed=seed)
PROCS["kuiper"] = lambda s, seed: H.kuiper_test(A(s), n_simulation=60, seed=seed)
PROCS["watson"] = lambda s, seed: H.watson_test(A(s), n_simulation=60, seed=seed)
PROCS["rao"] = lambda s, seed: H.rao_spacing_test(A(s), n_simulation=60, seed=seed)
PROCS["rao_grouped"] = lambda s, seed: H.rao_spacing_test(A(s, "centres"), w=A(s, "w"), n_simulation=60, seed=seed)
TESTS = list(PROCS)


def _rvs(fam, size=12):
    f = FAMILIES[fam]

    def go(s, seed):
        par = RVS_PAR[fam]
        return f.dist.rvs(*par, size=size, random_state=seed) if par is not None else f.dist.rvs(size=size, random_state=seed)
    return go


RVS_PAR = dict(circularuniform=(), cardioid=(1.0, 0.3), cartwright=(1.0, 0.8), wrapnorm=(1.0, 0.5), wrapcauchy=(1.0, 0.5), vonmises=(1.0, 2.0), vonmises_flattopped=(1.0, 2.0, 0.4),
               jonespewsey=(1.0, 2.0, 0.5), jonespewsey_sineskewed=(1.0, 1.0, 0.5, 0.4), jonespewsey_asym=(1.0, 1.0, 0.5, 0.4), inverse_batschelet=(1.0, 2.0, 0.3, 0.2), wrapstable=(1.0, 1.2, 0.3, 0.5), katojones=(1.0, 0.4, 0.2, 0.5))
DISTS = [n for n in RVS_PAR if hasattr(DI, n)]
for _n in DISTS:
    PROCS["rvs_" + _n] = (lambda nm: lambda s, seed: getattr(DI, nm).rvs(*RVS_PAR[nm], size=12, random_state=seed))(_n)
RVS = ["rvs_" + n for n in DISTS]
PROCS["frozen_rvs"] = lambda s, seed: DI.vonmises(1.0, 2.0).rvs(size=12, random_state=seed)
CLUST = ["movm", "movm_q", "mokj", "mocd_vm", "mocd_cardioid", "kmeans"]
PROCS["movm"] = lambda s, seed: clus(CL.MovM(n_clusters=3, n_iters=6, unit="radian", random_seed=seed), A(s))
PROCS["movm_q"] = lambda s, seed: clus(CL.MovM(n_clusters=3, n_iters=6, burnin=2, unit="radian", random_seed=seed), s.samples[1])
PROCS["mokj"] = lambda s, seed: clus(CL.MoKJ(n_clusters=2, n_iters=4, unit="radian", random_seed=seed), A(s))
PROCS["mocd_vm"] = lambda s, seed: clus(CL.MoCD(DI.vonmises, n_clusters=3, n_iters=4, unit="radian", random_seed=seed), A(s))
PROCS["mocd_cardioid"] = lambda s, seed: clus(CL.MoCD(DI.wrapcauchy, n_clusters=2, n_iters=4, unit="radian", random_seed=seed), A(s))
PROCS["kmeans"] = lambda s, seed: clus(CL.CircKMeans(n_clusters=3, unit="radian", random_seed=seed), A(s))
# hierarchical clustering that starts from a seeded k-means
spread = lambda s: np.random.default_rng([s.spec["seed"] if hasattr(s, "spec") else 7, 5]).uniform(0, 2 * np.pi, 60)
PROCS["hac_pre"] = lambda s, seed: clus(CL.CircHAC(n_clusters=3, n_init_clusters=9, unit="radian", random_seed=seed), spread(s))
PROCS["hac_pre_data"] = lambda s, seed: clus(CL.CircHAC(n_clusters=2, n_init_clusters=4, unit="degree", metric="geodesic", random_seed=seed), np.rad2deg(np.r_[A(s), spread(s)[:20]]))
PROCS["kmeans_spread"] = lambda s, seed: clus(CL.CircKMeans(n_clusters=6, unit="radian", random_seed=seed), spread(s))
CLUST += ["hac_pre", "hac_pre_data", "kmeans_spread"]
SEED = st.one_of(st.integers(0, 2**31 - 1), st.sampled_from([0, 0, 1, 2046]))
PROC = st.sampled_from(sorted(PROCS))
DISTURB = st.one_of(st.builds(lambda k: ["np_seed", k], st.integers(0, 2**31)), st.builds(lambda k: ["np_draw", k], st.integers(1, 50)), st.builds(lambda p, s: ["proc", p, s], PROC, SEED),
                    st.builds(lambda n: ["unseeded", n], st.sampled_from(RVS)))


def gstate():
    k, v, p, h, cg = np.random.get_state()
    return (k, v.copy(), p, h, cg)


def geq(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


@facet("C05", "isolation", st.fixed_dictionaries(dict(s=STATE, p=PROC, seed=SEED, dist=st.lists(DISTURB, min_size=1, max_size=4))), quick=800, thorough=15000, shards=8, rule="a different procedure or the global generator runs in between")
def c05_isolation(c, t):
    s = State({**c["s"], "form": "array"})
    first = canon(PROCS[c["p"]](s, c["seed"]))
    for d in c["dist"]:
        if d[0] == "np_seed":
            np.random.seed(d[1] % 2**32)
            t.nontrivial()
        elif d[0] == "np_draw":
            np.random.random(d[1])
            t.nontrivial()
        else:
            g0 = gstate()
            if d[0] == "proc":
                PROCS[d[1]](s, d[2])
                t.nontrivial(d[1] != c["p"])
            else:
                PROCS[d[1]](s, None)
                t.nontrivial()
                g0 = gstate()           # an unseeded draw may take its seed from the global generator
            t.true(geq(g0, gstate()), f"{d[1]} disturbed the global generator")
    g0 = gstate()
    again = canon(PROCS[c["p"]](s, c["seed"]))
    t.true(geq(g0, gstate()), f"{c['p']} disturbed the global generator")
    bad = same(first, again, rtol=0.0)
    t.true(bad is None, f"{c['p']} with seed {c['seed']} is not reproducible after {c['dist']}: {bad}")
    t.label(c["p"])


@facet("C05", "generators", st.fixed_dictionaries(dict(s=STATE, p=st.sampled_from(RVS + TESTS + ["frozen_rvs"]), seed=SEED, other=SEED)), quick=700, thorough=10000, shards=4, rule="always")
def c05_generators(c, t):
    """A supplied generator is the only source of randomness and is advanced; draws under different seeds differ."""
    s = State({**c["s"], "form": "array"})
    f = PROCS[c["p"]]
    g0 = gstate()
    g1, g2 = np.random.default_rng(c["seed"]), np.random.default_rng(c["seed"])
    r1 = canon(f(s, g1))
    t.true(canon(g1)["state"] != canon(np.random.default_rng(c["seed"]))["state"], f"{c['p']} did not draw from the generator it was given")
    r2 = canon(f(s, g2))
    bad = same(r1, r2, rtol=0.0)
    t.true(bad is None, f"{c['p']} with equal generators differs: {bad}")
    t.true(same(canon(g1), canon(g2)) is None, "equal calls leave equal generators")
    if c["p"] in RVS + ["frozen_rvs"]:
        r3 = canon(f(s, g1))
        t.true(same(r1, r3) is not None, f"{c['p']}: the second sample from one generator repeats the first")
        a, b = canon(f(s, c["seed"])), canon(f(s, c["other"]))
        t.true((same(a, b, rtol=0.0) is None) == (c["seed"] == c["other"]), f"{c['p']}: seeds {c['seed']} and {c['other']} give {'different' if c['seed'] == c['other'] else 'equal'} samples")
        t.true(geq(g0, gstate()), f"{c['p']} disturbed the global generator")
        u, v = canon(f(s, None)), canon(f(s, None))          # the first unseeded draw may take its seed from the global generator
        t.true(same(u, v) is not None, f"{c['p']}: unseeded samples repeat")
        g0 = gstate()
        rs = canon(f(s, np.random.RandomState(c["seed"] % 2**32)))
        t.true(same(rs, canon(f(s, np.random.RandomState(c["seed"] % 2**32)))) is None, f"{c['p']}: equal RandomStates differ")
    else:
        s2 = State(dict(n=26, mu=0.0, k=0.25, seed=c["seed"], grid=0, turns=[0], form="array"))
        ps = [float(np.atleast_1d(getattr(f(s2, sd), [k for k in ("bootstrap_pval", "pval") if hasattr(f(s2, 0), k)][0]))[0]) for sd in range(c["other"] % 1000, c["other"] % 1000 + 8)]
        if 0.1 < np.mean(ps) < 0.9:
            t.true(len(set(ps)) > 1, f"{c['p']}: eight seeds give the same p-value {ps[0]}")
    t.true(geq(g0, gstate()), f"{c['p']} disturbed the global generator")
    t.nontrivial(); t.label(c["p"])


@facet("C05", "clustering_seeds", st.fixed_dictionaries(dict(s=STATE, p=st.sampled_from(CLUST), seed=SEED)), quick=300, thorough=4000, shards=4, rule="always")
def c05_clustering(c, t):
    """Clustering: the seed decides everything, and it matters."""
    s = State({**c["s"], "form": "array"})
    f = PROCS[c["p"]]
    a, b = canon(f(s, c["seed"])), canon(f(s, c["seed"]))
    t.true(same(a, b, rtol=0.0) is None, f"{c['p']} with equal seeds differs: {same(a, b, rtol=0.0)}")
    if c["p"] in ("movm", "movm_q", "mocd_vm", "hac_pre", "kmeans_spread"):         # the others start from a clustering that can be the same for every seed
        rs = [f(s, c["seed"] % 10**6 + k) for k in range(1, 6)]
        t.true(any(same(canon(rs[0]), canon(r)) is not None for r in rs[1:]), f"{c['p']}: five seeds give identical fits")
    t.nontrivial(); t.label(c["p"])
