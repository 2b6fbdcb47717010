import copy, math
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from hypothesis import strategies as st
from pycircstat2 import Circular, Axial
import pycircstat2.visualization as VZ
from pycircstat2.visualization import circ_plot
from pycircstat2.descriptive import compute_smooth_params, nonparametric_density_estimation
from core import facet, Skip
from gen import *

COL = {"scatter": "#101010", "rose": "#208020", "density": "#0000f0", "mean": "#f00000", "median": "#f000f0"}
ZERO = {"N": math.pi / 2, "E": 0.0, "S": -math.pi / 2, "W": math.pi, "NE": math.pi / 4, "SW": -3 * math.pi / 4}


LS = {"dotted": ":", "solid": "-", "dashed": "--"}


def feature(**opts):
    return st.one_of(st.just(False), st.just(True), st.fixed_dictionaries({}, optional=opts))


CFG = st.fixed_dictionaries({}, optional=dict(
    grid=st.booleans(), spine=st.booleans(), axis=st.booleans(), outward=st.booleans(), zero_location=st.sampled_from(sorted(ZERO)), clockwise=st.sampled_from([-1, 1]),
    radius=st.fixed_dictionaries({}, optional=dict(ticks=st.sampled_from([[1], [0, 1], [0, 0.5, 1]]), lim_max=st.one_of(st.none(), finite(1.1, 4.0)))),
    scatter=st.fixed_dictionaries({}, optional=dict(marker=st.sampled_from(["o", "s", "x"]), size=st.integers(1, 40), r_start=finite(0.8, 1.5))),
    rose=feature(bins=st.integers(2, 48), counts=st.booleans(), alpha=finite(0.1, 1.0), edgecolor=st.just("white")),
    density=feature(linestyle=st.sampled_from(["-", "--"]), h0=finite(0.05, 2.5), method=st.just("nonparametric")),
    mean=feature(ci=st.booleans(), linestyle=st.sampled_from(["-", ":"])), median=feature(ci=st.booleans(), linestyle=st.sampled_from(["-", ":"])), legend=st.booleans()))
OBJ = st.fixed_dictionaries(dict(s=spread_sample(2, 45), kind=st.sampled_from(["circular", "circular", "circular", "axial", "binned", "grouped"]), unit=st.sampled_from(["radian", "degree", "hour", "hour12"]),
                                 turns=SHIFT, k=st.integers(3, 36), w=st.lists(st.integers(0, 9), min_size=36, max_size=36), off=ANGLE))


def build(o):
    kw = dict(radian=dict(unit="radian"), degree=dict(unit="degree"), hour=dict(unit="hour"), hour12=dict(unit="hour", full_cycle=12))[o["unit"]]
    full = dict(radian=TWO_PI, degree=360.0, hour=24.0, hour12=12.0)[o["unit"]]
    a = angles(o["s"])
    if o["kind"] == "grouped":
        w = np.array(o["w"][:o["k"]])
        if w.sum() < 2:
            raise Skip()
        return Circular(np.arange(o["k"]) / o["k"] * full, w=w, **kw), full
    d = add_turns(a, o["turns"]) / TWO_PI * full
    if o["kind"] == "binned":
        return Circular(d, bins=o["k"], **kw), full
    if o["kind"] == "axial":
        return Axial(d, **kw), full
    return Circular(d, **kw), full


def merged(cfg):
    """The configuration a reader of the documentation expects: defaults overridden by what was given."""
    out = copy.deepcopy(VZ.DEFAULT_CIRC_PLOT_CONFIG)
    for k, v in cfg.items():
        if isinstance(v, dict):
            out[k] = {**(out[k] if isinstance(out[k], dict) else {}), **v}
        elif v is True and isinstance(out[k], dict):
            pass
        else:
            out[k] = v
    return out


def coloured(cfg):
    cfg = copy.deepcopy(cfg)
    for k, col in COL.items():
        v = cfg.get(k, {})
        if v is False:
            continue
        cfg[k] = {**(v if isinstance(v, dict) else {}), "color": col}
    return cfg


def lines_of(ax, col):
    return [ln for ln in ax.lines if to_rgba(ln.get_color()) == to_rgba(col)]


def arcs(lines, radius):
    return [ln for ln in lines if len(ln.get_xdata()) >= 3 and np.allclose(np.asarray(ln.get_ydata(), float), radius, atol=1e-9)]


def check_direction(t, ax, name, value, length, lb, ub, want_ci, period, arc_radius, style):
    lines = lines_of(ax, COL[name])
    main = [ln for ln in lines if ln.get_label() == name]
    t.true(len(main) == 1, f"one line labelled {name} (found {len(main)})")
    x, y = np.asarray(main[0].get_xdata(), float), np.asarray(main[0].get_ydata(), float)
    t.true(main[0].get_linestyle() == style, f"{name} line style {main[0].get_linestyle()} want {style}")
    if not np.isnan(value):
        t.angle_close(x[-1], value, f"{name} line points at the {name}", atol=1e-9)
        t.close(y[[0, -1]], [0.0, length], f"{name} line runs from the centre", atol=1e-9)
    found = [ln for ln in arcs(lines, arc_radius) if np.all(np.isfinite(np.asarray(ln.get_xdata(), float)))]
    if want_ci and not np.isnan(lb):
        t.true(len(found) == 1, f"one {name} interval arc (found {len(found)})")
        v = np.asarray(found[0].get_xdata(), float)
        t.angle_close(v[0], lb, f"{name} arc starts at the lower bound", atol=1e-9, period=period)
        t.angle_close(v[-1], ub, f"{name} arc ends at the upper bound", atol=1e-9, period=period)
        span = (ub - lb) % period
        if min(span, period - span) > 1e-9:
            t.close(v[-1] - v[0], span, f"{name} arc runs from the lower to the upper bound the short way round", atol=1e-9)
        elif lb == ub:          # bounds apart by rounding only are indistinguishable from a full turn
            t.true(abs(v[-1] - v[0]) < 1e-6, f"an interval of no width is drawn with no width, not {v[-1] - v[0]}")
        t.true(np.all(np.diff(v) >= -1e-12), "arc is drawn in one direction")
        t.label(f"{name} interval")
        if lb > ub:
            t.label(f"{name} interval across origin")
    else:
        t.true(len(found) == 0, f"no {name} interval arc expected")


def check_content(t, c, full, o, cfg, ax):
    g = merged(cfg)
    axial = isinstance(c, Axial)
    period = math.pi if axial else TWO_PI
    if not c.grouped:
        # every observation once, at its angle, ties stacked
        sc = [s for s in ax.collections if len(s.get_offsets()) == c.n]
        t.true(len(sc) == 1, f"one scatter with {c.n} points (found {[len(s.get_offsets()) for s in ax.collections]})")
        off = np.ma.getdata(sc[0].get_offsets()).astype(float)
        want = angles(o["s"])
        th = np.sort(norm(off[:, 0]))
        d = np.min(np.abs(np.exp(1j * np.sort(norm(want)))[:, None] - np.exp(1j * th)[None, :]), axis=1)
        t.true(np.max(d) < 0.00055, f"an observation is drawn {np.max(d):.4f} rad from every point")
        ws, i = np.sort(norm(want)), 0
        if ws[-1] < TWO_PI - 0.002 and ws[0] > 0.002 and np.min(th) > 0.001:
            t.true(np.max(np.abs(ws - th)) < 0.00055, "points are the observations to within the stacking resolution")
        t.true(to_rgba(sc[0].get_facecolor()[0]) == to_rgba(COL["scatter"]) or g["scatter"]["marker"] == "x" and to_rgba(sc[0].get_edgecolor()[0]) == to_rgba(COL["scatter"]), "requested scatter colour")
        t.close(np.asarray(sc[0].get_sizes(), float), np.array([float(g["scatter"]["size"])]), "requested marker size")
        r0, sgn = g["scatter"]["r_start"], (1 if g["outward"] else -1)
        for v in np.unique(off[:, 0]):
            rr = np.sort(sgn * (off[off[:, 0] == v, 1] - r0))
            t.close(rr, 0.05 * (1 + np.arange(len(rr))), f"observations at {v} are stacked", atol=1e-9)
        u = np.unique(off[:, 0])
        t.true(len(u) == 1 or np.min(np.diff(u)) > 0.0005, "equal observations share one stack")
        lim = g["radius"]["lim_max"]
        if lim is None:
            t.true(ax.get_ylim()[1] >= np.max(off[:, 1]), "no observation lies outside the plotting region")
        else:
            t.close(ax.get_ylim()[1], lim, "requested radial limit")
    dens = lines_of(ax, COL["density"]) if not c.grouped else [ln for ln in ax.lines if len(ln.get_xdata()) >= 90 and not arcs([ln], 0.95)]
    t.true(len(dens) == (1 if g["density"] is not False and (not c.grouped or g["rose"] is not False) else 0), f"density lines: {len(dens)}")
    if dens and not c.grouped:
        h0 = g["density"].get("h0", compute_smooth_params(c.r, c.n))
        x, f = nonparametric_density_estimation(np.asarray(c.alpha), h0)
        t.close(np.asarray(dens[0].get_xdata(), float), x, "density angles")
        t.close(np.asarray(dens[0].get_ydata(), float), f + 1.05, "density heights", rtol=1e-9)
        t.true(dens[0].get_linestyle() == g["density"]["linestyle"], f"density line style {dens[0].get_linestyle()}")
    if dens and c.grouped:
        y = np.asarray(dens[0].get_ydata(), float) - 1
        t.true(np.all(np.isfinite(y)) and np.all(y >= -1e-12) and (np.max(y) > 0 or g["density"].get("h0", compute_smooth_params(c.r, c.n)) < 0.1), "grouped density is a density")
    bars = [p for p in ax.patches if hasattr(p, "get_width") and to_rgba(p.get_facecolor())[:3] == to_rgba(COL["rose"])[:3]]
    if g["rose"] is False:
        t.true(not bars, "no rose bars expected")
    else:
        if c.grouped:
            want_w, centres = np.asarray(c.w, float), np.asarray(c.alpha, float)
        else:
            nb = g["rose"]["bins"]
            a = norm(angles(o["s"]) if not axial else np.asarray(c.alpha))
            pos = a / (TWO_PI / nb)
            if np.any(np.abs(pos - np.rint(pos)) < 1e-9):
                want_w = None
            else:
                want_w = np.bincount(np.floor(pos).astype(int), minlength=nb).astype(float)
            centres = (np.arange(nb) + 0.5) * TWO_PI / nb
        t.true(len(bars) == len(centres), f"{len(centres)} rose bars (found {len(bars)})")
        got_c = np.array([p.get_x() + p.get_width() / 2 for p in bars])
        t.angle_close(got_c, centres, "rose bars sit at the bin centres", atol=1e-9)
        if not axial:
            t.close(np.array([p.get_width() for p in bars]), np.full(len(bars), TWO_PI / len(centres)), "rose bars are as wide as their bins", atol=1e-9)
        t.close(np.array([p.get_facecolor()[3] for p in bars]), np.full(len(bars), g["rose"]["alpha"]), "requested transparency", atol=1e-9)
        t.true(all(to_rgba(p.get_edgecolor())[:3] == to_rgba(g["rose"]["edgecolor"])[:3] for p in bars), "requested edge colour")
        hts = np.array([p.get_height() for p in bars])
        if want_w is not None:
            t.close(hts, np.sqrt(want_w / want_w.max()), "bar areas are proportional to the counts", atol=1e-9)
            texts = [x for x in ax.texts]
            if g["rose"].get("counts"):
                shown = sorted((round(float(np.mod(x.get_position()[0], TWO_PI)), 3), float(x.get_text())) for x in texts)
                expect = sorted((round(float(np.mod(np.round(b, 3), TWO_PI)), 3), w) for b, w in zip(centres, want_w) if w)
                t.close(np.array(shown).reshape(-1, 2), np.array(expect).reshape(-1, 2), "bin counts are written at their bins", atol=2e-3)
            else:
                t.true(not texts, "no count labels expected")
        if not axial:
            total = hts**2
            t.close(total.sum() * 0 + np.sum(np.rint(total / total[total > 0].min() * 1e6) > 0), np.count_nonzero(hts), "non-empty bars")
    if g["mean"] is not False:
        check_direction(t, ax, "mean", c.mean, c.r, c.mean_lb, c.mean_ub, g["mean"]["ci"], period, c.r, LS.get(g["mean"]["linestyle"], g["mean"]["linestyle"]))
    else:
        t.true(not lines_of(ax, COL["mean"]), "no mean expected")
    if g["median"] is not False:
        check_direction(t, ax, "median", c.median, 0.95, getattr(c, "median_lb", np.nan), getattr(c, "median_ub", np.nan), g["median"]["ci"], period, 0.95, LS.get(g["median"]["linestyle"], g["median"]["linestyle"]))
    else:
        t.true(not lines_of(ax, COL["median"]), "no median expected")
    t.angle_close(ax.get_theta_offset(), ZERO[g["zero_location"]], "zero direction", atol=1e-9)
    t.true(ax.get_theta_direction() == g["clockwise"], f"direction of rotation {ax.get_theta_direction()}")
    t.true(bool(ax.spines["polar"].get_visible()) == bool(g["spine"]), f"spine visibility {ax.spines['polar'].get_visible()}")
    t.true(bool(ax.axison) == bool(g["axis"]), "axis visibility")
    t.true(bool(ax.xaxis.get_gridlines()[0].get_visible()) == bool(g["grid"]), "grid visibility")
    t.true((ax.get_legend() is not None) == bool(g["legend"] and (g["mean"] is not False or g["median"] is not False)), "legend visibility")
    if g["rose"] is not False:
        lim, locs = ax.get_ylim(), np.asarray(ax.yaxis.get_ticklocs(), float)
        for v in g["radius"]["ticks"]:
            t.true(v <= lim[0] or v > lim[1] or np.any(np.abs(locs - v) < 1e-9), f"radial tick {v} among {locs}")
    if c.unit == "hour":
        loc = np.asarray(ax.xaxis.get_major_locator()(), float)
        for p, s in zip(loc, ax.xaxis.get_major_formatter().format_ticks(loc)):
            h, m = s.split(":")
            t.true(abs((int(h) + int(m) / 60) - p / TWO_PI * full) < 0.02, f"label {s!r} at {p / TWO_PI * full} hours of {full}")


@facet("V01", "content", st.fixed_dictionaries(dict(o=OBJ, cfg=CFG)), quick=420, thorough=8000, shards=8, rule="at least one of density, rose, mean and median drawn")
def v01_content(c, t):
    try:
        obj, full = build(c["o"])
        cfg = coloured(c["cfg"])
        given = copy.deepcopy(cfg)
        default = copy.deepcopy(VZ.DEFAULT_CIRC_PLOT_CONFIG)
        ax = obj.plot(config=cfg)
        t.true(ax is not None and hasattr(ax, "lines"), "the plot method returns the axes")
        check_content(t, obj, full, c["o"], cfg, ax)
        t.true(cfg == given, "the configuration given is left alone")
        t.true(VZ.DEFAULT_CIRC_PLOT_CONFIG == default, "the defaults are left alone")
        g = merged(cfg)
        t.nontrivial(any(g[k] is not False for k in ("density", "rose", "mean", "median")))
        t.label(c["o"]["kind"])
    finally:
        plt.close("all")


@facet("V01", "rendering", st.fixed_dictionaries(dict(o=OBJ, cfg=CFG, seed=SEEDS, default=st.booleans())), quick=100, thorough=2000, shards=8, rule="always")
def v01_rendering(c, t):
    """Default and drawn configurations render on given axes and leave their neighbours alone."""
    try:
        obj, full = build(c["o"])
        fig = plt.figure(figsize=(6, 3))
        left, right = fig.add_subplot(1, 2, 1, projection="polar"), fig.add_subplot(1, 2, 2, projection="polar")
        other = plt.figure()
        oax = other.add_subplot()          # the current axes are not the given ones
        cfg = {} if c["default"] else copy.deepcopy(c["cfg"])
        ret = circ_plot(obj, ax=left, config=cfg or None) if c['seed'] % 2 else obj.plot(ax=left, config=cfg or None)
        t.true(ret is left, "the given axes are returned")
        t.true(len(plt.get_fignums()) == 2, "no other figure is made")
        for ax in (right, oax):
            t.true(not ax.lines and not ax.patches and not ax.collections and not ax.texts, "other axes are left alone")
            t.true(ax.get_legend() is None and ax.axison, "other axes keep their settings")
        t.true(right.get_theta_direction() == 1 and right.get_theta_offset() == 0, "other axes keep their orientation")
        t.true(len(left.lines) + len(left.patches) + len(left.collections) > 0 or obj.grouped, "something is drawn")
        fig.canvas.draw()
        img = np.asarray(fig.canvas.buffer_rgba())
        t.true(np.all(np.isfinite(img)), "image")
        t.nontrivial()
        t.label(c["o"]["kind"])
    finally:
        plt.close("all")


@facet("V01", "density_options", st.fixed_dictionaries(dict(s=continuous_sample(20, 60, log_uniform(0.5, 20.0)), m=st.sampled_from(["movm", "custom", "custom_x", "bad_f", "bad_x", "bad_method"]), seed=SEEDS, k=st.integers(3, 60))),
       quick=60, thorough=1500, shards=4, rule="always")
def v01_density(c, t):
    try:
        r = np.random.default_rng(c["seed"])
        o = Circular(angles(c["s"]), unit="radian", n_clusters_max=2 if c["m"] == "movm" else 1)
        col = COL["density"]
        d, want = dict(color=col), None
        if c["m"] == "movm":
            d["method"] = "MovM"
            if o.mixture_opt is None:
                raise Skip()
        elif c["m"].startswith("custom"):
            d["f"] = r.random(c["k"])
            x = np.linspace(0, TWO_PI, c["k"])
            if c["m"] == "custom_x":
                x = np.sort(r.random(c["k"])) * TWO_PI
                d["x"] = x
        elif c["m"] == "bad_f":
            d["f"] = r.random((c["k"], 2))
        elif c["m"] == "bad_x":
            d["f"], d["x"] = r.random(c["k"]), r.random(c["k"] + 1)
        else:
            d["method"] = "kernel"
        call = lambda: o.plot(config=dict(density=d, rose=False, mean=False, median=False))
        if c["m"].startswith("bad"):
            try:
                call()
            except ValueError:
                t.nontrivial(); t.label(c["m"])
                return
            t.fail(f"accepted invalid density options: {c['m']}")
        ax = call()
        (ln,) = lines_of(ax, col)
        x_got, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if c["m"] == "movm":
            t.close(y - 1.05, o.mixture_opt.predict_density(x=x_got, unit="radian"), "the fitted mixture's density", rtol=1e-9)
        else:
            t.close(x_got, x, "the angles given"); t.close(y, d["f"] + 1.05, "the density given")
        t.close(o.density_x, x_got, "density grid kept on the object"); t.close(o.density_f, y - 1.05, "density kept on the object", atol=1e-9)
        t.nontrivial(); t.label(c["m"])
    finally:
        plt.close("all")
