import csv, glob, io, json, math, os, contextlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pycircstat2 import utils as U
from pycircstat2 import load_data
from core import facet, REPO, Skip
from gen import *

CYCLE = st.one_of(st.sampled_from([360, 24, 12, 7, 365, 365.25, 1, 100, 2 * math.pi]), finite(0.01, 5000.0))
VAL = st.one_of(finite(-1e6, 1e6), st.integers(-5000, 5000))


def _rel(*xs):
    return 1e-12 * max([1.0] + [abs(float(x)) for x in xs])


# ---------------------------------------------------------------- U01
@facet("U01", "roundtrip", st.fixed_dictionaries(dict(x=st.lists(VAL, min_size=1, max_size=6), k=CYCLE, k2=CYCLE, shape=st.sampled_from(["scalar", "np", "1d", "2d", "0d"]))),
       quick=1500, rule="a cycle length other than 2*pi and a non-zero value")
def u01_roundtrip(c, t):
    k, k2 = c["k"], c["k2"]
    x = c["x"]
    t.nontrivial(k != 2 * math.pi and any(v != 0 for v in x)); t.label(c["shape"])
    if c["shape"] == "scalar":
        arr = x[0]
    elif c["shape"] == "np":
        arr = np.float64(x[0])
    elif c["shape"] == "0d":
        arr = np.array(float(x[0]))
    elif c["shape"] == "2d":
        arr = np.array([x, x])
    else:
        arr = np.array(x)
    ref = np.asarray(arr, float)
    keep = np.array(arr, copy=True)
    r = U.data2rad(arr, k=k)
    t.close(r, ref / k * TWO_PI, "radians = 2*pi*value/cycle", rtol=1e-12, atol=1e-12 * float(np.max(np.abs(ref))) / k)
    t.true(np.shape(r) == np.shape(arr), f"shape {np.shape(r)} != {np.shape(arr)}")
    back = U.rad2data(r, k=k)
    t.close(back, ref, "round trip", rtol=1e-12, atol=1e-300)
    other = U.rad2data(r, k=k2)
    t.close(np.asarray(other) / k2, ref / k, "fraction of the cycle preserved across units", rtol=1e-12, atol=1e-300)
    t.close(U.data2rad(k, k=k), TWO_PI, "a full cycle is a full turn", rtol=1e-14, atol=0)
    t.close(U.rad2data(TWO_PI, k=k), k, "a turn is a full cycle", rtol=1e-14, atol=0)
    t.close(U.rad2data(r, k=None), r, "no cycle length means radians", rtol=0, atol=0)
    t.true(np.array_equal(keep, np.asarray(arr)), "input modified")
    t.close(U.data2rad(arr), ref * math.pi / 180, "default cycle is 360", rtol=1e-12, atol=1e-300)
    t.close(U.rad2data(arr), ref * 180 / math.pi, "default cycle is 360 (inverse)", rtol=1e-12, atol=1e-300)


@facet("U01", "clock", st.fixed_dictionaries(dict(hm=st.lists(st.tuples(st.integers(0, 23), st.integers(0, 59)).map(list), min_size=1, max_size=6),
                                                   sep=st.sampled_from([":", ".", "h", "-", " "]), pad=st.booleans(), shape=st.sampled_from(["str", "list", "arr", "2d"]))),
       quick=500, rule="minutes not zero")
def u01_clock(c, t):
    fmt = "{:02d}{}{:02d}" if c["pad"] else "{}{}{}"
    s = [fmt.format(h, c["sep"], m) for h, m in c["hm"]]
    want = np.array([h + m / 60 for h, m in c["hm"]])
    t.nontrivial(any(m for _, m in c["hm"])); t.label(c["shape"])
    kw = {} if c["sep"] == ":" and c["pad"] else {"sep": c["sep"]}
    if c["shape"] == "str":
        got = U.time2float(s[0], **kw); want = want[0]
    elif c["shape"] == "list":
        got = U.time2float(s, **kw)
    elif c["shape"] == "2d":
        got = U.time2float(np.array([s, s]), **kw); want = np.array([want, want])
    else:
        got = U.time2float(np.array(s), **kw)
    t.true(np.shape(got) == np.shape(want), f"shape {np.shape(got)}")
    t.close(got, want, "decimal hours", rtol=1e-13, atol=1e-13)
    t.close(U.data2rad(np.asarray(got, float), k=24), np.asarray(want) / 24 * TWO_PI, "clock to radians", rtol=1e-12, atol=1e-14)


# ---------------------------------------------------------------- U02
WINDOW = st.one_of(st.sampled_from([[0.0, TWO_PI], [-math.pi, math.pi], [0.0, 360.0], [-180.0, 180.0], [0.0, 24.0], [-12.0, 12.0], [0.0, math.pi], [1.0, 2.0]]),
                   st.builds(lambda a, s: [a, a + s], finite(-20, 20), finite(0.1, 400)))


def _edge(window_units):
    return st.one_of(st.builds(lambda k, e: ("edge", k, e), st.integers(-4, 4), st.sampled_from([0.0, 1e-16, -1e-16, 1e-9, -1e-9, -1e-300])),
                     st.builds(lambda v: ("val", v, 0.0), finite(-1000, 1000)))


@facet("U02", "angmod", st.fixed_dictionaries(dict(w=WINDOW, xs=st.lists(_edge(None).map(list), min_size=1, max_size=6), mode=st.sampled_from(["scalar", "np", "array", "2d", "int"]), default=st.booleans())),
       quick=2000, rule="a value outside the window")
def u02_angmod(c, t):
    lo, hi = (0.0, TWO_PI) if c["default"] else c["w"]
    span = hi - lo
    xs = []
    for kind, v, e in c["xs"]:
        xs.append(float(lo + v * span + e) if kind == "edge" else float(v))
    if c["mode"] == "int":
        xs = [int(round(x)) for x in xs]
    t.nontrivial(any(not (lo <= x < hi) for x in xs)); t.label(c["mode"])
    arg = {"scalar": lambda: xs[0], "np": lambda: np.float64(xs[0]), "array": lambda: np.array(xs), "2d": lambda: np.array([xs, xs]), "int": lambda: np.array(xs)}[c["mode"]]()
    keep = np.array(arg, copy=True)
    r = U.angmod(arg) if c["default"] else U.angmod(arg, bounds=[lo, hi])
    t.true(np.array_equal(keep, np.asarray(arg)), "input modified")
    rr = np.asarray(r, float); x = np.asarray(arg, float)
    t.true(rr.shape == x.shape, f"shape {rr.shape}")
    ulp = np.spacing(max(abs(lo), abs(hi), span))
    t.true(np.all(rr >= lo) and np.all(rr < hi + 2 * ulp * (not c["default"])), f"{rr} outside [{lo},{hi}) for {x}")
    turns = (rr - x) / span
    tol = 1e-13 * (np.abs(x) + abs(lo) + abs(hi) + span) * 8 / span
    t.true(np.all(np.abs(turns - np.round(turns)) <= tol + 1e-15), f"not a whole number of turns: {turns}")
    r2 = U.angmod(r) if c["default"] else U.angmod(r, bounds=[lo, hi])
    d = np.abs(np.asarray(r2, float) - rr)
    t.true(np.all(np.minimum(d, np.abs(span - d)) <= 4 * ulp), "not idempotent")


@facet("U02", "angmod_bad_window", st.fixed_dictionaries(dict(a=finite(-10, 10), b=finite(0, 10))), quick=100, rule="always")
def u02_bad(c, t):
    t.nontrivial(True)
    for bad in ([c["a"], c["a"] - c["b"]], [c["a"]], [c["a"], c["a"] + 1, c["a"] + 2]):
        try:
            U.angmod(1.0, bounds=bad)
        except ValueError:
            continue
        t.fail(f"window {bad} accepted")


@facet("U02", "distance", st.fixed_dictionaries(dict(a=ANY_ANGLE, b=ANY_ANGLE, c=ANY_ANGLE, k=st.integers(-4, 4), more=st.lists(ANY_ANGLE, min_size=1, max_size=5))),
       quick=2000, rule="arc crosses the origin or an angle lies outside one turn")
def u02_distance(c, t):
    a, b, cc = c["a"], c["b"], c["c"]
    t.nontrivial(abs(norm(a) - norm(b)) > math.pi or not 0 <= a < TWO_PI)
    tol = 1e-12
    d = lambda x, y: float(U.angular_distance(x, y))
    ab = d(a, b)
    t.true(-0.0 <= ab <= math.pi + tol, f"distance {ab} out of [0,pi]")
    t.close(ab, d(b, a), "symmetric", atol=tol)
    t.close(ab, math.acos(max(-1, min(1, math.cos(a - b)))), "equals arc length", atol=5e-7)
    t.close(abs(math.sin(a - b)), math.sin(ab), "equals arc length (sine)", atol=1e-12)
    t.close(ab, d(a + TWO_PI * c["k"], b), "whole turns in a", atol=1e-11)
    t.close(ab, d(a, b + TWO_PI * c["k"]), "whole turns in b", atol=1e-11)
    t.close(d(a, a + TWO_PI * c["k"]), 0, "zero for equal directions", atol=1e-11)
    t.true(ab <= d(a, cc) + d(cc, b) + 1e-11, "triangle inequality")
    t.close(d(a, a + math.pi), math.pi, "antipodal", atol=1e-11)
    arr = [a] + c["more"]
    for form in (list(arr), np.array(arr)):
        g = U.angular_distance(form, b)
        t.close(g, arc(arr, b), "array form", atol=1e-11)
        t.true(np.shape(g) == (len(arr),), "array shape")


@facet("U02", "rotate", st.fixed_dictionaries(dict(x=st.lists(finite(-3, 3), min_size=1, max_size=8), ang=finite(-3, 3), b=finite(-3, 3), unit=st.sampled_from(["degree", "radian", "hour"]), default=st.booleans())),
       quick=1200, rule="rotation wraps at least one value")
def u02_rotate(c, t):
    unit = "radian" if c["default"] else c["unit"]
    k = {"degree": 360.0, "radian": TWO_PI, "hour": 24.0}[unit]
    x = np.array(c["x"]) * k; ang = c["ang"] * k; b = c["b"] * k
    t.label(unit); t.nontrivial(np.any((x + ang < 0) | (x + ang >= k)))
    keep = x.copy()
    rot = (lambda v, a: U.rotate_data(v, a)) if c["default"] else (lambda v, a: U.rotate_data(v, a, unit=unit))
    r = rot(x, ang)
    t.true(np.array_equal(x, keep), "input modified")
    t.true(isinstance(r, np.ndarray) and r.shape == x.shape, "shape")
    t.true(np.all(r >= 0) and np.all(r <= k * (1 + 1e-15)), f"{r} outside the cycle")
    t.angle_close(r, x + ang, "rotated angles", atol=1e-10 * k, period=k)
    t.angle_close(rot(r, -ang), x, "rotating back", atol=1e-10 * k, period=k)
    t.angle_close(rot(r, b), rot(x, ang + b), "rotations compose", atol=1e-10 * k, period=k)


@facet("U02", "rotate_bad_unit", st.fixed_dictionaries(dict(u=st.text(max_size=8))), quick=60, rule="always")
def u02_rotate_bad(c, t):
    if c["u"] in ("degree", "radian", "hour"):
        raise Skip()
    t.nontrivial(True)
    try:
        U.rotate_data(np.array([1.0]), 1.0, unit=c["u"])
    except ValueError:
        return
    t.fail(f"unit {c['u']!r} accepted")


@facet("U02", "membership", st.fixed_dictionaries(dict(v=ANY_ANGLE, lb=ANY_ANGLE, ub=ANY_ANGLE, rel=st.sampled_from(["free", "lb", "ub", "mid", "out"]), k=st.integers(-3, 3))),
       quick=2500, rule="interval wraps through the origin")
def u02_membership(c, t):
    lb, ub = c["lb"], c["ub"]
    length = (norm(ub) - norm(lb)) % TWO_PI
    if c["rel"] == "lb":
        v = lb
    elif c["rel"] == "ub":
        v = ub
    elif c["rel"] == "mid":
        v = lb + length / 2
    elif c["rel"] == "out":
        v = ub + (TWO_PI - length) / 2
    else:
        v = c["v"]
    t.label(c["rel"]); t.nontrivial(norm(lb) > norm(ub))
    pos = float((norm(v) - norm(lb)) % TWO_PI)
    got = bool(U.is_within_circular_range(v, lb, ub))
    if c["rel"] in ("lb", "ub"):
        t.true(got, f"bound itself not a member: {v} in [{lb},{ub}]"); return
    if min(abs(pos - length), abs(pos), abs(TWO_PI - pos), length, TWO_PI - length) < 1e-9:
        raise Skip()
    want = pos <= length
    t.true(got == want, f"{v} in [{lb},{ub}] -> {got}, walking gives {want}")
    k = c["k"] * TWO_PI
    for vv, l2, u2 in ((v + k, lb, ub), (v, lb + k, ub), (v, lb, ub + k)):
        if min(norm(lb), TWO_PI - norm(lb), norm(ub), TWO_PI - norm(ub), norm(v), TWO_PI - norm(v)) < 1e-9:
            continue
        t.true(bool(U.is_within_circular_range(vv, l2, u2)) == want, "whole turns change membership")


# ---------------------------------------------------------------- U03
def _catalog():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "pycircstat2", "data", "*", "*.csv"))):
        out.append([os.path.basename(os.path.dirname(p)), os.path.basename(p)[:-4]])
    return out


CATALOG = _catalog()


def _cells(src, name):
    with open(os.path.join(REPO, "pycircstat2", "data", src, name + ".csv"), newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def _cmp(t, df, src, name):
    head, rows = _cells(src, name)
    t.true([str(c) for c in df.columns] == [h if h else c for h, c in zip(head[1:], map(str, df.columns))], f"{src}/{name}: columns {list(df.columns)} vs {head[1:]}")
    t.true(len(df.columns) == len(head) - 1, f"{src}/{name}: column count")
    t.true(len(df) == len(rows), f"{src}/{name}: {len(df)} rows, file has {len(rows)}")
    for i, row in enumerate(rows):
        for j, cell in enumerate(row[1:]):
            v = df.iloc[i, j]
            if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
                if cell.strip() == "" or cell.strip().lower() in ("nan", "na"):
                    t.true(pd.isna(v), f"{src}/{name}[{i},{j}] {v!r} vs {cell!r}")
                else:
                    t.true(abs(float(cell) - float(v)) <= 1e-12 * max(1, abs(float(v))), f"{src}/{name}[{i},{j}] {v!r} vs {cell!r}")
            elif pd.isna(v):
                t.true(cell.strip().lower() in ("", "nan", "na", "none", "null", "n/a"), f"{src}/{name}[{i},{j}] NaN vs {cell!r}")
            else:
                t.true(str(v) == cell, f"{src}/{name}[{i},{j}] {v!r} vs {cell!r}")


@facet("U03", "load_history", st.lists(st.tuples(st.integers(0, 10**6), st.booleans(), st.sampled_from(["none", "zero", "drop", "append"])).map(list), min_size=1, max_size=6),
       quick=150, shards=2, rule="a dataset is loaded again after being modified, or more than one dataset",
       examples=[[[i, b, "zero"], [i, False, "none"]] for i in range(len(CATALOG)) for b in (False, True)])
def u03_history(c, t):
    first = {}
    t.nontrivial(len(c) > 1)
    for idx, meta, mut in c:
        src, name = CATALOG[idx % len(CATALOG)]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            df = load_data(name, source=src, print_meta=meta) if src != "fisher" or meta else load_data(name)
        t.true(isinstance(df, pd.DataFrame), "not a table")
        if meta:
            with open(os.path.join(REPO, "pycircstat2", "data", src, name + ".csv-metadata.json")) as f:
                t.true(json.loads(buf.getvalue()) == json.load(f), f"{src}/{name}: printed metadata differs")
        else:
            t.true(buf.getvalue() == "", "prints without being asked")
        _cmp(t, df, src, name)
        if (src, name) in first:
            t.label("reload")
        first[(src, name)] = True
        if mut == "zero":
            for col in range(df.shape[1]):
                df.iloc[:, col] = df.iloc[0, col]
        elif mut == "drop" and len(df) > 1:
            df.drop(df.index[0], inplace=True)
        elif mut == "append":
            df["extra"] = 1


@facet("U03", "refuse", st.fixed_dictionaries(dict(src=st.one_of(st.text(max_size=10), st.sampled_from(["fisher", "zar", "mardia", "pewsey", "jammalamadaka", "Fisher", "fisher ", "data"])),
                                                   name=st.one_of(st.text(alphabet="abcdefBDX0123456789_-. ", max_size=8), st.sampled_from([n for _, n in CATALOG])))),
       quick=400, rule="a wrong source or a wrong name (or a name of another source)")
def u03_refuse(c, t):
    ok = [c["src"], c["name"]] in CATALOG
    t.nontrivial(not ok); t.label("valid" if ok else "invalid")
    try:
        df = load_data(c["name"], source=c["src"])
    except (ValueError, OSError, KeyError):
        t.true(not ok, f"valid dataset {c} refused"); return
    t.true(ok, f"unknown dataset {c} accepted")
