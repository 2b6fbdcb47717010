"""Shared generators.  Every strategy yields JSON-serialisable values."""
import math
import numpy as np
from hypothesis import strategies as st

TWO_PI = 2.0 * math.pi
SEEDS = st.integers(0, 2**31 - 1)


def finite(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


ANGLE = st.one_of(finite(0.0, math.nextafter(TWO_PI, 0)),
                  st.builds(lambda d, k: TWO_PI * (k % d) / d, st.sampled_from([2, 3, 4, 5, 6, 8, 12, 16, 24, 36, 72, 360]), st.integers(0, 359)))
ANY_ANGLE = st.one_of(ANGLE, finite(-50.0, 50.0), st.builds(lambda a, k: a + TWO_PI * k, ANGLE, st.integers(-5, 5)))
ROT = st.one_of(ANGLE, finite(-10, 10), st.sampled_from([math.pi, math.pi / 2, -math.pi / 2, 3.0, 6.0]))
# whole turns: cycled counts, or the window of one turn that starts at `cut` (spans less than a turn but leaves [0, 2pi))
SHIFT = st.one_of(st.lists(st.integers(-3, 3), min_size=1, max_size=7), st.lists(st.integers(-3, 3), min_size=1, max_size=7),
                  st.builds(lambda c, u: {"cut": c, "up": u}, st.one_of(finite(0.0, 6.28), st.sampled_from([0.0, math.pi])), st.booleans()))


def log_uniform(lo, hi):
    return st.builds(lambda u: float(math.exp(u)), finite(math.log(lo), math.log(hi)))


KAPPA = st.one_of(finite(0.0, 2.0), finite(0.5, 12.0), log_uniform(1e-3, 300.0))


def spread_sample(min_n=2, max_n=60):
    """A sample spec: explicit (shrinkable) lists, tied grids, or bulk draws."""
    explicit = st.builds(lambda a: {"k": "list", "a": a}, st.lists(ANGLE, min_size=min_n, max_size=min(max_n, max(min_n, 14))))
    grid = st.builds(lambda d, i: {"k": "list", "a": [TWO_PI * (j % d) / d for j in i]}, st.sampled_from([3, 4, 6, 8, 12, 24, 36, 360]),
                     st.lists(st.integers(0, 359), min_size=min_n, max_size=min(max_n, max(min_n, 20))))
    vm = st.builds(lambda n, mu, kap, seed: {"k": "vm", "n": n, "mu": mu, "kappa": kap, "seed": seed},
                   st.integers(min_n, max_n), ANGLE, KAPPA, SEEDS)
    mix = st.builds(lambda n, m1, m2, k1, k2, p, seed: {"k": "mix", "n": n, "mu": [m1, m2], "kappa": [k1, k2], "p": p, "seed": seed},
                    st.integers(min_n, max_n), ANGLE, ANGLE, KAPPA, KAPPA, finite(0.1, 0.9), SEEDS)
    const = st.builds(lambda x, n, y, m: {"k": "list", "a": ([x] * n + [y] * m)[:max_n]}, ANGLE, st.integers(min_n, max(min_n, min(max_n, 12))), ANGLE, st.sampled_from([0, 0, 1, 2]))
    return st.one_of(explicit, grid, vm, vm, vm, mix, const, even_sample(min_n, max_n))


def even_sample(min_n, max_n):
    """Nearly evenly spaced directions, possibly with some left out."""
    return st.builds(lambda n, o, j, d, seed: {"k": "ring", "n": n, "off": o, "jit": j, "drop": d, "seed": seed},
                     st.integers(max(min_n, 2), max_n), ANGLE, finite(0.02, 0.9), st.sampled_from([0, 0, 0, 1, 2]), SEEDS)


def continuous_sample(min_n=2, max_n=60, kappa=KAPPA):
    """Bulk draws without ties."""
    vm = st.builds(lambda n, mu, kap, seed: {"k": "vm", "n": n, "mu": mu, "kappa": kap, "seed": seed},
                   st.integers(min_n, max_n), ANGLE, kappa, SEEDS)
    mix = st.builds(lambda n, m1, m2, k1, k2, p, seed: {"k": "mix", "n": n, "mu": [m1, m2], "kappa": [k1, k2], "p": p, "seed": seed},
                    st.integers(min_n, max_n), ANGLE, ANGLE, kappa, kappa, finite(0.1, 0.9), SEEDS)
    return st.one_of(vm, vm, mix, vm, vm, mix, even_sample(min_n, max_n))


def tight_sample(min_n=4, max_n=60):
    """Two narrow clusters: densities underflow between them."""
    hot = st.sampled_from([300.0, 1000.0, 5000.0, 1e5])
    return st.builds(lambda n, m1, m2, k1, k2, p, seed: {"k": "mix", "n": n, "mu": [m1, m2], "kappa": [k1, k2], "p": p, "seed": seed},
                     st.integers(min_n, max_n), ANGLE, ANGLE, hot, hot, finite(0.3, 0.7), SEEDS)


def vm_draw(rng, mu, kappa, n):
    return np.mod(rng.vonmises(0.0, max(kappa, 0.0), n) + mu, TWO_PI)


def angles(spec):
    """Materialises a sample spec to a float array in [0, 2pi)."""
    if isinstance(spec, list):
        return np.array(spec, float)
    if spec["k"] == "list":
        return np.array(spec["a"], float)
    rng = np.random.default_rng(spec["seed"])
    if spec["k"] == "vm":
        a = vm_draw(rng, spec["mu"], spec["kappa"], spec["n"])
    elif spec["k"] == "mix":
        z = rng.random(spec["n"]) < spec["p"]
        a1 = vm_draw(rng, spec["mu"][0], spec["kappa"][0], spec["n"])
        a2 = vm_draw(rng, spec["mu"][1], spec["kappa"][1], spec["n"])
        a = np.where(z, a1, a2)
    elif spec["k"] == "ring":
        n, m = spec["n"], spec["n"] + spec["drop"]
        a = (np.arange(m) + spec["jit"] * (rng.random(m) - 0.5)) * TWO_PI / m + spec["off"]
        a = np.delete(a, rng.choice(m, m - n, replace=False)) if m > n else a
        a = rng.permutation(a)
    else:
        raise ValueError(spec)
    a = np.mod(a, TWO_PI)
    a[a >= TWO_PI] = 0.0
    return a


def weights(n, spec):
    """Materialises weights: None, list of ints cycled, or seeded."""
    if spec is None:
        return None
    w = np.array([spec[i % len(spec)] for i in range(n)], float)
    if w.sum() <= 0:
        w[0] = 1.0
    return w


INT_W = st.lists(st.integers(0, 6), min_size=1, max_size=9)
POS_INT_W = st.lists(st.integers(1, 6), min_size=1, max_size=9)
FRAC_W = st.lists(st.one_of(finite(0.01, 5.0), st.just(0.0)), min_size=1, max_size=9)
OPT_W = st.one_of(st.none(), INT_W, FRAC_W)


def perm(n, seed):
    return np.random.default_rng(seed).permutation(n)


def turn_counts(a, shifts):
    a = np.asarray(a, float)
    if isinstance(shifts, dict):
        m = np.mod(a, TWO_PI) <= shifts["cut"]
        return np.where(m, 1.0, 0.0) if shifts["up"] else np.where(m, 0.0, -1.0)
    return np.array([shifts[i % len(shifts)] for i in range(a.size)], float)


def add_turns(a, shifts):
    a = np.asarray(a, float)
    return a + TWO_PI * turn_counts(a, shifts)


def resultant(a, w=None):
    a = np.asarray(a, float)
    w = np.ones_like(a) if w is None else np.asarray(w, float)
    z = np.sum(w * np.exp(1j * a)) / np.sum(w)
    return z


def arc(a, b):
    d = np.abs(np.mod(np.asarray(a, float) - b + math.pi, TWO_PI) - math.pi)
    return d


def norm(a):
    return np.mod(np.asarray(a, float), TWO_PI)
