"""Reference models of the circular distribution families.

Each family has a strategy of valid parameters and an independent reference:
the published density, written here from the formula and normalised by our own
quadrature, and a distribution function obtained by integrating it.
"""
import math
import numpy as np
from hypothesis import strategies as st
from scipy.special import i0e
import gen
from gen import finite, log_uniform, TWO_PI

_GL_X, _GL_W = np.polynomial.legendre.leggauss(12)

MU = st.one_of(finite(0.0, math.nextafter(TWO_PI, 0)), st.sampled_from([0.0, math.pi, math.pi / 2, 3 * math.pi / 2, 1e-9, TWO_PI - 1e-9, 0.05, TWO_PI - 0.05]))
PROB = st.one_of(finite(0.0, 1.0), st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, 1e-3, 0.999]))


def circ(x):
    """x reduced to [-pi, pi)."""
    return np.mod(np.asarray(x, float) + math.pi, TWO_PI) - math.pi


class Ref:
    """A density on the circle, in terms of phi = x - loc, given by its log-kernel."""

    def __init__(self, logk, loc, centres=(0.0,), normalised=False, fine=200):
        self.loc = float(loc)
        self.logk = logk
        edges = {-math.pi, math.pi}
        u = np.linspace(0, 1, fine + 1)[1:]
        for c in centres:
            c = float(circ(c))
            for s in (-1, 1):
                for e in c + s * math.pi * u**4:
                    edges.add(float(circ(e)))
            edges.add(c)
        e = np.array(sorted(edges))
        e = e[np.concatenate([[True], np.diff(e) > 1e-13])]
        e[0], e[-1] = -math.pi, math.pi
        self.edges = e
        mid, half = (e[:-1] + e[1:]) / 2, np.diff(e) / 2
        nodes = mid[:, None] + half[:, None] * _GL_X
        lk = self.logk(nodes.ravel()).reshape(nodes.shape)
        self.top = float(np.max(lk))
        pan = np.sum(np.exp(lk - self.top) * _GL_W, axis=1) * half
        tot = float(np.sum(pan))
        self.lognorm = self.top + math.log(tot)
        self.mass = math.exp(self.lognorm) if self.lognorm < 700 else math.inf      # of the kernel
        if normalised:
            self.lognorm = 0.0
        self.cum = np.concatenate([[0.0], np.cumsum(pan)]) / tot
        self.tot = tot
        self._nodes = nodes.ravel()
        self._pw = (np.exp(lk - self.top) * _GL_W * half[:, None] / tot).ravel()

    def logpdf(self, x):
        return self.logk(circ(np.asarray(x, float) - self.loc)) - self.lognorm

    def pdf(self, x):
        return np.exp(self.logpdf(x))

    def H(self, phi):
        """Integral from -pi to phi, phi in [-pi, pi]."""
        phi = np.atleast_1d(np.asarray(phi, float))
        i = np.clip(np.searchsorted(self.edges, phi, side="right") - 1, 0, len(self.edges) - 2)
        lo = self.edges[i]
        half = (phi - lo) / 2
        nodes = (lo + half)[:, None] + half[:, None] * _GL_X
        lk = self.logk(nodes.ravel()).reshape(nodes.shape)
        return self.cum[i] + np.sum(np.exp(lk - self.top) * _GL_W, axis=1) * half / self.tot

    def cdf(self, x):
        """Integral from 0 to x for x in [0, 2pi]."""
        x = np.atleast_1d(np.asarray(x, float))
        h0 = self.H(circ(-self.loc))[0]
        h = self.H(circ(x - self.loc))
        wraps = np.floor((x - self.loc + math.pi) / TWO_PI) - math.floor((-self.loc + math.pi) / TWO_PI)
        return h - h0 + wraps

    def moment(self, p):
        return complex(np.sum(self._pw * np.exp(1j * p * (self._nodes + self.loc))))

    def expect(self, f):
        return float(np.sum(self._pw * f(self._nodes)))

    def entropy(self):
        lk = self.logk(self._nodes) - self.lognorm
        with np.errstate(invalid="ignore"):
            return -float(np.sum(np.where(self._pw > 0, self._pw * np.where(np.isfinite(lk), lk, 0.0), 0.0)))

    def sample(self, rng, n):
        """Draws by inverting a dense table of H (reference sampler)."""
        grid = np.concatenate([self.edges[:-1] + np.diff(self.edges) * k / 4 for k in range(4)] + [[math.pi]])
        grid = np.sort(grid)
        h = self.H(grid); h[0], h[-1] = 0.0, 1.0
        h = np.maximum.accumulate(h)
        phi = np.interp(rng.random(n), h, grid)
        a = np.mod(phi + self.loc, TWO_PI)
        a[a >= TWO_PI] = 0.0
        return a


def _safelog(v):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(v > 0, np.log(np.where(v > 0, v, 1.0)), -np.inf)


def jp_logkernel(phi, kappa, psi):
    a = kappa * psi
    if abs(a) < 0.1:
        if abs(psi) < 1e-14:
            return kappa * np.cos(phi)
        return np.log1p(2 * math.sinh(a / 2)**2 + math.sinh(a) * np.cos(phi)) / psi
    # cosh a + sinh a cos phi = e^|a|/2 * (1 + e^-2|a| + sgn(a)(1 - e^-2|a|) cos phi)
    e = math.exp(-2 * abs(a))
    c = np.cos(phi) if a >= 0 else -np.cos(phi)
    # 1 + c + e(1 - c), with 1 + c computed without cancellation
    one_plus = 2 * np.cos(phi / 2)**2 if a >= 0 else 2 * np.sin(phi / 2)**2
    v = one_plus + e * (2 - one_plus)
    return (abs(a) - math.log(2) + _safelog(v)) / psi


def _bisect(f, y):
    """Solves f(u) = y on [-pi, pi] for increasing f, vectorised."""
    lo, hi = np.full_like(y, -math.pi), np.full_like(y, math.pi)
    for _ in range(58):
        m = (lo + hi) / 2
        up = f(m) > y
        hi = np.where(up, m, hi); lo = np.where(up, lo, m)
    return (lo + hi) / 2


def invbat_logkernel(phi, kappa, nu, lmbd):
    phi = np.asarray(phi, float)
    y = phi if nu == 0 else _bisect(lambda u: u - nu * (1 + np.cos(u)), phi)
    s = _bisect(lambda u: u - 0.5 * (1 + lmbd) * np.sin(u), y)
    # (1-l)/(1+l) y + 2l/(1+l) s with s = y + (1+l)/2 sin s equals y + l sin s
    return kappa * np.cos(y + lmbd * np.sin(s))


def wrapstable_terms(alpha, gamma):
    return int(min(20000, max(1, math.ceil((-math.log(1e-13)) ** (1 / alpha) / gamma))))


def wrapstable_log(phi, alpha, beta, gamma):
    p = np.arange(1, wrapstable_terms(alpha, gamma) + 1, dtype=float)
    gp = gamma * p
    rho = np.exp(-gp**alpha)
    if abs(alpha - 1) < 1e-10:
        ph = -(2 / math.pi) * beta * gp * np.log(gp)
    else:
        ph = beta * math.tan(math.pi * alpha / 2) * (gp**alpha - gp)
    phi = np.asarray(phi, float)
    out = np.ones(phi.size)
    z = np.exp(1j * phi.ravel())
    # Horner on sum_p rho_p e^{-i ph_p} z^p
    acc = np.zeros(phi.size, complex)
    c = rho * np.exp(-1j * ph)
    for k in range(len(p) - 1, -1, -1):
        acc = (acc + c[k]) * z
    return _safelog((out + 2 * acc.real) / TWO_PI).reshape(phi.shape)


def kj_log(phi, gamma, rho, lam):
    den = (1 - rho)**2 + 4 * rho * np.sin((phi - lam) / 2)**2
    return _safelog((1 + 2 * gamma * (np.cos(phi) - rho * math.cos(lam)) / den) / TWO_PI)


def wn_log(phi, rho):
    s2 = -2 * math.log(rho)
    if s2 > 4:       # theta-function series
        p = np.arange(1, 40)[:, None]
        return _safelog((1 + 2 * np.sum(rho ** (p**2.0) * np.cos(p * phi), axis=0)) / TWO_PI)
    k = np.arange(-12, 13)[:, None]
    e = -(phi + TWO_PI * k)**2 / (2 * s2)
    m = e.max(axis=0)
    return m + np.log(np.sum(np.exp(e - m), axis=0)) - 0.5 * math.log(TWO_PI * s2)


def asym_centres(nu):
    """Mode and antimode of a function of phi + nu cos phi."""
    from scipy.optimize import brentq
    g = lambda target: brentq(lambda p: p + nu * math.cos(p) - target, -2 * math.pi, 2 * math.pi, xtol=1e-15)
    return (g(0.0), g(math.pi), math.pi / 2)


class Family:
    def __init__(self, name, params, ref, loc=0, tol=1e-9, cdf_tol=1e-8, shapes=()):
        self.name, self.params, self._ref, self.loc = name, params, ref, loc
        self.tol, self.cdf_tol, self.shapes = tol, cdf_tol, shapes

    @property
    def dist(self):
        from pycircstat2 import distributions as DI
        return getattr(DI, self.name)

    def ref(self, par):
        return self._ref(*par)


def kj_params(mu, gamma, s, phi):
    """Feasible (mu, gamma, rho, lam): rho e^{i lam} in the disc of radius 1-gamma about gamma."""
    z = gamma + (1 - gamma) * s * complex(math.cos(phi), math.sin(phi))
    return [mu, gamma, min(abs(z), 0.999), math.atan2(z.imag, z.real) % TWO_PI if abs(z) > 1e-9 else 0.0]


# every range reaches close to its special values (zero concentration, zero skewness, unit index ...),
# where implementations switch to another formula
TINY = log_uniform(1e-7, 2e-2)
TINY_S = st.builds(lambda v, s: v * s, TINY, st.sampled_from([1, -1]))
KAP = st.one_of(finite(0.0, 2.0), finite(0.5, 12.0), log_uniform(1e-3, 1000.0), TINY)
KAPP = st.one_of(finite(1e-3, 2.0), finite(0.5, 12.0), log_uniform(1e-3, 1000.0), TINY)
JPK = st.one_of(finite(0.0, 3.0), finite(0.01, 8.0), log_uniform(2e-3, 60.0), TINY)
UNIT11 = st.one_of(finite(-1.0, 1.0), finite(-1.0, 1.0), st.sampled_from([0.0, 0.0, 0.5, -0.5, 1.0, -1.0]), TINY_S)


def jp_pair(k, psi):
    # keep the peak resolvable: for psi < 0 the density is as sharp as exp(2 kappa |psi|)
    if psi < 0:
        k = min(k, 3.0 / abs(psi))
    return [k, psi]


JPKP = st.builds(jp_pair, JPK, st.one_of(finite(-1.5, 2.5), finite(-1.5, 2.5), st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 2.0]), TINY_S))

FAMILIES = {f.name: f for f in [
    Family("circularuniform", st.just([]), lambda: Ref(lambda p: np.zeros_like(p), 0.0), loc=None),
    Family("triangular", st.builds(lambda r: [r], st.one_of(finite(0.0, 4 / math.pi**2), st.sampled_from([0.0, 4 / math.pi**2, 0.1]), log_uniform(1e-12, 0.1))),
           lambda rho: Ref(lambda p: _safelog((4 - math.pi**2 * rho + 2 * math.pi * rho * np.abs(math.pi - np.mod(p, TWO_PI))) / (8 * math.pi)), 0.0, normalised=True), loc=None, shapes=("rho",)),
    Family("cardioid", st.builds(lambda m, r: [m, r], MU, st.one_of(finite(0.0, 0.5), st.sampled_from([0.0, 0.5]), TINY, st.builds(lambda v: 0.5 - v, TINY))),
           lambda mu, rho: Ref(lambda p: _safelog((1 + 2 * rho * np.cos(p)) / TWO_PI), mu, centres=(0.0, math.pi), normalised=True), shapes=("mu", "rho")),
    Family("cartwright", st.builds(lambda m, z: [m, z], MU, st.one_of(finite(0.05, 5.0), log_uniform(1e-3, 100.0))),
           lambda mu, zeta: Ref(lambda p: 2 / zeta * _safelog(np.abs(np.cos(p / 2))), mu, centres=(0.0, math.pi)), shapes=("mu", "zeta")),
    Family("wrapnorm", st.builds(lambda m, r: [m, r], MU, st.one_of(finite(0.001, 0.999), log_uniform(1e-4, 0.1), st.builds(lambda v: 1 - v, log_uniform(1e-5, 0.1)))),
           lambda mu, rho: Ref(lambda p: wn_log(p, rho), mu, normalised=True), shapes=("mu", "rho")),
    Family("wrapcauchy", st.builds(lambda m, r: [m, r], MU, st.one_of(finite(0.0, 0.999), st.just(0.0), TINY, st.builds(lambda v: 1 - v, log_uniform(1e-5, 0.1)))),
           lambda mu, rho: Ref(lambda p: np.log((1 - rho**2) / TWO_PI) - np.log((1 - rho)**2 + 4 * rho * np.sin(p / 2)**2), mu, normalised=True), shapes=("mu", "rho")),
    Family("vonmises", st.builds(lambda m, k: [m, k], MU, KAPP), lambda mu, k: Ref(lambda p: k * np.cos(p) - math.log(TWO_PI * i0e(k)) - k, mu, normalised=True), shapes=("mu", "kappa")),
    Family("vonmises_flattopped", st.builds(lambda m, k, n: [m, k, n], MU, KAP, UNIT11), lambda mu, k, nu: Ref(lambda p: k * np.cos(p + nu * np.sin(p)), mu, centres=(0.0, math.pi)), cdf_tol=5e-5, shapes=("mu", "kappa", "nu")),
    Family("jonespewsey", st.builds(lambda m, kp: [m] + kp, MU, JPKP), lambda mu, k, psi: Ref(lambda p: jp_logkernel(p, k, psi), mu, centres=(0.0, math.pi)), cdf_tol=1e-6, shapes=("mu", "kappa", "psi")),
    Family("jonespewsey_sineskewed", st.builds(lambda m, kp, l: [m] + kp + [l], MU, JPKP, UNIT11),
           lambda xi, k, psi, l: Ref(lambda p: jp_logkernel(p, k, psi) + _safelog(1 + l * np.sin(p)), xi, centres=(0.0, math.pi)), cdf_tol=1e-6, shapes=("xi", "kappa", "psi", "lmbd")),
    Family("jonespewsey_asym", st.builds(lambda m, kp, n: [m] + kp + [n], MU, JPKP, st.one_of(finite(0.0, 0.99), st.just(0.0), TINY)),
           lambda xi, k, psi, nu: Ref(lambda p: jp_logkernel(p + nu * np.cos(p), k, psi), xi, centres=asym_centres(nu)), cdf_tol=5e-5, shapes=("xi", "kappa", "psi", "nu")),
    Family("inverse_batschelet", st.builds(lambda m, k, n, l: [m, k, n, l], MU, st.one_of(finite(0.0, 2.0), finite(0.5, 12.0), log_uniform(1e-3, 690.0), TINY), UNIT11, UNIT11),
           lambda xi, k, nu, l: Ref(lambda p: invbat_logkernel(p, k, nu, l), xi, centres=(0.0, math.pi, -2 * nu), fine=80), cdf_tol=5e-5, shapes=("xi", "kappa", "nu", "lmbd")),
    Family("wrapstable", st.builds(lambda d, a, b, g: [d, a, b, g], MU, st.one_of(finite(0.6, 2.0), st.sampled_from([1.0, 2.0, 1.5, 0.75]), st.builds(lambda v: 1.0 + v, TINY_S)), st.one_of(finite(-0.95, 0.95), finite(-0.95, 0.95), st.just(0.0), TINY_S), log_uniform(0.1, 4.0)),
           lambda d, a, b, g: Ref(lambda p: wrapstable_log(p, a, b, g), d, normalised=True, fine=60), shapes=("delta", "alpha", "beta", "gamma")),
    Family("katojones", st.builds(kj_params, MU, st.one_of(finite(0.0, 0.95), finite(0.0, 0.95), st.sampled_from([0.0, 0.3]), TINY), st.one_of(finite(0.0, 1.0), st.sampled_from([0.0, 1.0])), gen.ANGLE),
           lambda mu, g, r, l: Ref(lambda p: kj_log(p, g, r, l), mu, centres=(0.0, l), normalised=True), shapes=("mu", "gamma", "rho", "lam")),
]}
NAMES = list(FAMILIES)


def any_case(names=NAMES, **extra):
    """{'fam': name, 'par': [...]} plus extra strategies."""
    return st.one_of(*[st.fixed_dictionaries(dict(fam=st.just(n), par=FAMILIES[n].params, **extra)) for n in names])
