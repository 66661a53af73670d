"""drv/run_laws.py OUT.ndjson SEED PART EFFORT

Draws large surveys and counts: PART is scatter, counts, distances, samplers,
sky.  The bins are those of the specification (spec/Laws.tla) where it computes
the weights, otherwise quantiles of the documented law computed here.
"""
import math
import sys
import warnings
from statistics import NormalDist

warnings.filterwarnings("ignore")
import numpy as np
import scipy.stats as ss

import popsynth

popsynth.silence_logs()
import popsynth.aux_samplers as auxs
import popsynth.distributions as dists
import popsynth.selection_probability as sels
from popsynth.distribution import DistributionParameter, SpatialDistribution
from popsynth.distributions.uniform_distribution import (
    LogUniLuminiosityDistribution,
    UniformCosmoDistribution,
)
from popsynth.aux_samplers.sky_sampler import SkySampler
from popsynth.distributions.spiral_galaxy_distribution import SpiralGalaxyDistribution
from popsynth.utils.configuration import popsynth_config
from vtrace import Trace

ND = NormalDist()
EIGHTHS = [k / 8 for k in range(1, 8)]
TAILS = [1 / 64, 1 / 16, 1 / 4, 1 / 2, 3 / 4, 15 / 16, 63 / 64]
TAILW = [1, 3, 12, 16, 16, 12, 3, 1]


class LStep(SpatialDistribution):
    """density base^floor(r), time adjustment tadj^floor(r)"""

    _distribution_name = "LStep"
    base = DistributionParameter(default=2)
    tadj = DistributionParameter(default=1)
    dens = DistributionParameter(default=1, vmin=0, is_normalization=True)

    def __init__(self, seed=1234, name="lstep"):
        super().__init__(name=name, seed=seed)

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return self.dens * np.power(float(self.base), np.floor(r))

    def time_adjustment(self, r):
        return np.power(float(self.tadj), np.floor(r))

    def transform(self, L, r):
        return L / (1.0 + r) ** 2


class LFree(SpatialDistribution):
    """the same without a normalization parameter"""

    _distribution_name = "LFree"
    base = DistributionParameter(default=2)
    tadj = DistributionParameter(default=1)
    dens = DistributionParameter(default=1, vmin=0)

    def __init__(self, seed=1234, name="lfree"):
        super().__init__(name=name, seed=seed)

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return self.dens * np.power(float(self.base), np.floor(r))

    def time_adjustment(self, r):
        return np.power(float(self.tadj), np.floor(r))

    def transform(self, L, r):
        return L / (1.0 + r) ** 2


class LRing(SpatialDistribution):
    """objects in a thin ring, on top of a thin background"""

    _distribution_name = "LRing"
    at = DistributionParameter(default=5)
    width = DistributionParameter(default=0.1)
    dens = DistributionParameter(default=1, vmin=0, is_normalization=True)

    def __init__(self, seed=1234, name="lring"):
        super().__init__(name=name, seed=seed)

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return self.dens * ring(self.at, self.width, r)

    def transform(self, L, r):
        return L / (1.0 + r) ** 2


def ring(at, width, r):
    return 0.002 + np.exp(-0.5 * ((r - at) / width) ** 2)


class LSpiral(SpiralGalaxyDistribution):
    """a spiral galaxy with objects between two radii only"""

    _distribution_name = "LSpiral"
    inner = DistributionParameter(default=1)
    outer = DistributionParameter(default=2)

    def __init__(self, seed=1234, name="lspiral"):
        super().__init__(name=name, seed=seed)

    def dNdV(self, r):
        return np.where((r >= self.inner) & (r <= self.outer), 1.0, 0.0)


def even(n):
    return dict(rule="even", bins=n)


def given(w):
    return dict(rule="given", bins=len(w), w=list(w))


class Out(object):
    def __init__(self, path):
        self.tr = Trace(path)
        self.n = 0

    def part(self):
        self.tr.begin("laws")

    def bins(self, prop, what, vals, edges, w, lo=None, hi=None):
        """edges are the inner edges; lo and hi bound the support"""
        v = np.asarray(vals, dtype=float)
        inside = np.isfinite(v)
        if lo is not None:
            inside &= v >= lo
        if hi is not None:
            inside &= v <= hi
        idx = np.searchsorted(np.asarray(edges, dtype=float), v[inside], side="right")
        k = np.bincount(idx, minlength=len(edges) + 1)
        self.tr.emit(op="bins", prop=prop, what=what, n=len(v), k=[int(x) for x in k], w=w)

    def cells(self, prop, what, cells, n):
        """cells are numbers below n, equally likely"""
        k = np.bincount(np.asarray(cells, dtype=int), minlength=n)
        self.tr.emit(op="bins", prop=prop, what=what, n=len(cells), k=[int(x) for x in k], w=even(n))

    def fact(self, prop, what, ok):
        self.tr.emit(op="fact", prop=prop, what=what, ok=bool(ok))


def independent(o, prop, what, vals, median):
    """neighbours are independent of each other"""
    b = np.asarray(vals) > median
    m = len(b) // 2 * 2
    o.cells(prop, what + " of neighbours", 2 * b[0:m:2] + b[1:m:2], 4)


def synth(spat, lum=None, seed=1):
    s = popsynth.PopulationSynth(spat, lum, seed=seed)
    return s


def pareto(lmin=1.0, alpha=1.5):
    d = dists.ParetoDistribution()
    d.Lmin, d.alpha = lmin, alpha
    return d


def spatial(cls, r_max, **kw):
    ctor = {k[1:]: v for k, v in kw.items() if k.startswith("_")}
    d = cls(**ctor)
    d.r_max = r_max
    for k, v in kw.items():
        if not k.startswith("_"):
            setattr(d, k, v)
    return d


def values(d, kw):
    return {k: getattr(d, k) for k in list(kw) + ["r_max"] if not k.startswith("_")}


# ------------------------------------------------------------------- C06


def scatter(o, rng, effort):
    n = 16000
    near = (dists.ConstantSphericalDistribution, 4.0, dict(Lambda=1.0))
    far = (dists.ZPowerCosmoDistribution, 3.0, dict(Lambda=1.0, delta=1.0))
    flat = (dists.FlatlandDistribution, 3.0, dict())
    # fluxes of every size: down to 1e-57 for objects at cosmological distances
    for sigma, log10, (cls, r_max, kw), lmin in (
        (0.25, True, near, 1.0), (0.25, False, near, 1.0), (1.5, True, near, 1.0), (2.0, False, near, 1.0),
        (1e-3, True, near, 1.0), (0.5, True, far, 1.0), (0.5, False, far, 1.0), (0.3, False, far, 1e52),
        (0.3, True, near, 1e45), (0.4, False, near, 1e-30), (0.4, True, flat, 1e-20), (1e-3, False, flat, 10.0),
    ):
        o.part()
        s = synth(spatial(cls, r_max, **kw), pareto(lmin), seed=int(rng.integers(1, 2**30)))
        f = sels.HardFluxSelection()
        f.boundary = [1e-3, 0.0, 1e-70, 1e80][int(rng.integers(0, 4))]
        s.set_flux_selection(f)
        p = s.draw_survey(n_samples=n, flux_sigma=sigma, log10_flux_draw=log10)
        lat = np.asarray(p.fluxes.latent, dtype=float)
        obs = np.asarray(p.fluxes, dtype=float)
        if len(obs) != n or not np.all(obs > 0):
            o.fact("C06", "observed fluxes are not positive", False)
            continue
        ln = np.log10(obs / lat) if log10 else np.log(obs / lat)
        z = ln / sigma
        zq = [ND.inv_cdf(q) for q in TAILS]
        o.bins("C06", "errors of the fluxes", z, zq, given(TAILW))
        independent(o, "C06", "errors of the fluxes", z, 0.0)
        # and independent of the flux and of the distance
        o.cells("C06", "errors of bright and faint fluxes",
                2 * (z > 0) + (np.argsort(np.argsort(lat)) >= n // 2), 4)
        o.cells("C06", "errors of near and far fluxes",
                2 * (z > 0) + (np.argsort(np.argsort(p.distances)) >= n // 2), 4)
    for sigma in (None, 0.0):
        o.part()
        s = synth(spatial(dists.ConstantSphericalDistribution, 4.0, Lambda=1.0), pareto(),
                  seed=int(rng.integers(1, 2**30)))
        f = sels.HardFluxSelection()
        f.boundary = 1e-3
        s.set_flux_selection(f)
        p = s.draw_survey(n_samples=200, flux_sigma=sigma)
        o.fact("C06", "fluxes are scattered without an error",
               np.allclose(np.asarray(p.fluxes, float), np.asarray(p.fluxes.latent, float), rtol=1e-12))


# ------------------------------------------------------------------- C17


def counts(o, rng, effort):
    # (class, parameters, r_max, normalize, how the mean is computed)
    R = math.pi * 4 / 3
    zc = reference_integral("zpow", 0.5, dict(delta=1.0), True)
    zs = reference_integral("zpow", 0.5, dict(delta=1.0), False)
    sfr = dict(a=0.5, rise=2.0, decay=3.0, peak=1.5)
    cs = reference_integral("sfr", 1.5, sfr, True)
    cn = reference_integral("sfr", 1.5, sfr, False)
    cu = reference_integral("uniform", 0.4, {}, False)
    r = np.linspace(0, 10, 4001)
    f = ((r + 0.5) / 9) ** 1.5 * np.exp(-3.0 * (r - 8.5) / 9) * 4 * np.pi * r**2
    gal = float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(r)))
    cases = [
        (LStep, dict(base=2, dens=5.0), 3, False, dict(rule="step", base=2, bins=3, num=5, den=1)),
        (LStep, dict(base=3, dens=0.5), 4, False, dict(rule="step", base=3, bins=4, num=1, den=2)),
        (LStep, dict(base=2, dens=7.0), 3, True, dict(rule="mean", mean=7, den=1)),
        (LStep, dict(base=4, tadj=2, dens=3.0), 3, False, dict(rule="step", base=2, bins=3, num=3, den=1)),
        (LStep, dict(base=2, dens=0.0), 3, False, dict(rule="mean", mean=0, den=1)),
        (LFree, dict(base=2, dens=5.0), 3, True, dict(rule="mean", mean=1, den=1)),
        (LFree, dict(base=2, dens=5.0), 3, False, dict(rule="step", base=2, bins=3, num=5, den=1)),
        (dists.ConstantSphericalDistribution, dict(Lambda=50 / (8 * R)), 2.0, False, dict(rule="mean", mean=50, den=1)),
        (dists.ConstantSphericalDistribution, dict(Lambda=40.0), 2.0, True, dict(rule="mean", mean=40, den=1)),
        (dists.ZPowerSphericalDistribution, dict(Lambda=60 / (4 * math.pi * 8 * (1 / 3 + 2 / 4)), delta=1.0),
         2.0, False, dict(rule="mean", mean=60, den=1)),
        (dists.FlatlandDistribution, dict(Lambda=9.0), 5.0, False, dict(rule="mean", mean=45, den=1)),
        (dists.ZPowerCosmoDistribution, dict(Lambda=80 / zc, delta=1.0), 0.5, False, dict(rule="mean", mean=80, den=1)),
        (dists.ZPowerCosmoDistribution, dict(Lambda=80 / zs, delta=1.0, _is_rate=False), 0.5, False,
         dict(rule="mean", mean=80, den=1)),
        (dists.ZPowerCosmoDistribution, dict(Lambda=30.0, delta=1.0), 0.5, True, dict(rule="mean", mean=30, den=1)),
        (dists.SFRDistribution, dict(r0=70 / cs, **sfr), 1.5, False, dict(rule="mean", mean=70, den=1)),
        (dists.SFRDistribution, dict(r0=70 / cn, _is_rate=False, **sfr), 1.5, False, dict(rule="mean", mean=70, den=1)),
        (dists.SFRDistribution, dict(r0=25.0, **sfr), 1.5, True, dict(rule="mean", mean=25, den=1)),
        (UniformCosmoDistribution, dict(r0=1.5 * 60 / cu, zmin=0.5, zmax=2.0, _is_rate=False), 0.4, False,
         dict(rule="mean", mean=60, den=1)),
        (UniformCosmoDistribution, dict(r0=20.0, zmin=0.0, zmax=1.0), 0.4, True, dict(rule="mean", mean=20, den=1)),
        (SpiralGalaxyDistribution, dict(rho=55 / gal, a=1.5, b=3.0 * 9 / 9, R1=0.5, R0=8.5), 10.0, False,
         dict(rule="mean", mean=55, den=1)),
        # surveys that are often empty
        (dists.FlatlandDistribution, dict(Lambda=0.1), 5.0, False, dict(rule="mean", mean=1, den=2)),
        (dists.ConstantSphericalDistribution, dict(Lambda=0.75 / (8 * R)), 2.0, False, dict(rule="mean", mean=3, den=4)),
        (dists.ConstantSphericalDistribution, dict(Lambda=0.5), 2.0, True, dict(rule="mean", mean=1, den=2)),
        (LStep, dict(base=2, dens=0.2), 3, False, dict(rule="step", base=2, bins=3, num=1, den=5)),
    ]
    many = 150 * effort
    for cls, kw, r_max, norm, m in cases:
        o.part()
        d = spatial(cls, r_max, **kw)
        s0 = int(rng.integers(1, 2**29))
        ns = []
        before = values(d, kw)
        for k in range(many):
            s = synth(d, pareto(), seed=s0 + k)
            p = s.draw_survey(normalize=norm)
            ns.append(int(p.n_objects))
            if k == 0:
                o.fact("C17", "the number of objects is not the number of values",
                       len(p.distances) == len(p.luminosities) == ns[-1])
        o.tr.emit(op="counts", what="the number of objects", ns=ns, m=m)
        o.fact("C17", "drawing changed a parameter", values(d, kw) == before)
        # a number asked for is kept, whatever the density
        for n in (0, 1, 17):
            s = synth(d, pareto(), seed=s0)
            if n and kw.get("dens", 1) == 0:
                continue
            p = s.draw_survey(n_samples=n, normalize=norm)
            o.fact("C17", "the number of objects is not the one asked for", p.n_objects == n)


# ------------------------------------------------------------------- C18


def volume(z, Om=0.307):
    """comoving volume element up to a factor"""
    z = np.atleast_1d(np.asarray(z, dtype=float))
    zz = np.linspace(0, max(z.max(), 1e-9), 4001)
    e = 1.0 / np.sqrt(Om * (1 + zz) ** 3 + 1 - Om)
    d = np.concatenate([[0], np.cumsum((e[1:] + e[:-1]) / 2 * np.diff(zz))])
    dc = np.interp(z, zz, d)
    return dc**2 / np.sqrt(Om * (1 + z) ** 3 + 1 - Om)


DH3 = (299792.458 / 67.7) ** 3 * 1e-9


def density(kind, kw, r):
    if kind == "zpow":
        return (1 + r) ** kw["delta"]
    if kind == "sfr":
        return (kw["a"] + kw["rise"] * r) / (1 + (r / kw["peak"]) ** kw["decay"])
    return np.ones_like(r)


def reference_integral(kind, r_max, kw, rate):
    r = np.linspace(0, r_max, 4001)
    f = density(kind, kw, r) * volume(r) * DH3 / ((1 + r) if rate else 1)
    return float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(r)))


def quantiles(f, r_max, qs):
    r = np.linspace(0, r_max, 8001)
    y = f(r)
    c = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(r))])
    return [float(np.interp(q * c[-1], c, r)) for q in qs]


def distances(o, rng, effort):
    cases = []
    for base, tadj, r_max in ((2, 1, 3), (1, 1, 4), (3, 1, 3), (4, 2, 3), (2, 2, 4), (1, 2, 3), (6, 2, 3)):
        for dens in (1.0, 1e-7, 3e5):
            cls = LStep if rng.random() < 0.6 else LFree
            w = dict(rule="step", base=base, tadj=tadj, bins=r_max)
            cases.append((cls, dict(base=base, tadj=tadj, dens=dens), r_max, list(range(1, r_max)), w))
    cases.append((LStep, dict(base=0, dens=1.0), 3, [1, 2], given([1, 0, 0])))
    for r_max, lam in ((1.0, 1.0), (10.0, 1e-4), (300.0, 1e-7)):
        cases.append((dists.ConstantSphericalDistribution, dict(Lambda=lam), r_max,
                      [r_max * k / 4 for k in (1, 2, 3)], dict(rule="sphere", bins=4)))
        cases.append((dists.FlatlandDistribution, dict(Lambda=lam), r_max,
                      [r_max * k / 8 for k in range(1, 8)], even(8)))
    for delta in (1.0, 2.0):
        cases.append((dists.ZPowerSphericalDistribution, dict(Lambda=2.0, delta=delta), 3.0, [1, 2],
                      dict(rule="zpow%d" % delta, bins=3)))
    cases.append((dists.ZPowerSphericalDistribution, dict(Lambda=2.0, delta=0.0), 4.0, [1, 2, 3],
                  dict(rule="sphere", bins=4)))
    cases.append((dists.ZPowerSphericalDistribution, dict(Lambda=0.3, delta=-3.0), 20.0,
                  quantiles(lambda r: r * r * (1 + r) ** -3.0, 20.0, EIGHTHS), even(8)))
    for rate in (True, False):
        adj = (lambda r: 1 + r) if rate else (lambda r: 1 + 0 * r)
        for r_max, delta in ((2.0, 1.0), (5.0, -2.0), (0.3, 4.0)):
            f = lambda r, d=delta, a=adj: (1 + r) ** d * volume(r) / a(r)
            cases.append((dists.ZPowerCosmoDistribution, dict(Lambda=0.1, delta=delta, _is_rate=rate), r_max,
                          quantiles(f, r_max, EIGHTHS), even(8)))
        kw = dict(r0=100.0, a=0.02, rise=0.5, decay=3.8, peak=1.5)
        f = lambda r, a=adj: density("sfr", kw, r) * volume(r) / a(r)
        cases.append((dists.SFRDistribution, dict(kw, _is_rate=rate), 6.0, quantiles(f, 6.0, EIGHTHS), even(8)))
        f = lambda r, a=adj: volume(r) / a(r)
        cases.append((UniformCosmoDistribution, dict(r0=2.0, zmin=0.5, zmax=2.0, _is_rate=rate), 2.0,
                      quantiles(f, 2.0, EIGHTHS), even(8)))
    for r_max in (1.0, 40.0):
        # the maximum is resolved by 500 places, though not by few
        at = r_max * float(rng.uniform(0.05, 0.95))
        width = r_max * float(rng.choice([0.004, 0.008]))
        cases.append((LRing, dict(at=at, width=width, dens=float(rng.choice([1.0, 1e4]))), r_max,
                      quantiles(lambda r, a=at, w=width: ring(a, w, r), r_max, EIGHTHS), even(8)))
    for r_max in (2.0, 30.0):
        # rising up to the very end
        cases.append((LRing, dict(at=r_max, width=r_max / 30), r_max,
                      quantiles(lambda r, a=r_max: ring(a, a / 30, r), r_max, EIGHTHS), even(8)))
    order = rng.permutation(len(cases))
    for j in order:
        cls, kw, r_max, edges, w = cases[int(j)]
        for norm in (False, True):
            bars = bool(rng.random() < 0.4)
            o.part()
            n = 2500 * effort
            d = spatial(cls, r_max, **kw)
            before = values(d, kw)
            popsynth_config.show_progress = bars
            try:
                if rng.random() < 0.5:
                    s = synth(d, pareto(), seed=int(rng.integers(1, 2**30)))
                    v = s.draw_survey(n_samples=n, normalize=norm).distances
                else:
                    np.random.seed(int(rng.integers(1, 2**30)))
                    d.draw_distance(n, normalize=norm)
                    v = d.distances
            finally:
                popsynth_config.show_progress = False
            o.bins("C18", "distances" + (" of a normalized survey" if norm else ""), v, edges, w, 0.0, r_max)
            mid = float(np.median(v)) if len(v) else 0.0
            independent(o, "C18", "distances", np.concatenate([v[:-1:2], v[1::2]])
                        if rng.random() < 0.5 else v, mid)
            o.fact("C18", "another number of distances", len(v) == n)
            o.fact("C18,C17", "drawing changed a parameter", values(d, kw) == before)
            if w["rule"] == "step" and n:
                # within a bin they are uniform
                o.bins("C18", "distances within a bin", np.asarray(v) % 1.0, EIGHTHS, even(8))


# ------------------------------------------------------------------- C21


def zq(q):
    return ND.inv_cdf(q)


def trunc_q(lo, hi):
    a, b = ND.cdf(lo), ND.cdf(hi)
    return lambda q: zq(min(max(a + q * (b - a), 1e-15), 1 - 1e-15))


def plaw_q(x0, x1, a):
    if a == -1:
        return lambda q: x0 * (x1 / x0) ** q
    return lambda q: ((x1 ** (a + 1) - x0 ** (a + 1)) * q + x0 ** (a + 1)) ** (1 / (a + 1))


def piece(x0, x1, a):
    return math.log(x1 / x0) if a == -1 else (x1 ** (a + 1) - x0 ** (a + 1)) / (a + 1)


def bpl_q(x0, xb, x1, a, b):
    lo, hi = piece(x0, xb, a), xb ** (a - b) * piece(xb, x1, b)
    w = lo / (lo + hi)

    def q_(q):
        if q < w:
            return plaw_q(x0, xb, a)(q / w)
        return plaw_q(xb, x1, b)((q - w) / (1 - w))

    return q_


def law_of(cls, k):
    """(quantile function, lower end, upper end) of the documented law"""
    inf = math.inf
    if cls in ("NormalAuxSampler",):
        return (lambda q: k["mu"] + k["tau"] * zq(q)), -inf, inf
    if cls in ("LogNormalAuxSampler", "LogNormalDistribution"):
        return (lambda q: math.exp(k["mu"] + k["tau"] * zq(q))), 0, inf
    if cls in ("Log10NormalAuxSampler", "Log10NormalDistribution"):
        return (lambda q: 10 ** (k["mu"] + k["tau"] * zq(q))), 0, inf
    if cls == "TruncatedNormalAuxSampler":
        f = trunc_q((k["lower"] - k["mu"]) / k["tau"], (k["upper"] - k["mu"]) / k["tau"])
        return (lambda q: k["mu"] + k["tau"] * f(q)), k["lower"], k["upper"]
    if cls == "TruncatedLogNormalAuxSampler":
        lo = (math.log(k["lower"]) - k["mu"]) / k["tau"] if k["lower"] > 0 else -9.0
        f = trunc_q(lo, (math.log(k["upper"]) - k["mu"]) / k["tau"])
        return (lambda q: math.exp(k["mu"] + k["tau"] * f(q))), k["lower"], k["upper"]
    if cls == "TruncatedLog10NormalAuxSampler":
        lo = (math.log10(k["lower"]) - k["mu"]) / k["tau"] if k["lower"] > 0 else -9.0
        f = trunc_q(lo, (math.log10(k["upper"]) - k["mu"]) / k["tau"])
        return (lambda q: 10 ** (k["mu"] + k["tau"] * f(q))), k["lower"], k["upper"]
    if cls == "ParetoAuxSampler":
        return (lambda q: k["xmin"] * (1 - q) ** (-1 / k["alpha"])), k["xmin"], inf
    if cls == "ParetoDistribution":
        return (lambda q: k["Lmin"] * (1 - q) ** (-1 / k["alpha"])), k["Lmin"], inf
    if cls == "PowerLawAuxSampler":
        return plaw_q(k["xmin"], k["xmax"], k["alpha"]), k["xmin"], k["xmax"]
    if cls == "BrokenPowerLawAuxSampler":
        return bpl_q(k["xmin"], k["xbreak"], k["xmax"], k["alpha"], k["beta"]), k["xmin"], k["xmax"]
    if cls == "BPLDistribution":
        return bpl_q(k["Lmin"], k["Lbreak"], k["Lmax"], k["alpha"], k["beta"]), k["Lmin"], k["Lmax"]
    if cls == "SchechterDistribution":
        return (lambda q: k["Lmin"] * float(ss.gamma.ppf(q, 1 + k["alpha"]))), 0, inf
    if cls == "LogUniLuminiosityDistribution":
        return plaw_q(k["Lmin"], k["Lmax"], -1), k["Lmin"], k["Lmax"]
    if cls == "ViewingAngleSampler":
        m = math.radians(k["max_angle"])
        return (lambda q: math.acos(1 - q * (1 - math.cos(m)))), 0, m
    if cls == "RASampler":
        return (lambda q: 2 * math.pi * q), 0, 2 * math.pi
    if cls == "DecSampler":
        return (lambda q: math.acos(1 - 2 * q)), 0, math.pi
    raise KeyError(cls)


def u(rng, a, b):
    return float(rng.uniform(a, b))


def ch(rng, *xs):
    return xs[int(rng.integers(0, len(xs)))]


def sampler_params(cls, rng):
    if cls in ("NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler"):
        return dict(mu=ch(rng, 0, 1.0, -3.0), tau=ch(rng, 0, 0.1, 1, 2.0))
    if cls == "TruncatedNormalAuxSampler":
        lower = ch(rng, -5.0, -1.0, 0.0, 0)
        return dict(mu=ch(rng, 0, 0.5, 4.0), tau=ch(rng, 0, 0.5, 1, 3.0), lower=lower,
                    upper=lower + ch(rng, 0.5, 2.0, 8.0))
    if cls.startswith("TruncatedLog"):
        lower = ch(rng, 0, 0.1, 1.0, 3.0)
        return dict(mu=ch(rng, 0, 0.5, -1.0), tau=ch(rng, 0, 0.5, 1, 2.0), lower=lower,
                    upper=lower + ch(rng, 0.5, 5.0, 50.0))
    if cls == "ParetoAuxSampler":
        return dict(xmin=ch(rng, 0.5, 1, 10.0), alpha=ch(rng, 0.5, 1, 2.5, 8.0))
    if cls == "PowerLawAuxSampler":
        x = ch(rng, 0.5, 1, 10.0)
        return dict(xmin=x, xmax=x * ch(rng, 1.5, 10.0, 1000.0), alpha=ch(rng, -2.5, -2, -1, -1.0, -0.5, 0, 1, 3.0))
    if cls in ("BrokenPowerLawAuxSampler", "BPLDistribution"):
        x = ch(rng, 0.5, 1.0, 10.0)
        b = x * ch(rng, 1.5, 10.0)
        k = dict(alpha=ch(rng, -1, -2.0, -0.5, 0.0, 1.0, 2.5), beta=ch(rng, -1, -3.5, -2.0, -0.5, 0.5))
        n = ("xmin", "xbreak", "xmax") if cls[:2] == "Br" else ("Lmin", "Lbreak", "Lmax")
        k.update(zip(n, (x, b, b * ch(rng, 2.0, 30.0))))
        return k
    if cls == "ParetoDistribution":
        return dict(Lmin=ch(rng, 0.5, 1, 1e50), alpha=ch(rng, 0.5, 1, 2.5))
    if cls == "SchechterDistribution":
        return dict(Lmin=ch(rng, 0.5, 1, 1e50), alpha=ch(rng, -0.5, 0, 1, 2.5))
    if cls in ("LogNormalDistribution", "Log10NormalDistribution"):
        return dict(mu=ch(rng, 0, 2.0, -1.0), tau=ch(rng, 0, 0.2, 1, 2.0))
    if cls == "LogUniLuminiosityDistribution":
        x = ch(rng, 0.5, 1, 1e40)
        return dict(Lmin=x, Lmax=x * ch(rng, 2.0, 1e3))
    if cls == "ViewingAngleSampler":
        return dict(max_angle=ch(rng, 90, 180, 10.0, 45.0, 0))
    return {}


def given_as(rng, k):
    """the same parameters, as whole numbers where they are and as floats elsewhere"""
    whole = rng.random() < 0.5
    return {p: (int(v) if whole and abs(v) < 1e9 and float(v) == int(v) else float(v)) for p, v in k.items()}


AUX = ["NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "TruncatedNormalAuxSampler",
       "TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler", "ParetoAuxSampler",
       "PowerLawAuxSampler", "BrokenPowerLawAuxSampler", "ViewingAngleSampler", "DeltaAuxSampler"]
LUM = ["ParetoDistribution", "SchechterDistribution", "LogNormalDistribution", "Log10NormalDistribution",
       "BPLDistribution", "LogUniLuminiosityDistribution", "DeltaDistribution"]


def fixed_at(cls, k):
    """the fixed value where the width vanishes"""
    if cls == "DeltaAuxSampler":
        return k["xp"]
    if cls == "DeltaDistribution":
        return k["Lp"]
    if cls == "ViewingAngleSampler" and k["max_angle"] == 0:
        return 0.0
    if k.get("tau", 1) != 0:
        return None
    if "Log10" in cls:
        return 10 ** float(k["mu"])
    if "LogNormal" in cls:
        return math.exp(k["mu"])
    return k["mu"]


def judge_law(o, cls, k, vals, n, more=()):
    what = "values of a " + cls
    o.fact("C21", what + " are not as many as asked", len(vals) == n)
    fix = fixed_at(cls, k)
    if fix is not None:
        o.fact("C21", what + " without width are not fixed",
               np.all(np.abs(np.asarray(vals, float) - fix) <= 1e-9 * max(1, abs(fix))))
        return
    q, lo, hi = law_of(cls, k)
    tol = 1e-9
    lo = lo - abs(lo) * tol if math.isfinite(lo) else None
    hi = hi + abs(hi) * tol if math.isfinite(hi) else None
    o.bins("C21", what, vals, [q(x) for x in TAILS], given(TAILW), lo, hi)
    independent(o, "C21", what, vals, q(0.5))


def valid(cls, k):
    """the truncation bounds hold the fixed value"""
    f = fixed_at(cls, k)
    if f is not None and "lower" in k:
        return k["lower"] * (1 + 1e-9) <= f <= k["upper"] * (1 - 1e-9) or k["lower"] < f < k["upper"]
    if "lower" in k:
        # not too far in a tail to be computed from this side
        q, lo, hi = law_of(cls, k)
        t = (k["lower"] if cls == "TruncatedNormalAuxSampler" else
             math.log(k["lower"]) / (1 if cls == "TruncatedLogNormalAuxSampler" else math.log(10))
             if k["lower"] > 0 else -1e9)
        return (t - k["mu"]) / k["tau"] < 4 and (
            (k["upper"] if cls == "TruncatedNormalAuxSampler" else
             math.log(k["upper"]) / (1 if cls == "TruncatedLogNormalAuxSampler" else math.log(10)))
            - k["mu"]) / k["tau"] > -4
    return True


def make_sampler(cls, name, k, sigma, observed):
    if cls == "ViewingAngleSampler":
        s = auxs.ViewingAngleSampler()
    elif cls in ("RASampler", "DecSampler"):
        sky = SkySampler()
        return sky.ra_sampler if cls == "RASampler" else sky.dec_sampler
    else:
        s = getattr(auxs, cls)(name, observed=observed)
        s.sigma = sigma
    for p, v in k.items():
        setattr(s, p, v)
    return s


def at_points(o, cls, k, lum):
    """the density at single, whole and outlying luminosities"""
    fix = fixed_at(cls, k)
    if cls == "DeltaDistribution":
        ok = all(np.all(np.asarray(lum.phi(v)) == w) for v, w in (
            (fix, 1), (float(fix), 1), (fix + 1 + fix, 0), (fix / 2 if fix else -1.0, 0), ([fix], [1]),
            (np.array([fix, 2 * fix + 1, fix]), [1, 0, 1]), (np.array([]), [])))
        o.fact("C21,C22", "the density of a %s is not one where the luminosity lies only" % cls, ok)
        return
    if fix is not None:
        return
    q, lo, hi = law_of(cls, k)
    ts = [q(x) for x in (0.1, 0.3, 0.5, 0.9)]
    whole = [t for t in (1, 2, 3, 7, 20, 150) if lo < t < hi]
    each = [float(np.ravel(lum.phi(t))[0]) for t in ts]
    o.fact("C21,C22", "the density of a %s depends on how it is asked for" % cls,
           all(np.size(lum.phi(t)) == 1 for t in ts)
           and np.allclose(each, np.asarray(lum.phi(np.array(ts))), rtol=1e-9, atol=0)
           and np.allclose(np.asarray(lum.phi(np.array(whole, dtype=int)), float),
                           np.asarray(lum.phi(np.array(whole, dtype=float)), float), rtol=1e-9, atol=0)
           and all(np.allclose(np.ravel(lum.phi(t)), np.ravel(lum.phi(float(t))), rtol=1e-9, atol=0) for t in whole))
    out = ([lo * 0.25, lo * 0.9] if lo > 0 else []) + ([hi * 1.1, hi * 7] if math.isfinite(hi) else [])
    o.fact("C21,C22", "the density of a %s is not zero outside its support" % cls,
           np.all(np.asarray(lum.phi(np.array(out))) == 0) if out else True)


def samplers(o, rng, effort):
    n = 8000
    for rounds in range(4 * effort):
        o.part()
        lumcls = LUM[rounds % len(LUM)] if rng.random() < 0.5 else LUM[int(rng.integers(0, len(LUM)))]
        lk = sampler_params(lumcls, rng) if lumcls != "DeltaDistribution" else dict(Lp=ch(rng, 0, 1, 1e50))
        lk = given_as(rng, lk)
        lum = getattr(dists, lumcls)() if hasattr(dists, lumcls) else LogUniLuminiosityDistribution()
        for p, v in lk.items():
            setattr(lum, p, v)
        s = synth(spatial(LStep, 1, base=1), lum, seed=int(rng.integers(1, 2**30)))
        made = []
        for i, cls in enumerate(AUX + AUX[:9]):
            if i >= len(AUX) and rng.random() < 0.4:
                continue
            k = dict(xp=ch(rng, 0, 1.0, -2.5)) if cls == "DeltaAuxSampler" else sampler_params(cls, rng)
            k = given_as(rng, k)
            if not valid(cls, k):
                continue
            sigma = ch(rng, 0, 0.5, 1, 1.0, 3.0)
            observed = bool(rng.random() < 0.8)
            a = make_sampler(cls, "s%d" % i, k, sigma, observed)
            s.add_auxiliary_sampler(a)
            made.append((a.name, cls, k, sigma, observed and cls not in
                         ("ViewingAngleSampler", "RASampler", "DecSampler")))
        p = s.draw_survey(n_samples=n)
        judge_law(o, lumcls, lk, p.luminosities.latent, n)
        for name, cls, k, sigma, observed in made:
            q = getattr(p, name)
            true, obs = np.asarray(q.latent, float), np.asarray(q, float)
            judge_law(o, cls, k, true, n)
            if not observed:
                o.fact("C21", "unobserved values of a " + cls + " are scattered", np.array_equal(true, obs))
            elif sigma == 0:
                o.fact("C21", "values of a " + cls + " are scattered without an error",
                       np.all(np.abs(true - obs) <= 1e-9 * np.maximum(1, np.abs(true))))
            else:
                ok = np.abs(true) < 1e12
                if not np.all(ok):
                    continue
                z = (obs - true) / sigma
                o.bins("C21", "errors of a " + cls, z, [zq(x) for x in TAILS], given(TAILW))
                independent(o, "C21", "errors of a " + cls, z, 0.0)
                if fixed_at(cls, k) is None:
                    o.cells("C21", "errors of large and small values of a " + cls,
                            2 * (z > 0) + (np.argsort(np.argsort(true)) >= n // 2), 4)
        # the samplers of the sky, on their own
        sk = SkySampler()
        for cls, a in (("RASampler", sk.ra_sampler), ("DecSampler", sk.dec_sampler)):
            np.random.seed(int(rng.integers(1, 2**30)))
            a.draw(n)
            judge_law(o, cls, {}, np.asarray(a.true_values, float), n)
            o.fact("C21", "unobserved values of a " + cls + " are scattered",
                   np.array_equal(a.true_values, a.obs_values))
        if rounds == 0:
            s = synth(spatial(LStep, 1, base=1), pareto(), seed=int(rng.integers(1, 2**30)))
            s.add_auxiliary_sampler(SkySampler().ra_sampler)
            s.add_auxiliary_sampler(SkySampler().dec_sampler)
            try:
                ok = s.draw_survey(n_samples=50).n_objects == 50
            except AttributeError:
                ok = False
            o.fact("C21", "a survey with the sky samplers cannot be drawn", ok)
        # on their own, any number of values
        for m in (0, 1, 5):
            o.fact("C21", "values of a %s are not as many as asked" % lumcls,
                   len(lum.draw_luminosity(m)) == m)
        # the density a luminosity distribution reports
        if fixed_at(lumcls, lk) is None:
            q, lo, hi = law_of(lumcls, lk)
            edges = [q(x) for x in [1e-7] + TAILS + [1 - 1e-7]]
            x = []
            for a, b in zip(edges[:-1], edges[1:]):
                t = np.geomspace(a, b, 4001)
                y = np.asarray(lum.phi(t), dtype=float)
                x.append(int(round(1e5 * float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(t))))))
            o.tr.emit(op="density", prop="C21,C22", what="the density of a " + lumcls, x=x, w=given(TAILW))
        at_points(o, lumcls, lk, lum)


# ------------------------------------------------------------------- C24


def sky(o, rng, effort):
    n = 16000
    for cls, r_max, kw in (
        (LStep, 3, dict(base=2)), (dists.ConstantSphericalDistribution, 2.0, dict(Lambda=1.0)),
        (dists.ZPowerCosmoDistribution, 1.0, dict(Lambda=1.0, delta=1.0)),
        (dists.FlatlandDistribution, 2.0, dict(Lambda=1.0)),
    ):
        for rounds in range(effort):
            o.part()
            s = synth(spatial(cls, r_max, **kw), pareto(), seed=int(rng.integers(1, 2**30)))
            p = s.draw_survey(n_samples=n)
            th, ph = np.asarray(p.theta, float), np.asarray(p.phi, float)
            o.fact("C24", "not one position per object", len(th) == len(ph) == n)
            o.bins("C24", "polar angles", th, [math.acos(1 - 2 * q) for q in TAILS], given(TAILW), 0.0, math.pi)
            o.bins("C24", "azimuths", ph, [2 * math.pi * q for q in TAILS], given(TAILW), 0.0, 2 * math.pi)
            c = np.minimum((4 * (1 - np.cos(th)) / 2).astype(int), 3)
            a = np.minimum((4 * ph / (2 * math.pi)).astype(int), 3)
            o.cells("C24", "polar angles and azimuths together", 4 * c + a, 16)
            far = (np.argsort(np.argsort(p.distances)) >= n // 2).astype(int)
            o.cells("C24", "positions of near and far objects", 8 * far + 2 * c + a // 2, 16)
            bright = (np.argsort(np.argsort(p.luminosities)) >= n // 2).astype(int)
            o.cells("C24", "positions of bright and faint objects", 8 * bright + 2 * c + a // 2, 16)
            independent(o, "C24", "polar angles", th, math.pi / 2)
            independent(o, "C24", "azimuths", ph, math.pi)
            d = s.spatial_distribution
            o.fact("C24", "right ascension and declination do not agree with the angles",
                   np.allclose(d.ra, np.degrees(ph), rtol=1e-12, atol=1e-9)
                   and np.allclose(d.dec, 90 - np.degrees(th), rtol=1e-12, atol=1e-9)
                   and np.allclose(p.ra, d.ra, atol=1e-9) and np.allclose(p.dec, d.dec, atol=1e-9))
    for rounds in range(effort):
        spiral(o, rng)


# the arms of a galaxy: how wound, from where, towards where
ARMS = ((4.25, 3.48, 0.0), (4.25, 3.48, 3.141), (4.89, 4.90, 2.525), (4.89, 4.90, 5.666))
HEIGHT, BLUR, SPREAD = 0.3, 0.07, 0.35


def galaxy(lo, hi, n):
    """what a galaxy looks like between two radii"""
    g = np.random.default_rng(n)
    d = np.cbrt(g.uniform(lo**3, hi**3, size=n))
    wound, start, towards = np.array(ARMS)[g.integers(0, len(ARMS), size=n)].T
    th = wound * np.log(d / start) + towards + g.uniform(0, 2 * np.pi, size=n) * np.exp(-SPREAD * d)
    return th, g.laplace(scale=HEIGHT, size=n), d * (1 + BLUR * g.standard_normal(n))


def places(th, z, d, near):
    """cells of angle, side and distance"""
    a = np.minimum((32 * (np.mod(th, 2 * np.pi) / (2 * np.pi))).astype(int), 31)
    return 4 * a + 2 * (z > 0) + (d > near)


def spiral(o, rng):
    n = 16000
    for lo, hi in ((5.75, 6.0), (8.6, 9.0)):
        o.part()
        s = synth(spatial(LSpiral, hi, inner=lo, outer=hi, rho=1.0, a=1.0, b=1.0, R1=1.0, R0=1.0), pareto(),
                  seed=int(rng.integers(1, 2**30)))
        p = s.draw_survey(n_samples=n)
        th, ph, d = (np.asarray(x, float) for x in (p.theta, p.phi, p.distances))
        o.fact("C24", "not one position per object in a galaxy", len(th) == len(ph) == len(d) == n)
        z = d / np.tan(ph)
        refs = galaxy(lo, hi, 2000000)
        near = float(np.median(refs[2]))
        w = np.bincount(places(*refs, near), minlength=128)
        ok = np.isfinite(th) & np.isfinite(z) & np.isfinite(d)
        k = np.bincount(places(th[ok], z[ok], d[ok], near), minlength=128)
        # cells that are hardly ever hit together
        rare = w < len(refs[0]) / 1000
        k = list(k[~rare]) + [k[rare].sum()]
        w = list(w[~rare]) + [w[rare].sum()]
        w = [max(1, int(round(7800 * x / len(refs[0])))) for x in w]
        o.tr.emit(op="bins", prop="C24", what="places in a galaxy", n=n, k=[int(x) for x in k], w=given(w))
        o.bins("C24", "heights in a galaxy", z,
               [HEIGHT * math.log(2 * q) if q < 0.5 else -HEIGHT * math.log(2 * (1 - q)) for q in TAILS], given(TAILW))
        refd = np.sort(refs[2])
        o.bins("C24", "distances in a galaxy", d, [float(refd[int(q * len(refd))]) for q in TAILS], given(TAILW))
        independent(o, "C24", "heights", z, 0.0)
        independent(o, "C24", "distances in a galaxy", d, near)
        o.fact("C24", "the fluxes of a galaxy are not those of its places",
               np.allclose(p.fluxes.latent * 4 * np.pi * (1 + d)**2, p.luminosities, rtol=1e-9))
        o.fact("C24", "right ascension and declination in a galaxy do not agree with the angles",
               np.allclose(p.ra, np.degrees(ph), rtol=1e-12) and np.allclose(p.dec, 90 - np.degrees(th), rtol=1e-12))


PARTS = dict(scatter=scatter, counts=counts, distances=distances, samplers=samplers, sky=sky)


def main():
    out, seed, part, effort = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    popsynth_config.show_progress = False
    o = Out(out)
    PARTS[part](o, np.random.default_rng([seed, len(part)]), effort)
    o.tr.close()
    print("SCRIPTS", o.tr.n_scripts, "EVENTS", o.tr.n_events)


if __name__ == "__main__":
    main()
