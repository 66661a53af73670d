"""Descriptions of population synths, and building real ones from them.

A description is a dictionary
  seed
  spatial   {name, pars, rate}            rate is "yes", "no" or "none"
  lum       {name, pars}; name "none" for none
  flux, dist, space   {name, pars}; name "none" for none
  aux       names of the samplers that are added to the synth, in order
  derived   name of the derived luminosity sampler or "none"
  samplers  {name: {type, observed, pars, secondary, sel: {name, pars, uses}}}
Parameters that are not in pars have their defaults.
"""
import numpy as np

import popsynth
import popsynth.aux_samplers as auxs
import popsynth.distributions as dists
import popsynth.selection_probability as sels
from popsynth.auxiliary_sampler import (
    AuxiliaryParameter,
    AuxiliarySampler,
    DerivedLumAuxSampler,
    NonObservedAuxSampler,
)
from popsynth.distribution import DistributionParameter
from popsynth.selection_probability.selection_probability import SelectionParameter
from popsynth.distributions.uniform_distribution import (
    LogUniLuminiosityDistribution,
    UniformCosmoDistribution,
)
from popsynth.distributions.spiral_galaxy_distribution import SpiralGalaxyDistribution


# ---------------------------------------------------------------- samplers


class SumSampler(AuxiliarySampler):
    _auxiliary_sampler_name = "VSumSampler"
    mu = AuxiliaryParameter(default=0)
    tau = AuxiliaryParameter(default=1, vmin=0)
    sigma = AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, name, observed=True):
        super().__init__(name, observed=observed)

    def true_sampler(self, size):
        v = np.random.normal(self.mu, self.tau, size=size)
        for k, s in enumerate(self.secondary_samplers.values()):
            v = v + (k + 1) * s.true_values
        self._true_values = v

    def observation_sampler(self, size):
        self._obs_values = self._true_values + np.random.normal(0, self.sigma, size=size)


class FarSampler(AuxiliarySampler):
    """a quantity that depends on the distance and the position"""

    _auxiliary_sampler_name = "VFarSampler"
    slope = AuxiliaryParameter(default=1)
    sigma = AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, name, observed=True):
        super().__init__(name, observed=observed, uses_distance=True, uses_sky_position=True)

    def true_sampler(self, size):
        v = self.slope * self._distance + np.random.uniform(0, 1, size=size) + self._theta
        for s in self.secondary_samplers.values():
            v = v - s.obs_values
        self._true_values = v

    def observation_sampler(self, size):
        self._obs_values = self._true_values + np.random.normal(0, self.sigma, size=size)


class BrightSampler(AuxiliarySampler):
    """a quantity that depends on the luminosity"""

    _auxiliary_sampler_name = "VBrightSampler"
    slope = AuxiliaryParameter(default=1)
    sigma = AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, name, observed=True):
        super().__init__(name, observed=observed, uses_luminosity=True)

    def true_sampler(self, size):
        self._true_values = self.slope * np.log10(self._luminosity) + np.random.normal(0, 1, size=size)

    def observation_sampler(self, size):
        self._obs_values = self._true_values + np.random.normal(0, self.sigma, size=size)


class HiddenSampler(NonObservedAuxSampler):
    """takes no word on whether it is observed"""

    _auxiliary_sampler_name = "VHiddenSampler"
    lam = AuxiliaryParameter(default=2, vmin=0)

    def __init__(self, name):
        super().__init__(name)

    def true_sampler(self, size):
        self._true_values = np.random.poisson(self.lam, size=size).astype(float)


class LumSampler(DerivedLumAuxSampler):
    _auxiliary_sampler_name = "VLumSampler"
    scale = AuxiliaryParameter(default=1, vmin=0)
    width = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name):
        super().__init__(name, uses_distance=False)

    def true_sampler(self, size):
        v = np.random.normal(0, self.width, size=size)
        for s in self.secondary_samplers.values():
            v = v + 0.1 * np.tanh(s.true_values)
        self._true_values = v

    def compute_luminosity(self):
        return self.scale * np.exp(self._true_values)


class StartSampler(AuxiliarySampler):
    """has a variable that is given when it is made"""

    _auxiliary_sampler_name = "VStartSampler"
    mu = AuxiliaryParameter(default=0)
    sigma = AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, name, observed=True, start=None):
        super().__init__(name, observed=observed)
        if start is not None:
            self.mu = start

    def true_sampler(self, size):
        self._true_values = np.random.exponential(1, size=size) + self.mu

    def observation_sampler(self, size):
        self._obs_values = self._true_values + np.random.normal(0, self.sigma, size=size)


class AnonSampler(AuxiliarySampler):
    """gives itself a name"""

    _auxiliary_sampler_name = "VAnonSampler"
    width = AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, observed=True):
        super().__init__("anon", observed=observed)

    def true_sampler(self, size):
        self._true_values = np.random.uniform(0, self.width, size=size)

    def observation_sampler(self, size):
        self._obs_values = self._true_values - np.random.exponential(1, size=size)


class SubNormal(auxs.NormalAuxSampler):
    """inherits its parameters and has one of its own"""

    _auxiliary_sampler_name = "VSubNormal"
    power = AuxiliaryParameter(default=1)

    def true_sampler(self, size):
        super().true_sampler(size)
        self._true_values = self._true_values * self.power


class SubPareto(dists.ParetoDistribution):
    _distribution_name = "VSubPareto"
    stretch = DistributionParameter(default=1, vmin=0)

    def draw_luminosity(self, size=1):
        return super().draw_luminosity(size) * self.stretch


class SubSphere(dists.ZPowerSphericalDistribution):
    _distribution_name = "VSubSphere"
    core = DistributionParameter(default=0, vmin=0)

    def dNdV(self, r):
        return super().dNdV(r) * np.exp(-self.core * r)


class SubCosmo(dists.ZPowerCosmoDistribution):
    _distribution_name = "VSubCosmo"
    cut = DistributionParameter(default=3, vmin=0)

    def dNdV(self, r):
        return super().dNdV(r) / (1 + (r / (self.cut + 0.1)) ** 2)


class OddSelection(sels.BoxSelection):
    """the inherited bounds and a shift"""

    _selection_name = "VOddSelection"
    shift = SelectionParameter(default=0)

    def draw(self, size):
        super().draw(size)
        if self.shift > 0.5:
            self._selection = ~self._selection


# ------------------------------------------------------------------ tables


def U(a, b):
    return lambda rng: float(np.round(rng.uniform(a, b), 6))


def C(*xs):
    return lambda rng: xs[int(rng.integers(0, len(xs)))]


SPATIAL = {
    "ConstantSphericalDistribution": dict(r_max=C(1, 2.5, 4), Lambda=C(0.1, 1, 0.75)),
    "ZPowerSphericalDistribution": dict(r_max=C(1, 2.5), Lambda=C(0.1, 1), delta=C(0, -1, 1.5)),
    "FlatlandDistribution": dict(r_max=C(3, 8.5), Lambda=C(1, 2.5)),
    "ZPowerCosmoDistribution": dict(r_max=C(0.5, 1, 2.0), Lambda=C(0.5, 1), delta=C(0, 1, -2.5)),
    "SFRDistribution": dict(r_max=C(1, 2.0), r0=C(0.5, 1), a=C(0.02, 1, 0.5), rise=C(0.1, 1, 0),
                            decay=C(3.8, 1), peak=C(1, 1.5)),
    "UniformCosmoDistribution": dict(r_max=C(1, 1.5), r0=C(0.5, 2), zmin=C(0, 0.25), zmax=C(1, 0.75)),
    "SpiralGalaxyDistribution": dict(r_max=C(20, 10.5), rho=C(1, 0.1), a=C(1.64,), b=C(4.01, 3),
                                     R1=C(0.55, 0.25), R0=C(8.5, 8)),
    "VSubSphere": dict(r_max=C(1, 2.5), Lambda=C(0.1, 1), delta=C(0, 1.5), core=C(0, 0.7)),
    "VSubCosmo": dict(r_max=C(0.5, 1.1), Lambda=C(0.5, 1), delta=C(0, 1), cut=C(0.3, 2)),
}
COSMO = ("ZPowerCosmoDistribution", "SFRDistribution", "UniformCosmoDistribution", "VSubCosmo")
LUM = {
    "ParetoDistribution": dict(Lmin=C(1, 0.5, 10.0), alpha=C(1, 1.5, 2.25)),
    "SchechterDistribution": dict(Lmin=C(1, 0.5), alpha=C(0, 1, -0.5)),
    "LogNormalDistribution": dict(mu=C(0, 1, -0.5), tau=C(0, 1, 0.25)),
    "Log10NormalDistribution": dict(mu=C(0, 1, -0.5), tau=C(0, 1, 0.25)),
    "BPLDistribution": dict(Lmin=C(1, 0.5), alpha=C(-1.5, 0, -1), Lbreak=C(2, 3.5), beta=C(-2, -3.5),
                            Lmax=C(10, 50.0)),
    "DeltaDistribution": dict(Lp=C(1, 2.5)),
    "LogUniLuminiosityDistribution": dict(Lmin=C(1, 0.5), Lmax=C(10, 20.5)),
    "VSubPareto": dict(Lmin=C(1, 0.5), alpha=C(1, 2.25), stretch=C(1, 2.1, 0.3)),
}
AUX = {
    "NormalAuxSampler": dict(mu=C(0, 1, -2.5), tau=C(0, 1, 0.5), sigma=C(0, 1, 0.25)),
    "LogNormalAuxSampler": dict(mu=C(0, 1), tau=C(0, 1, 0.5), sigma=C(0, 1, 0.25)),
    "Log10NormalAuxSampler": dict(mu=C(0, 1), tau=C(0, 0.5), sigma=C(0, 1, 0.25)),
    "DeltaAuxSampler": dict(xp=C(0, 1, -0.5), sigma=C(0, 1, 0.25)),
    "ParetoAuxSampler": dict(xmin=C(1, 0.5), alpha=C(1, 2.5), sigma=C(0, 1)),
    "PowerLawAuxSampler": dict(xmin=C(1, 0.5), xmax=C(2, 10), alpha=C(0, -1, 2), sigma=C(0, 1)),
    "BrokenPowerLawAuxSampler": dict(xmin=C(1,), alpha=C(0, -1), xbreak=C(2,), beta=C(-2, 0.5),
                                     xmax=C(4,), sigma=C(0, 1)),
    "TruncatedNormalAuxSampler": dict(mu=C(0, 0.5), tau=C(1, 2), lower=C(0, -1), upper=C(1, 2.5), sigma=C(0, 1)),
    "TruncatedLogNormalAuxSampler": dict(mu=C(0, 0.5), tau=C(1,), lower=C(0.5,), upper=C(2, 3), sigma=C(0, 1)),
    "TruncatedLog10NormalAuxSampler": dict(mu=C(0, 0.5), tau=C(1,), lower=C(0.5,), upper=C(2, 3), sigma=C(0, 1)),
    "ViewingAngleSampler": dict(max_angle=C(90, 45, 180)),
    "VSumSampler": dict(mu=C(0, 1, -2.5), tau=C(0, 1, 0.5), sigma=C(0, 1)),
    "VFarSampler": dict(slope=C(0, 1, 2.5), sigma=C(0, 1)),
    "VBrightSampler": dict(slope=C(0, 1, 2.5), sigma=C(0, 1)),
    "VHiddenSampler": dict(lam=C(0, 2, 5.5)),
    "VLumSampler": dict(scale=C(1, 2.5), width=C(0, 0.5, 1)),
    "VStartSampler": dict(mu=C(0, 1, -2.3), sigma=C(0, 1)),
    "VAnonSampler": dict(width=C(0, 1, 2.3)),
    "VSubNormal": dict(mu=C(0, 1, -2.5), tau=C(0, 1, 0.5), sigma=C(0, 1, 0.25), power=C(1, 2, -0.3)),
}
UNOBSERVED = ("ViewingAngleSampler", "VHiddenSampler", "VLumSampler")
POSITIVE = ("LogNormalAuxSampler", "Log10NormalAuxSampler", "ParetoAuxSampler", "PowerLawAuxSampler",
            "BrokenPowerLawAuxSampler")
NESTING = ("VSumSampler", "VFarSampler")
SEL = {
    "UnitySelection": {},
    "BernoulliSelection": dict(probability=C(0.5, 1, 0, 0.75)),
    "LowerBound": dict(boundary=C(0, 0.5, -1)),
    "UpperBound": dict(boundary=C(0, 2.5, 1)),
    "BoxSelection": dict(vmin=C(0, -1, 0.25), vmax=C(1, 2.5)),
    "SoftSelection": dict(boundary=C(0.5, 1), strength=C(1, 10, 5.5)),
    "HardFluxSelection": dict(boundary=C(0.01, 0.1, 1)),
    "SoftFluxSelection": dict(boundary=C(0.01, 0.1, 1), strength=C(1, 5.5)),
    "DistanceSelection": dict(min_distance=C(0, 0.5), max_distance=C(1, 2.5)),
    "VOddSelection": dict(vmin=C(0, -1, 0.25), vmax=C(1, 2.5), shift=C(0, 1, 0.3)),
    "GalacticPlaneSelection": dict(b_limit=C(0, 10, 45.5)),
}
DEFAULTS = {
    "ConstantSphericalDistribution": dict(r_max=10, Lambda=1),
    "ZPowerSphericalDistribution": dict(r_max=10, Lambda=1, delta=1),
    "FlatlandDistribution": dict(r_max=10, Lambda=1),
    "ZPowerCosmoDistribution": dict(r_max=10, Lambda=1),
    "SFRDistribution": dict(r_max=10),
    "UniformCosmoDistribution": dict(r_max=10),
    "SpiralGalaxyDistribution": dict(r_max=10),
    "ParetoDistribution": dict(Lmin=1, alpha=1),
    "SchechterDistribution": dict(Lmin=1, alpha=1),
    "DeltaDistribution": dict(Lp=0),
    "NormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "LogNormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "Log10NormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "DeltaAuxSampler": dict(xp=0, sigma=1),
    "ParetoAuxSampler": dict(xmin=1, alpha=1, sigma=1),
    "PowerLawAuxSampler": dict(xmin=1, xmax=2, alpha=1, sigma=1),
    "BrokenPowerLawAuxSampler": dict(sigma=1),
    "TruncatedNormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "TruncatedLogNormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "TruncatedLog10NormalAuxSampler": dict(mu=0, tau=1, sigma=1),
    "ViewingAngleSampler": dict(max_angle=90),
    "VSumSampler": dict(mu=0, tau=1, sigma=1),
    "VFarSampler": dict(slope=1, sigma=1),
    "VBrightSampler": dict(slope=1, sigma=1),
    "VHiddenSampler": dict(lam=2),
    "VLumSampler": dict(scale=1, width=0.5),
    "BernoulliSelection": dict(probability=0.5),
    "VStartSampler": dict(mu=0, sigma=1),
    "VAnonSampler": dict(width=1),
    "VSubNormal": dict(mu=0, tau=1, sigma=1, power=1),
    "VSubPareto": dict(Lmin=1, alpha=1, stretch=1),
    "VSubSphere": dict(r_max=10, Lambda=1, delta=1, core=0),
    "VSubCosmo": dict(r_max=10, Lambda=1, cut=3),
    "VOddSelection": dict(shift=0),
}
ANYTHING = ("UnitySelection", "BernoulliSelection")


# small integers too; compiled code can not raise to them everywhere
NARROW = False


def odd(rng, v):
    """the value, or one close to it that is no round number, or as a number of numpy"""
    r = rng.random()
    if r < 0.2:
        return float(v * (1 - 0.02 * rng.random()))
    if r < 0.3:
        return np.float64(v)
    if r < 0.35 and float(v) == int(v):
        return (np.int32 if NARROW and rng.random() < 0.5 else np.int64)(v)
    return v


def pick(rng, table, cls, keep=0.8):
    """values of the parameters, of which those with a default may be left out"""
    out = {}
    for k, f in table[cls].items():
        if k in DEFAULTS.get(cls, {}) and k != "r_max" and rng.random() > keep:
            continue
        out[k] = odd(rng, f(rng))
    return out


def selection(rng, names):
    n = names[int(rng.integers(0, len(names)))]
    return dict(name=n, pars=pick(rng, SEL, n) if n != "none" else {})


def uses_of(rng, cls, name):
    """what the selection of a sampler acts on"""
    if name in ANYTHING:
        return []
    if cls == "VFarSampler" and rng.random() < 0.5:
        return ["distance"]
    if cls == "VBrightSampler" and rng.random() < 0.5:
        return ["luminosity"]
    return ["obs_value"]


def describe(rng, spatials=None, depth=3, max_aux=4):
    """a random description"""
    sp = C(*(spatials or SPATIAL))(rng)
    d = dict(
        seed=int(rng.integers(0, 2**32)) if rng.random() < 0.8 else int(rng.integers(0, 3)),
        spatial=dict(name=sp, pars=pick(rng, SPATIAL, sp),
                     rate="none" if sp not in COSMO else C("yes", "no")(rng)),
        samplers={}, aux=[], derived="none",
    )
    if rng.random() < 0.65:
        lm = C(*LUM)(rng)
        d["lum"] = dict(name=lm, pars=pick(rng, LUM, lm))
        if lm == "DeltaDistribution":
            d["lum"]["pars"].setdefault("Lp", 1)
    else:
        d["lum"] = dict(name="none", pars={})
    d["flux"] = selection(rng, ["none", "none", "UnitySelection", "HardFluxSelection", "SoftFluxSelection",
                                "BernoulliSelection", "LowerBound", "BoxSelection", "SoftSelection", "VOddSelection"])
    d["dist"] = selection(rng, ["none", "none", "UnitySelection", "BernoulliSelection", "UpperBound"])
    d["space"] = selection(rng, ["none", "none", "DistanceSelection", "GalacticPlaneSelection"])
    if d["spatial"]["name"] == "SpiralGalaxyDistribution":
        d["space"] = dict(name="none", pars={})
    n = [0]

    def sampler(level, types):
        cls = C(*types)(rng)
        while cls == "VAnonSampler" and "anon" in d["samplers"]:
            cls = C(*types)(rng)
        name = ["x", "mass", "Epeak", "q"][n[0] % 4] + ("" if n[0] < 4 else str(n[0]))
        if rng.random() < 0.15:
            name = "a" + name
        if cls == "VAnonSampler":
            name = "anon"
        n[0] += 1
        sel = C(*(["UnitySelection"] * 3 + ["BernoulliSelection", "LowerBound", "UpperBound",
                                            "BoxSelection", "SoftSelection", "VOddSelection"]))(rng)
        observed = cls not in UNOBSERVED and bool(rng.random() < 0.7)
        uses = uses_of(rng, cls, sel)
        if sel == "SoftSelection" and uses != ["distance"] and (observed or cls not in POSITIVE):
            sel, uses = "UnitySelection", []
        d["samplers"][name] = dict(
            type=cls, observed=observed, pars=pick(rng, AUX, cls), secondary=[],
            sel=dict(name=sel, pars=pick(rng, SEL, sel), uses=uses),
        )
        if level < depth and cls in NESTING + ("VLumSampler",):
            for _ in range(int(rng.integers(0, 3))):
                if n[0] > 8:
                    break
                inner = [t for t in AUX if t not in ("VLumSampler", "VBrightSampler")]
                d["samplers"][name]["secondary"].append(sampler(level + 1, inner + list(NESTING) * 4))
        return name

    plain = [t for t in AUX if t != "VLumSampler"] + list(NESTING) * 3
    for _ in range(int(rng.integers(0, max_aux + 1))):
        if n[0] > 8:
            break
        d["aux"].append(sampler(1, plain))
    if d["lum"]["name"] == "none" or rng.random() < 0.15:
        d["derived"] = sampler(1, ["VLumSampler"])
    # one secondary may have two parents
    prim = [a for a in d["aux"] if d["samplers"][a]["type"] in NESTING]
    if len(prim) == 2 and d["samplers"][prim[0]]["secondary"] and rng.random() < 0.4:
        d["samplers"][prim[1]]["secondary"].append(d["samplers"][prim[0]]["secondary"][0])
    d["samplers"] = {k: d["samplers"][k] for k in sorted(d["samplers"])}
    return d


# ---------------------------------------------------------------- building


CLASSES = {c.__name__: c for c in (LogUniLuminiosityDistribution, UniformCosmoDistribution,
                                   SpiralGalaxyDistribution)}
CLASSES.update(VSumSampler=SumSampler, VFarSampler=FarSampler, VBrightSampler=BrightSampler,
               VHiddenSampler=HiddenSampler, VLumSampler=LumSampler, VStartSampler=StartSampler,
               VAnonSampler=AnonSampler, VSubNormal=SubNormal, VSubPareto=SubPareto, VSubSphere=SubSphere,
               VSubCosmo=SubCosmo, VOddSelection=OddSelection)


def cls_of(name):
    for m in (dists, auxs, sels):
        if hasattr(m, name):
            return getattr(m, name)
    return CLASSES[name]


def put(obj, pars):
    for k, v in pars.items():
        setattr(obj, k, v)
    return obj


GENERIC = ("LowerBound", "UpperBound", "BoxSelection", "SoftSelection", "VOddSelection")


def make_selection(s, uses):
    kw = {"use_" + u: True for u in uses} if s["name"] in GENERIC else {}
    return put(cls_of(s["name"])(**kw), s["pars"])


def make_sampler(name, d):
    cls = cls_of(d["type"])
    if d["type"] == "ViewingAngleSampler":
        s = cls()
        s._name = name
        s._obs_name = name + "_obs"
    elif d["type"] in UNOBSERVED:
        s = cls(name)
    elif d["type"] == "VAnonSampler":
        s = cls(observed=d["observed"])
    else:
        s = cls(name, observed=d["observed"])
    put(s, d["pars"])
    if not (d["sel"]["name"] == "UnitySelection"):
        s.set_selection_probability(make_selection(d["sel"], d["sel"]["uses"]))
    return s


def build(d):
    """a synth from a description, with the programming interface"""
    sp = cls_of(d["spatial"]["name"])
    if d["spatial"]["rate"] == "none":
        spatial = sp()
    else:
        spatial = sp(is_rate=d["spatial"]["rate"] == "yes")
    put(spatial, d["spatial"]["pars"])
    lum = None
    if d["lum"]["name"] != "none":
        lum = put(cls_of(d["lum"]["name"])(), d["lum"]["pars"])
    y = popsynth.PopulationSynth(spatial, lum, seed=d["seed"])
    if d["flux"]["name"] != "none":
        y.set_flux_selection(make_selection(d["flux"], ["flux"]))
    if d["dist"]["name"] != "none":
        y.set_distance_selection(make_selection(d["dist"], ["distance"]))
    if d["space"]["name"] != "none":
        y.add_spatial_selector(make_selection(d["space"], []))
    objs = {}

    def sampler(name):
        if name not in objs:
            objs[name] = make_sampler(name, d["samplers"][name])
            for k in d["samplers"][name]["secondary"]:
                objs[name].set_secondary_sampler(sampler(k))
        return objs[name]

    for a in d["aux"]:
        y.add_auxiliary_sampler(sampler(a))
    if d["derived"] != "none":
        y.add_auxiliary_sampler(sampler(d["derived"]))
    return y, objs


def drawable(rng, d):
    """draw options that make sense for a description"""
    o = dict(n_samples=int(rng.integers(0, 25)))
    if rng.random() < 0.3 and d["spatial"]["name"] != "SpiralGalaxyDistribution":
        o = dict(normalize=True) if rng.random() < 0.2 else {}
    if rng.random() < 0.5:
        o["flux_sigma"] = C(0.0, 0.5, 1.0, None)(rng)
        o["log10_flux_draw"] = bool(rng.random() < 0.5)
    return o
