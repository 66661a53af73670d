"""User-defined distributions, samplers and selections which report every call.

They are written against the documented extension interface of popsynth, so
no instrumentation of the package itself is needed.
"""
import numpy as np

import popsynth
from popsynth.aux_samplers import (
    DeltaAuxSampler,
    LogNormalAuxSampler,
    NormalAuxSampler,
    ParetoAuxSampler,
    TruncatedNormalAuxSampler,
)
from popsynth.auxiliary_sampler import (
    AuxiliaryParameter,
    AuxiliarySampler,
    DerivedLumAuxSampler,
    NonObservedAuxSampler,
)
from popsynth.distribution import (
    DistributionParameter,
    LuminosityDistribution,
    SpatialDistribution,
)
from popsynth.distributions import (
    ConstantSphericalDistribution,
    LogNormalDistribution,
    ParetoDistribution,
    ZPowerCosmoDistribution,
)

from vtrace import Dig


class Recorder(object):
    """collects the calls made during a draw"""

    def __init__(self):
        self.calls = []
        self.on = False

    def add(self, **ev):
        if self.on:
            self.calls.append(ev)


REC = Recorder()


def vid(o):
    return getattr(o, "vid", None) or o.name


# ---------------------------------------------------------------- spatial


class _SpatialLog(object):
    def draw_distance(self, size, *args, **kwargs):
        super().draw_distance(size, *args, **kwargs)
        REC.add(op="dist", size=int(size), dist=Dig(self.distances))

    def draw_sky_positions(self, size):
        super().draw_sky_positions(size)
        REC.add(
            op="sky", size=int(size), theta=Dig(self.theta), phi=Dig(self.phi)
        )


class VStep(_SpatialLog, SpatialDistribution):
    """density doubling with every unit of distance (times dens)"""

    _distribution_name = "VStep"

    dens = DistributionParameter(default=1, vmin=0, is_normalization=True)
    base = DistributionParameter(default=2, vmin=0, vmax=10)

    def __init__(self, seed=1234, name="vstep"):
        super().__init__(name=name, seed=seed, form=r"\rho 2^{\lfloor r \rfloor}")

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return self.dens * np.power(self.base, np.floor(r))

    def transform(self, L, r):
        return L / (1.0 + r) ** 2


class VFlat(_SpatialLog, SpatialDistribution):
    """uniform in distance, without a normalization parameter"""

    _distribution_name = "VFlat"

    amp = DistributionParameter(default=1, vmin=0)

    def __init__(self, seed=1234, name="vflat"):
        super().__init__(name=name, seed=seed)

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return self.amp

    def time_adjustment(self, r):
        return 1.0

    def transform(self, L, r):
        return L + 10.0 * r


class VSphere(_SpatialLog, ConstantSphericalDistribution):
    _distribution_name = "VSphere"


class VCosmo(_SpatialLog, ZPowerCosmoDistribution):
    _distribution_name = "VCosmo"


# ---------------------------------------------------------------- luminosity


class _LumLog(object):
    def draw_luminosity(self, size=1):
        out = super().draw_luminosity(size)
        REC.add(op="lumdraw", size=int(size), lum=Dig(out))
        return out


class _VLumBase(LuminosityDistribution):
    _distribution_name = "VLumBase"

    a = DistributionParameter(default=1, vmin=0)
    b = DistributionParameter(default=3, vmin=1)

    def __init__(self, seed=1234, name="vlum"):
        super().__init__(name=name, seed=seed, form="L")

    def phi(self, L):
        return np.exp2(np.mod(np.floor(L), 3.0))

    def draw_luminosity(self, size=1):
        return self.a * np.random.randint(1, int(self.b) + 4, size=size).astype(
            float
        )


class VLum(_LumLog, _VLumBase):
    _distribution_name = "VLum"


class VPareto(_LumLog, ParetoDistribution):
    _distribution_name = "VPareto"


class VLogN(_LumLog, LogNormalDistribution):
    _distribution_name = "VLogN"


# ---------------------------------------------------------------- samplers


class _Log(object):
    """reports what a sampler sees and draws"""

    def _seen(self):
        deps = []
        for k, v in self.secondary_samplers.items():
            deps.append(
                {
                    "s": vid(v),
                    "t": Dig(v.true_values),
                    "o": Dig(v.obs_values),
                }
            )
        ev = dict(deps=deps)
        ev["dist"] = Dig(getattr(self, "_distance", None))
        ev["theta"] = Dig(getattr(self, "_theta", None))
        ev["phi"] = Dig(getattr(self, "_phi", None))
        lum = getattr(self, "_luminosity", None)
        ev["lum"] = Dig(lum)
        return ev

    def true_sampler(self, size=1):
        ev = self._seen()
        super().true_sampler(size=size)
        REC.add(
            op="call",
            ph="true",
            s=vid(self),
            size=int(size),
            vals=Dig(self._true_values),
            **ev,
        )

    def observation_sampler(self, size=1):
        before = Dig(self._true_values)
        super().observation_sampler(size)
        REC.add(
            op="call",
            ph="obs",
            s=vid(self),
            size=int(size),
            true=before,
            vals=Dig(self._obs_values),
        )


class _VBase(AuxiliarySampler):
    _auxiliary_sampler_name = "VBase"

    p = AuxiliaryParameter(default=1)
    q = AuxiliaryParameter(default=2, vmin=0, vmax=8)

    _ud = False
    _ul = False
    _has_prob = False

    def __init__(self, name, observed=True):
        super().__init__(
            name=name,
            observed=observed,
            uses_distance=self._ud,
            uses_luminosity=self._ul,
        )

    def _draw(self, size):
        v = np.random.randint(-4, 6, size=size) * 0.5 + self.p + 0 * self.q
        if self._ud:
            v = v + np.floor(self._distance)
        if self._ul:
            v = v + np.floor(self._luminosity)
        for s in self.secondary_samplers.values():
            v = v + np.floor(s.true_values) + np.floor(s.obs_values)
        return v

    def true_sampler(self, size=1):
        self._true_values = self._draw(size)

    def observation_sampler(self, size=1):
        self._obs_values = (
            self._true_values + np.random.randint(-2, 3, size=size) * 0.25
        )

    def _compute_probability(self):
        if not self._has_prob:
            return None
        return np.exp2(np.mod(np.floor(self._true_values), 3.0))


class VAux(_Log, _VBase):
    _auxiliary_sampler_name = "VAux"


class VAuxD(_Log, _VBase):
    _auxiliary_sampler_name = "VAuxD"
    _ud = True


class VAuxL(_Log, _VBase):
    _auxiliary_sampler_name = "VAuxL"
    _ul = True


class VAuxDL(_Log, _VBase):
    _auxiliary_sampler_name = "VAuxDL"
    _ud = True
    _ul = True


class VAuxP(_Log, _VBase):
    _auxiliary_sampler_name = "VAuxP"
    _has_prob = True


class VAuxPD(_Log, _VBase):
    _auxiliary_sampler_name = "VAuxPD"
    _has_prob = True
    _ud = True


class VNormal(_Log, NormalAuxSampler):
    _auxiliary_sampler_name = "VNormal"


class VLogNormal(_Log, LogNormalAuxSampler):
    _auxiliary_sampler_name = "VLogNormal"


class VDelta(_Log, DeltaAuxSampler):
    _auxiliary_sampler_name = "VDelta"


class VParetoA(_Log, ParetoAuxSampler):
    _auxiliary_sampler_name = "VParetoA"


class VTrunc(_Log, TruncatedNormalAuxSampler):
    _auxiliary_sampler_name = "VTrunc"


class _VNonObs(NonObservedAuxSampler):
    _auxiliary_sampler_name = "VNonObsBase"
    p = AuxiliaryParameter(default=1)

    def __init__(self, name):
        super().__init__(name=name)

    def true_sampler(self, size=1):
        self._true_values = self.p * np.random.uniform(0, 1, size=size)


class VNonObs(_Log, _VNonObs):
    _auxiliary_sampler_name = "VNonObs"


class _VDerBase(DerivedLumAuxSampler):
    _auxiliary_sampler_name = "VDerBase"

    p = AuxiliaryParameter(default=1)
    q = AuxiliaryParameter(default=2, vmin=0, vmax=8)
    _ud = False
    _has_prob = False

    def __init__(self, name="derived"):
        super().__init__(name, uses_distance=self._ud)

    def true_sampler(self, size=1):
        v = np.random.randint(0, 6, size=size) * 0.5 + self.p + 0 * self.q
        if self._ud:
            v = v + np.floor(self._distance)
        for s in self.secondary_samplers.values():
            v = v + np.floor(s.true_values) + np.floor(s.obs_values)
        self._true_values = v

    def compute_luminosity(self):
        lum = np.abs(self._true_values) + 1.0
        for s in self.secondary_samplers.values():
            lum = lum + np.abs(s.true_values)
        REC.add(
            op="derive",
            s=vid(self),
            lum=Dig(lum),
            true=Dig(self._true_values),
            deps=[
                {"s": vid(v), "t": Dig(v.true_values), "o": Dig(v.obs_values)}
                for v in self.secondary_samplers.values()
            ],
        )
        return lum

    def _compute_probability(self):
        if not self._has_prob:
            return None
        return np.exp2(np.mod(np.floor(self._true_values), 3.0))


class VDer(_Log, _VDerBase):
    _auxiliary_sampler_name = "VDer"


class VDerD(_Log, _VDerBase):
    _auxiliary_sampler_name = "VDerD"
    _ud = True


class VDerP(_Log, _VDerBase):
    _auxiliary_sampler_name = "VDerP"
    _has_prob = True


SPATIAL = {c._distribution_name: c for c in (VStep, VFlat, VSphere, VCosmo)}
LUM = {c._distribution_name: c for c in (VLum, VPareto, VLogN)}
SAMPLERS = {
    c._auxiliary_sampler_name: c
    for c in (
        VAux,
        VAuxD,
        VAuxL,
        VAuxDL,
        VAuxP,
        VAuxPD,
        VNormal,
        VLogNormal,
        VDelta,
        VParetoA,
        VTrunc,
        VNonObs,
        VDer,
        VDerD,
        VDerP,
    )
}

# declared parameters: name -> (default or None, vmin, vmax); read from the
# documentation of the classes and not from the objects under test
PARS = {
    "VStep": {"r_max": 10, "dens": 1, "base": 2},
    "VFlat": {"r_max": 10, "amp": 1},
    "VSphere": {"r_max": 10, "Lambda": 1},
    "VCosmo": {"r_max": 10, "Lambda": 1, "delta": None},
    "VLum": {"a": 1, "b": 3},
    "VPareto": {"Lmin": 1, "alpha": 1},
    "VLogN": {"mu": None, "tau": None},
    "VNormal": {"mu": 0, "tau": 1, "sigma": 1},
    "VLogNormal": {"mu": 0, "tau": 1, "sigma": 1},
    "VDelta": {"xp": 0, "sigma": 1},
    "VParetoA": {"xmin": 1, "alpha": 1, "sigma": 1},
    "VTrunc": {"mu": 0, "tau": 1, "lower": None, "upper": None, "sigma": 1},
    "VNonObs": {"p": 1},
}
for _n in ("VAux", "VAuxD", "VAuxL", "VAuxDL", "VAuxP", "VAuxPD", "VDer", "VDerD", "VDerP"):
    PARS[_n] = {"p": 1, "q": 2}
