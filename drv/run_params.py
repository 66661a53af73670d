"""drv/run_params.py OUT.ndjson SEED SCRIPTS: histories of parameters"""
import itertools
import math
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
import popsynth.aux_samplers as auxs
import popsynth.distributions as dists
import popsynth.selection_probability as sels
from popsynth.auxiliary_sampler import AuxiliaryParameter, AuxiliarySampler
from popsynth.distribution import (
    DistributionParameter,
    LuminosityDistribution,
    SpatialDistribution,
)
from popsynth.distributions.uniform_distribution import (
    LogUniLuminiosityDistribution,
    UniformCosmoDistribution,
)
from popsynth.selection_probability.selection_probability import (
    SelectionParameter,
    SelectionProbability,
)
from vtrace import Trace

GRID = [
    -1e3, -1.0, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 2.0, 10.0, 44.75, 45.0,
    89.75, 90.0, 90.25, 179.75, 180.0, 180.25, 1e3, float("nan"), float("inf"),
    float("-inf"),
]

PARS = dict(
    SFRDistribution="r_max r0 a rise decay peak",
    ZPowerCosmoDistribution="r_max Lambda delta",
    SpiralGalaxyDistribution="r_max rho a b R1 R0",
    ConstantSphericalDistribution="r_max Lambda",
    ZPowerSphericalDistribution="r_max Lambda delta",
    FlatlandDistribution="r_max Lambda",
    UniformCosmoDistribution="r_max r0 zmin zmax",
    DeltaDistribution="Lp",
    SchechterDistribution="Lmin alpha",
    ParetoDistribution="Lmin alpha",
    LogNormalDistribution="mu tau",
    Log10NormalDistribution="mu tau",
    BPLDistribution="Lmin alpha Lbreak beta Lmax",
    LogUniLuminiosityDistribution="Lmin Lmax",
    LogNormalAuxSampler="mu tau sigma",
    Log10NormalAuxSampler="mu tau sigma",
    NormalAuxSampler="mu tau sigma",
    DeltaAuxSampler="xp sigma",
    ViewingAngleSampler="max_angle",
    TruncatedNormalAuxSampler="mu tau lower upper sigma",
    TruncatedLogNormalAuxSampler="mu tau lower upper sigma",
    TruncatedLog10NormalAuxSampler="mu tau lower upper sigma",
    ParetoAuxSampler="xmin alpha sigma",
    PowerLawAuxSampler="xmin xmax alpha sigma",
    BrokenPowerLawAuxSampler="xmin alpha xbreak beta xmax sigma",
    GalacticPlaneSelection="b_limit",
    DistanceSelection="min_distance max_distance",
    BernoulliSelection="probability",
    BoxSelection="vmin vmax",
    LowerBound="boundary",
    UpperBound="boundary",
    SoftSelection="boundary strength",
)
PARS = {k: v.split() for k, v in PARS.items()}


def find(name):
    for m in (dists, auxs, sels):
        if hasattr(m, name):
            return getattr(m, name)
    if name == "UniformCosmoDistribution":
        return UniformCosmoDistribution
    if name == "LogUniLuminiosityDistribution":
        return LogUniLuminiosityDistribution
    import popsynth.selection_probability.generic_selectors as g
    import popsynth.selection_probability.spatial_selection as s

    for m in (g, s):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def code(v):
    if v is None:
        return -888888
    try:
        v = float(v)
    except Exception:  # noqa
        return -555555
    if math.isnan(v):
        return -999999
    if math.isinf(v):
        return 900000 if v > 0 else -700000
    if v * 4 != int(v * 4) or abs(v) > 1e5:
        return -555555
    return int(v * 4)


BASES = {
    "SpatialDistribution": (SpatialDistribution, DistributionParameter),
    "LuminosityDistribution": (LuminosityDistribution, DistributionParameter),
    "AuxiliarySampler": (AuxiliarySampler, AuxiliaryParameter),
    "SelectionProbability": (SelectionProbability, SelectionParameter),
}
SERIAL = itertools.count()


class Runner(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng

    def pick(self, s):
        return s[int(self.rng.integers(0, len(s)))]

    def flip(self, p):
        return bool(self.rng.random() < p)

    def begin(self, name):
        self.tr.begin(name)
        self.cls = {}  # name -> (class, parameters, family, built-in)
        self.obj = {}  # id -> (object, class name)
        self.norms = {}
        self.bounds = {}  # (class, parameter) -> bounds
        self.declares = {}  # class name -> own parameters
        self.n = 0

    # ------------------------------------------------------------ calls
    def declare(self, base, decls):
        """decls: name -> (default, lo, hi, norm)"""
        name = "Vc%d" % next(SERIAL)
        if base in BASES:
            b, par = BASES[base]
            fam = base
            inherited = ["r_max"] if base == "SpatialDistribution" else []
        else:
            b, inherited, fam, _ = self.cls[base]
            par = BASES[fam][1]
        ns = {
            k: par(default=d, vmin=lo, vmax=hi, is_normalization=n)
            for k, (d, lo, hi, n) in decls.items()
        }
        if fam.endswith("Distribution"):
            ns["_distribution_name"] = name
            for m in (
                "differential_volume", "dNdV", "transform", "phi", "draw_luminosity",
            ):
                ns[m] = lambda self, *a: 1.0
        elif fam == "AuxiliarySampler":
            ns["_auxiliary_sampler_name"] = name
            ns["true_sampler"] = lambda self, size: None
        else:
            ns["_selection_name"] = name
            ns["draw"] = lambda self, size: None
        try:
            c = type(b)(name, (b,), ns)
            ok, err = True, ""
        except Exception as e:  # noqa
            ok, err = False, type(e).__name__
        if ok:
            self.cls[name] = (c, list(dict.fromkeys(inherited + list(decls))), fam, False)
            self.declares[name] = list(decls)
            for k, v in list(self.bounds.items()):
                if k[0] == base:
                    self.bounds[name, k[1]] = v
            for k, (_, lo, hi, _) in decls.items():
                self.bounds[name, k] = (lo, hi)
            self.norms[name] = self.norms.get(base, []) + [k for k in decls if decls[k][3]]
        self.tr.emit(
            op="class", cls=name, base=base, ok=ok, err=err,
            decls={
                k: dict(d=code(d), lo=code(lo), hi=code(hi), norm=n)
                for k, (d, lo, hi, n) in decls.items()
            },
        )
        return name if ok else None

    def builtin(self, name):
        if name not in self.cls:
            self.cls[name] = (find(name), PARS[name], "", True)
        return name

    def new(self, cls):
        c, pars, fam, _ = self.cls[cls]
        self.n += 1
        o = "o%d" % self.n

        def make():
            if fam.endswith("Distribution") and fam:
                return c(name=o, seed=1, form="x")
            if fam == "AuxiliarySampler":
                return c(name=o)
            if fam == "SelectionProbability":
                return c(name=o)
            if issub(c, AuxiliarySampler) and cls != "ViewingAngleSampler":
                return c(name=o)
            return c()

        try:
            x = make()
            ok, err = True, ""
            self.obj[o] = (x, cls)
        except Exception as e:  # noqa
            ok, err = False, type(e).__name__
        self.tr.emit(op="new", o=o, cls=cls, ok=ok, err=err)
        return o

    def set(self, o, p, v):
        x, cls = self.obj[o]
        if self.flip(0.3):
            v = np.float64(v)
        elif v == v and abs(v) < 1e6 and v == int(v) and self.flip(0.5):
            v = int(v)
        try:
            setattr(x, p, v)
            ok = True
        except Exception:  # noqa
            ok = False
        self.tr.emit(op="set", o=o, p=p, v=code(v), ok=ok)

    def read(self, o, p):
        try:
            return code(getattr(self.obj[o][0], p))
        except Exception:  # noqa
            return -888888

    def get(self, o, p):
        self.tr.emit(op="get", o=o, p=p, v=self.read(o, p))

    def norm(self, o):
        try:
            v = code(self.obj[o][0].normalization_parameter)
        except Exception:  # noqa
            v = -888888
        self.tr.emit(op="norm", o=o, v=v)

    def look(self):
        self.tr.emit(
            op="look",
            vals={o: {p: self.read(o, p) for p in self.cls[c][1]} for o, (x, c) in self.obj.items()},
        )

    def fix(self, cls, p, fixed):
        """p is declared by cls itself"""
        par = self.cls[cls][0].__dict__[p]
        if self.flip(0.5):
            par.free = not fixed
        else:
            par.fix = fixed
        now = bool(par.fix)
        if bool(par.free) == now:
            now = not fixed
        self.tr.emit(op="fix", cls=cls, p=p, v=fixed, now=now)

    # ------------------------------------------------------------ history
    def decls(self, names):
        out = {}
        for n in names:
            d = self.pick([None, 0, 1, 0.5, 2])
            lo = self.pick([None, None, 0, -1, 1, -10, 0.5])
            hi = self.pick([None, None, 2, 10, 1, 0, 0.0, -0.25])
            if lo is not None and hi is not None and lo > hi:
                hi = None
            out[n] = (d, lo, hi, self.flip(0.2))
        return out

    def script(self, name):
        self.begin(name)
        classes = []
        for _ in range(int(self.rng.integers(1, 4))):
            base = self.pick(list(BASES) + [c for c in classes] * 2)
            names = [n for n in ("pa", "pb", "pc", "pd") if self.flip(0.6)]
            if base in self.cls:
                # at most one normalization in a chain
                # and which parameter it is does not change
                d = self.decls([n for n in names if n not in self.norms.get(base, ())])
                if any(v[3] for v in d.values()):
                    d = {k: v[:3] + (False,) for k, v in d.items()}
            else:
                d = self.decls(names)
            c = self.declare(base, d)
            if c is not None:
                classes.append(c)
        for _ in range(int(self.rng.integers(1, 4))):
            classes.append(self.builtin(self.pick(list(PARS))))
        ids = []
        for _ in range(int(self.rng.integers(2, 6))):
            o = self.new(self.pick(classes))
            if o in self.obj:
                ids.append(o)
        for _ in range(25):
            k = self.pick(["set"] * 12 + ["get"] * 4 + ["norm", "look", "fix", "new"])
            if k == "new":
                o = self.new(self.pick(classes))
                if o in self.obj:
                    ids.append(o)
                continue
            if k == "look":
                self.look()
                continue
            if k == "fix":
                own = [c for c in classes if self.declares.get(c)]
                if own:
                    c = self.pick(own)
                    self.fix(c, self.pick(self.declares[c]), self.flip(0.6))
                continue
            if not ids:
                continue
            o = self.pick(ids)
            pars = self.cls[self.obj[o][1]][1]
            if not pars:
                continue
            p = self.pick(pars)
            if k == "norm":
                if has_norm(self.obj[o][0]):
                    self.norm(o)
                continue
            if k == "set":
                # often at a bound, or next to one
                v = float(self.pick(GRID))
                b = [x for x in self.bounds.get((self.obj[o][1], p), ()) if x is not None]
                if b and self.flip(0.6):
                    v = float(self.pick(b)) + self.pick([0, 0.25, -0.25, 1, -1])
                self.set(o, p, v)
                if self.flip(0.5):
                    self.get(o, p)
            else:
                self.get(o, p)
        self.look()

    def table(self):
        """every bound of every documented parameter"""
        for c in PARS:
            self.begin("table-" + c)
            self.builtin(c)
            a, b = self.new(c), self.new(c)
            if a not in self.obj or b not in self.obj:
                continue
            self.look()
            for p in PARS[c]:
                for v in GRID:
                    self.set(a, p, v)
                    self.get(a, p)
            self.look()


def issub(c, b):
    return b in c.__mro__


def has_norm(x):
    # declared by the specification, not asked from the object
    for k in type(x).__mro__:
        for v in k.__dict__.values():
            if getattr(v, "is_normalization", False) is True:
                return hasattr(type(x), "normalization_parameter")
    return False


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    tr = Trace(out)
    r = Runner(tr, np.random.default_rng([seed, 14]))
    r.table()
    for k in range(n):
        r.script("params-%d-%d" % (seed, k))
    tr.close()
    print("SCRIPTS", n + len(PARS), "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
