"""drv/run_classes.py OUT.ndjson SCRIPTS.ndjson SEED N_RANDOM

Defines distributions, samplers and selections, and looks them up by their
names: replays histories generated by TLC from spec/ClassesAlg.tla, and makes
random ones.
"""
import abc
import contextlib
import io
import json
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
import popsynth.auxiliary_sampler as ma
import popsynth.aux_samplers as auxs
import popsynth.distribution as md
import popsynth.distributions as dists
import popsynth.distributions.cosmological_distribution as mc
import popsynth.distributions.spherical_distribution as msp
import popsynth.distributions.uniform_distribution as mu
import popsynth.selection_probability as sels
import popsynth.selection_probability.generic_selectors as mg
import popsynth.selection_probability.selection_probability as ms
import popsynth.selection_probability.spatial_selection as mss
from popsynth.utils.meta import Parameter
from popsynth.utils.registry import (
    auxiliary_parameter_registry,
    distribution_registry,
    selection_registry,
)
from vtrace import Trace

REG = dict(dist=distribution_registry, aux=auxiliary_parameter_registry, sel=selection_registry)
LIST = dict(
    dist=popsynth.list_available_distributions,
    aux=popsynth.list_available_auxiliary_samplers,
    sel=popsynth.list_available_selection_functions,
)
ATTR = dict(dist="_distribution_name", aux="_auxiliary_sampler_name", sel="_selection_name")
PAR = dict(dist=md.DistributionParameter, aux=ma.AuxiliaryParameter, sel=ms.SelectionParameter)

# what the package has: class -> family
PACKAGE = dict(
    dist="""Distribution SpatialDistribution LuminosityDistribution CosmologicalDistribution
    SphericalDistribution SFRDistribution ZPowerCosmoDistribution UniformCosmoDistribution
    FlatlandDistribution ConstantSphericalDistribution ZPowerSphericalDistribution
    SpiralGalaxyDistribution BPLDistribution DeltaDistribution Log10NormalDistribution
    LogNormalDistribution ParetoDistribution SchechterDistribution LogUniLuminiosityDistribution""".split(),
    aux="""AuxiliarySampler NonObservedAuxSampler DerivedLumAuxSampler ViewingAngleSampler
    DeltaAuxSampler LogNormalAuxSampler Log10NormalAuxSampler NormalAuxSampler ParetoAuxSampler
    PowerLawAuxSampler BrokenPowerLawAuxSampler TruncatedNormalAuxSampler
    TruncatedLogNormalAuxSampler TruncatedLog10NormalAuxSampler""".split(),
    sel="""SelectionProbability SpatialSelection DummySelection UnitySelection BernoulliSelection
    BoxSelection LowerBound UpperBound SoftSelection HardFluxSelection SoftFluxSelection
    GalacticPlaneSelection DistanceSelection""".split(),
)
MODULES = [dists, auxs, sels, md, ma, ms, mg, mss, mc, msp, mu, popsynth]


def find(name):
    for m in MODULES:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


CLS = {n: find(n) for f in PACKAGE for n in PACKAGE[f]}
FAM = {n: f for f in PACKAGE for n in PACKAGE[f]}
MISSING = dict(
    SpatialDistribution=["differential_volume", "dNdV", "transform"],
    LuminosityDistribution=["phi", "draw_luminosity"],
    CosmologicalDistribution=["dNdV"],
    SphericalDistribution=["dNdV"],
    AuxiliarySampler=["true_sampler"],
    NonObservedAuxSampler=["true_sampler"],
    DerivedLumAuxSampler=["true_sampler", "compute_luminosity"],
    SelectionProbability=["draw"],
    SpatialSelection=["draw"],
)
ROOTS = ["Distribution", "SpatialDistribution", "LuminosityDistribution", "AuxiliarySampler",
         "SelectionProbability"]
UNNAMED = [b for b in MISSING if FAM[b] == "dist"] + ["SpatialSelection"]
# what a package class is called in its registry
BUILTIN = {f: [n for n in PACKAGE[f] if n not in MISSING] for f in PACKAGE}


def start_names():
    return {f: list(r.keys()) for f, r in REG.items()}


START = start_names()


def plain(self, *a, **k):
    return 1.0


def read(x, p):
    try:
        return getattr(x, p)
    except AssertionError:
        return None


def issub(c, b):
    return b in c.__mro__


class Runner(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng
        self.serial = 0

    def pick(self, s):
        return s[int(self.rng.integers(0, len(s)))]

    def flip(self, p):
        return bool(self.rng.random() < p)

    # -------------------------------------------------------- one history
    def begin(self, name):
        self.clean()
        self.tr.begin(name)
        self.serial += 1
        self.cls = dict(CLS)
        self.fam = dict(FAM)
        self.kept = []
        self.sig = {k: "root" for k in ROOTS}
        self.mine = []
        self.tr.emit(op="start", names=start_names())

    def clean(self):
        """the registries as they were"""
        for f, r in REG.items():
            for k in list(r.keys()):
                if k not in START[f]:
                    del r[k]
            for k in BUILTIN[f]:
                if k not in r or r.get_class(k) is not CLS[k]:
                    r[k] = CLS[k]

    def real(self, name):
        """names of a history, in the registry"""
        return "%s_%d" % (name, self.serial) if name.startswith("N") and len(name) <= 3 else name

    def shown(self, names):
        end = "_%d" % self.serial
        return [n[: -len(end)] if n.endswith(end) else n for n in names]

    def id_of(self, c):
        for k in self.mine + list(CLS):
            if self.cls[k] is c:
                return k
        return "other"

    # ------------------------------------------------------------- calls
    def define(self, cls, base, name, gives, needs, norms):
        f = self.fam[base]
        ns, mixin = {}, {}
        given = list(gives)
        in_mixin = bool(given) and self.flip(0.25)
        for m in given:
            (mixin if in_mixin else ns)[m] = plain
        for m in needs:
            ns[m] = abc.abstractmethod(lambda self, *a: None)
        if name != "-":
            ns[ATTR[f]] = self.real(name) if name else ""
        for i in range(norms):
            ns["vn%d" % i] = PAR[f](default=1, is_normalization=True)
        if self.flip(0.3):
            ns["vp"] = PAR[f](default=2, vmin=0)
        if self.flip(0.5):
            ns["extra_method"] = plain
        ns["__module__"] = __name__

        def init(s, name="v", observed=True, **kw):
            if f == "dist":
                super(new, s).__init__(name=name, seed=1, form="f")
            elif f == "aux":
                super(new, s).__init__(name=name, observed=observed)
            else:
                super(new, s).__init__(name=name)
            s.vgiven = (name, observed)

        b = self.cls[base]
        sig = self.sig.get(base, "own")
        if sig == "root" and self.flip(0.8):
            ns["__init__"] = init
        try:
            bases = (type("Mixin", (object,), mixin), b) if in_mixin else (b,)
            new = type(b)(cls, bases, ns)
            ok = True
        except Exception:  # noqa
            ok = False
        if ok:
            self.cls[cls], self.fam[cls] = new, f
            self.sig[cls] = sig
            self.mine.append(cls)
        self.tr.emit(op="class", cls=cls, base=base, name=name, gives=list(gives),
                     needs=list(needs), norms=norms, ok=ok)
        return ok

    def list(self, f):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            LIST[f]()
        self.tr.emit(op="list", fam=f, names=self.shown(out.getvalue().split()), size=len(REG[f]))

    def lookup(self, f, name):
        n = self.real(name)
        try:
            got = self.id_of(REG[f].get_class(n))
        except KeyError:
            got = "none"
        self.tr.emit(op="lookup", fam=f, name=name, got=got, known=n in REG[f])

    def instance(self, get, f, c):
        """an object, with or without arguments"""
        if "vgiven" not in c.__init__.__code__.co_names:
            if f == "aux" and not issub(c, CLS["ViewingAngleSampler"]):
                x = get(name="w")
                return x, x.name == "w"
            for kw in ({}, dict(name="w", seed=1, form="x"), dict(name="w", seed=1), dict(name="w"), dict(seed=1)):
                try:
                    x = get(**kw)
                    return x, True
                except TypeError as e:
                    if "abstract" in str(e):
                        raise
            raise TypeError("no way to make it")
        w = "w%d" % int(self.rng.integers(0, 9))
        o = self.flip(0.5)
        x = get(name=w, observed=o)
        return x, x.vgiven == (w, o)

    def apart(self, xs):
        """setting a parameter of the first changes none of the others"""
        x, others = xs[0], [y for y in xs[1:] if type(y) is type(xs[0])]
        for p in [k for c in type(x).__mro__ for k, v in c.__dict__.items() if isinstance(v, Parameter)]:
            old = [read(y, p) for y in others]
            for v in (3, 0.5):
                try:
                    setattr(x, p, v)
                except RuntimeError:
                    continue
                if [read(y, p) for y in others] != old:
                    return False
        return True

    def make(self, f, name):
        n = self.real(name)
        try:
            c = REG[f].get_class(n)
        except KeyError:
            c = None
        try:
            if c is None:
                REG[f].get(n)
                self.tr.emit(op="make", fam=f, name=name, got="other", fresh=True, given=True)
                return
            x, given = self.instance(lambda **kw: REG[f].get(n, **kw), f, c)
            y, _ = self.instance(lambda **kw: REG[f].get(n, **kw), f, c)
            fresh = x is not y and not any(x is z or y is z for z in self.kept)
            fresh = fresh and self.apart([x, y] + self.kept)
            self.kept += [x, y]
            got = self.id_of(type(x)) if type(x) is type(y) else "two"
        except KeyError:
            got, fresh, given = "none", True, True
        except TypeError:
            got, fresh, given = "refused", True, True
        self.tr.emit(op="make", fam=f, name=name, got=got, fresh=fresh, given=given)

    def new(self, cls):
        c = self.cls[cls]
        try:
            x, _ = self.instance(c, self.fam[cls], c)
            ok = type(x) is c
            self.kept.append(x)
        except Exception:  # noqa
            ok = False
        self.tr.emit(op="new", cls=cls, ok=ok)

    def sub(self, a, b):
        v = issubclass(self.cls[a], self.cls[b])
        for x in self.kept:
            if type(x) is self.cls[a] and isinstance(x, self.cls[b]) != v:
                v = not (self.cls[b] in self.cls[a].__mro__)  # they differ: one of them is wrong
        self.tr.emit(op="sub", a=a, b=b, v=v)

    def end(self):
        for f in REG:
            self.list(f)

    # ------------------------------------------------------------ histories
    def replay(self, name, script):
        self.begin(name)
        for e in script:
            op = e["op"]
            if op == "class":
                if e["base"] in self.cls:
                    self.define(e["cls"], e["base"], e["name"], e["gives"], e["needs"], e["norms"])
            elif op == "list":
                self.list(e["fam"])
            elif op == "lookup":
                self.lookup(e["fam"], e["name"])
            elif op == "make":
                self.make(e["fam"], e["name"])
            elif op == "new":
                if e["cls"] in self.cls:
                    self.new(e["cls"])
            elif op == "sub":
                if e["a"] in self.cls and e["b"] in self.cls:
                    self.sub(e["a"], e["b"])
        self.end()

    def script(self, name):
        self.begin(name)
        names = ["N" + c for c in "abcd"[: int(self.rng.integers(1, 5))]]
        missing = {k: list(v) for k, v in MISSING.items()}
        for i in range(22):
            k = self.pick(["class"] * 8 + ["list"] * 2 + ["lookup"] * 4 + ["make"] * 3 + ["new"] * 3 + ["sub"] * 3)
            f = self.pick(list(REG))
            if k == "class":
                c = "k%d" % i
                base = self.pick(self.mine) if self.mine and self.flip(0.5) else self.pick(
                    list(MISSING) if self.flip(0.6) else list(CLS))
                lacks = missing.get(base, [])
                gives = [m for m in lacks if self.flip(0.75)]
                if self.flip(0.2):
                    gives += [m for m in ("draw", "true_sampler", "dNdV") if m not in gives]
                needs = [m for m in ("extra", "draw", "phi", "more") if self.flip(0.07) and m not in gives]
                nm = self.pick(names * 4 + ["-", "", self.pick(BUILTIN[self.fam[base]]),
                                            self.pick(BUILTIN[f])])
                if nm == "-" and base in UNNAMED:
                    nm = names[0]
                norms = self.pick([0] * 6 + [1, 2, 3])
                if self.define(c, base, nm, gives, needs, norms):
                    left = [m for m in lacks if m not in gives] + needs
                    missing[c] = list(dict.fromkeys(left))
            elif k == "list":
                self.list(f)
            elif k == "lookup":
                self.lookup(f, self.pick(names + names + [self.pick(BUILTIN[self.pick(list(REG))])]))
            elif k == "make":
                self.make(f, self.pick(names * 3 + [self.pick(BUILTIN[f])]))
            elif k == "new":
                self.new(self.pick(self.mine) if self.mine and self.flip(0.7) else self.pick(list(CLS)))
            else:
                s = self.mine * 3 + list(CLS)
                self.sub(self.pick(s), self.pick(s))
        self.end()

    def table(self):
        """every class of the package"""
        self.begin("package")
        self.end()
        for f in PACKAGE:
            for n in PACKAGE[f]:
                for g in REG:
                    self.lookup(g, n)
                if n != "Distribution":
                    self.make(f, n)
                    self.new(n)
        for a in CLS:
            for b in CLS:
                self.sub(a, b)


def main():
    out, scripts, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    tr = Trace(out)
    r = Runner(tr, np.random.default_rng([seed, 27]))
    r.table()
    k = 0
    for line in open(scripts):
        r.replay("tlc-%d-%d" % (seed, k), json.loads(line))
        k += 1
    for j in range(n):
        r.script("classes-%d-%d" % (seed, j))
    r.clean()
    tr.close()
    print("SCRIPTS", n + k + 1, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
