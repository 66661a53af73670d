"""drv/run_density.py OUT.ndjson SCRIPTS SEED

Replays histories generated by TLC (spec/DensityAlg.tla): distributions are
made, their parameters set, and they are asked for their densities.
"""
import json
import math
import sys
import warnings
from fractions import Fraction

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
import popsynth.distributions as dists
from popsynth.distributions.uniform_distribution import UniformCosmoDistribution
from popsynth.distributions.spiral_galaxy_distribution import SpiralGalaxyDistribution
from vtrace import Trace

CLASSES = dict(UniformCosmoDistribution=UniformCosmoDistribution, SpiralGalaxyDistribution=SpiralGalaxyDistribution)
COSMIC = ("ZPowerCosmoDistribution", "SFRDistribution", "UniformCosmoDistribution")
AREA = 4 * math.pi
NOT = [0, 0]


def fraction(v):
    """the fraction that a number is, or none"""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return NOT
    if not math.isfinite(v) or abs(v) > 1e6:
        return NOT
    q = Fraction(v).limit_denominator(5000)
    if abs(float(q) - v) > 1e-7 * max(1e-3, abs(v)):
        return NOT
    return [q.numerator, q.denominator]


class Player(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng
        self.o = {}
        self.cls = {}

    def number(self, q):
        """a number as a user may write it"""
        n, d = q
        if d != 1:
            return n / d
        kind = int(self.rng.integers(0, 4))
        return [n, float(n), np.float64(n), float(n)][kind]

    def new(self, e):
        c = e["cls"]
        cls = CLASSES.get(c) or getattr(dists, c)
        ok = True
        try:
            if c in COSMIC:
                self.o[e["o"]] = cls() if e["rate"] and self.rng.random() < 0.5 else cls(is_rate=e["rate"])
            else:
                self.o[e["o"]] = cls()
            self.cls[e["o"]] = c
        except Exception:
            ok = False
        self.tr.emit(op="new", o=e["o"], cls=c, rate=e["rate"], ok=ok)

    def set(self, e):
        ok = True
        try:
            setattr(self.o[e["o"]], e["par"], self.number(e["val"]))
        except Exception:
            ok = False
        self.tr.emit(op="set", o=e["o"], par=e["par"], val=e["val"], ok=ok)

    def value(self, o, what, at, lum):
        """asked for one place, or for some at once"""
        d, c = self.o[o], self.cls[o]
        f = dict(density=getattr(d, "dNdV", None) or getattr(d, "phi", None), volume=getattr(d, "differential_volume", None),
                 adjust=getattr(d, "time_adjustment", None), flux=getattr(d, "transform", None))[what]
        x = at[0] / at[1]
        # whole places are also given as whole numbers
        whole = at[1] == 1 and self.rng.random() < 0.4
        if whole:
            x = [int, np.int64, np.int32][int(self.rng.integers(0, 3))](at[0])
        many = c in ("ParetoDistribution", "BPLDistribution") or self.rng.random() < 0.5
        if many:
            k = int(self.rng.integers(1, 5))
            j = int(self.rng.integers(0, k))
            xs = self.rng.integers(1, 5, size=k) if whole else self.rng.uniform(0.3, 4, size=k)
            xs[j] = x
        else:
            xs = x
        if what == "flux":
            l = lum[0] / lum[1]
            ls = np.where(np.arange(np.size(xs)) == (j if many else 0), l, 7.0) if many else l
            v = f(ls, xs)
        else:
            keep = np.array(xs, copy=True)
            v = f(xs)
            if not np.array_equal(keep, xs):
                return float("nan")
        if many and np.ndim(v):
            if len(v) != len(xs):
                return float("nan")
            v = v[j]
        if c in ("ConstantSphericalDistribution", "ZPowerSphericalDistribution", "SpiralGalaxyDistribution"):
            if what == "volume":
                v = v / AREA
            if what == "flux":
                v = v * AREA
        return v

    def ask(self, e):
        got, why = NOT, ""
        try:
            got = fraction(self.value(e["o"], e["what"], e["at"], e["lum"]))
        except Exception as x:
            why = repr(x)[:200]
        self.tr.emit(op="ask", o=e["o"], what=e["what"], at=e["at"], lum=e["lum"], got=got, why=why)

    def unset(self, e):
        failed = False
        try:
            self.value(e["o"], "density", [3, 2], [1, 1])
        except Exception:
            failed = True
        self.tr.emit(op="unset", o=e["o"], failed=failed)

    def play(self, script):
        for e in script:
            if e["op"] != "new" and e["o"] not in self.o:
                continue
            getattr(self, e["op"])(e)


def main():
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rng = np.random.default_rng([seed, 28])
    tr = Trace(out)
    for line in open(scripts):
        tr.begin("density")
        Player(tr, rng).play(json.loads(line))
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
