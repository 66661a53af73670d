"""drv/run_select.py OUT.ndjson SCRIPTS.ndjson SEED N_RANDOM N_LAWS

Selectors on their own: replays histories generated by TLC from
spec/SelectorsAlg.tla with every kind of selector, makes random histories, and
counts what the random selectors accept.
"""
import json
import math
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
import popsynth.selection_probability as sels
from popsynth.distribution import SpatialDistribution
from popsynth.utils.configuration import popsynth_config
from vtrace import F, FA, Trace


class Sky(SpatialDistribution):
    """places given by the test"""

    _distribution_name = "VSky"
    place = None

    def __init__(self):
        super().__init__(name="sky", seed=1)

    def differential_volume(self, r):
        return 1.0

    def dNdV(self, r):
        return 1.0

    def transform(self, L, r):
        return L

    distances = property(lambda self: np.array(self.place["dist"]))
    ra = property(lambda self: np.array(self.place["ra"]))
    dec = property(lambda self: np.array(self.place["dec"]))


FLAG = dict(dist="use_distance", lum="use_luminosity", flux="use_flux", obs="use_obs_value")
GIVE = dict(dist="set_distance", lum="set_luminosity", flux="set_observed_flux",
            obs="set_observed_value")
PARS = dict(
    LowerBound=["boundary"], UpperBound=["boundary"], HardFluxSelection=["boundary"],
    BoxSelection=["vmin", "vmax"], DistanceSelection=["min_distance", "max_distance"],
    GalacticPlaneSelection=["b_limit"], BernoulliSelection=["probability"],
    SoftSelection=["boundary", "strength"], SoftFluxSelection=["boundary", "strength"],
    UnitySelection=[],
)
HARD = ["LowerBound", "UpperBound", "BoxSelection", "HardFluxSelection", "DistanceSelection",
        "GalacticPlaneSelection"]
SPATIAL = ["DistanceSelection", "GalacticPlaneSelection"]
LOOSE = ["BernoulliSelection", "BernoulliSelection", "SoftSelection", "SoftFluxSelection",
         "UnitySelection"]
POOL = [0.25, 0.5, 1.0, 1.5, 2.0, 8.0]
WIDE = [-np.inf, -1e300, -2.5, -0.0, 0.0, 1e-300, 0.5, 1.0, 3.0, 1e300, np.inf, np.nan]


def latitude(ra, dec):
    """distance from the galactic plane in degrees"""
    a, d = np.radians(ra), np.radians(dec)
    ap, dp = math.radians(192.85948), math.radians(27.12825)
    s = np.sin(dp) * np.sin(d) + np.cos(dp) * np.cos(d) * np.cos(a - ap)
    return np.abs(np.degrees(np.arcsin(np.clip(s, -1, 1))))


class Exec(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng
        self.s, self.cls, self.use, self.near = {}, {}, {}, {}
        self.par = {}
        self.sky = {}

    def begin(self):
        self.tr.flush()
        self.tr.n_scripts += 1
        self.tr.emit(op="reset", zero=F(0), one=F(1))
        self.s, self.cls, self.use, self.near, self.par, self.sky = {}, {}, {}, {}, {}, {}

    def read(self, i):
        s = self.s[i]
        none = dict(has=False, sel=[], n=-1, nsel=-1, nnon=-1, idx=[], nonidx=[])
        try:
            sel = s.selection
        except Exception:  # noqa
            return none
        if sel is None:
            return none
        try:
            return dict(
                has=True, sel=[bool(x) for x in np.asarray(sel).ravel()], n=int(s.n_objects),
                nsel=int(s.n_selected), nnon=int(s.n_non_selected),
                idx=[int(x) for x in s.selection_index],
                nonidx=[int(x) for x in s.non_selection_index],
            )
        except Exception as ex:  # noqa
            return dict(none, has=True, sel=["error", type(ex).__name__])

    def out(self, **ev):
        self.tr.emit(reads={i: self.read(i) for i in self.s}, **ev)

    def new(self, i, cls, use):
        c = getattr(sels, cls)
        if cls in ("LowerBound", "UpperBound", "BoxSelection", "SoftSelection"):
            s = c(**{FLAG[use]: True})
        else:
            s = c()
        if cls in SPATIAL:
            self.sky[i] = Sky()
            s.set_spatial_distribution(self.sky[i])
        self.s[i], self.cls[i], self.use[i], self.par[i] = s, cls, use, {}
        self.out(op="new", id=i, cls=cls, use=use)

    def set(self, i, par, v):
        setattr(self.s[i], par, v)
        self.par[i][par] = v
        self.out(op="set", id=i, par=par, v=F(v))

    def give(self, i, vals):
        use = self.use[i]
        vals = np.array(vals, dtype=float)
        if self.cls[i] == "DistanceSelection":
            self.sky[i].place = dict(dist=vals)
        elif self.cls[i] == "GalacticPlaneSelection":
            # the values are positions, in turns
            ra, dec = 360 * ((vals * 0.37) % 1), -90 + 180 * ((vals * 0.61) % 1)
            self.sky[i].place = dict(ra=ra, dec=dec)
            vals = latitude(ra, dec)
            self.near[i] = vals
        else:
            getattr(self.s[i], GIVE[use])(vals)
        self.out(op="give", id=i, q=use, vals=FA(vals))

    def select(self, i, n):
        skip = [False] * n
        if self.cls[i] == "GalacticPlaneSelection":
            lim = self.par[i]["b_limit"]
            skip = [bool(0 < lim and abs(x - lim) < 5e-3) for x in self.near[i]]
        ok, err = True, ""
        try:
            self.s[i].select(n)
        except Exception as ex:  # noqa
            ok, err = False, type(ex).__name__
        self.out(op="select", id=i, n=n, skip=skip, ok=ok, err=err)

    def unmake(self, i):
        ok = True
        try:
            self.s[i].reset()
        except Exception:  # noqa
            ok = False
        self.out(op="unmake", id=i, ok=ok)

    def add(self, i, a, b):
        ok = True
        c = None
        try:
            c = self.s[a] + self.s[b]
        except Exception:  # noqa
            ok = False
        if ok:
            self.s[i], self.cls[i] = c, "Combined"
        self.out(op="add", id=i, a=a, b=b, ok=ok)


def use_of(cls, rng):
    if cls in ("HardFluxSelection", "SoftFluxSelection"):
        return "flux"
    if cls in SPATIAL:
        return "spat"
    if cls in ("BernoulliSelection", "UnitySelection"):
        return "none"
    return ["dist", "lum", "flux", "obs"][int(rng.integers(0, 4))]


def par_value(cls, par, pool, rng):
    if par == "probability":
        return [0.0, 1.0, 0.5, 0.25][int(rng.integers(0, 4))]
    if par == "b_limit":
        return [0.0, 10.0, 20.0, 45.0, 90.0][int(rng.integers(0, 5))]
    if par == "strength":
        return [0.0, 1.0, 20.0][int(rng.integers(0, 3))]
    if cls in ("SoftSelection", "SoftFluxSelection") or par.endswith("distance"):
        pool = POOL
    v = [x for x in pool if not np.isnan(x) and not (par.endswith("distance") and x < 0)]
    return float(v[int(rng.integers(0, len(v)))])


def fill(x, i, n, pool, rng):
    cls = x.cls[i]
    for p in PARS[cls]:
        x.set(i, p, par_value(cls, p, pool, rng))
    if x.use[i] != "none":
        give(x, i, n, pool, rng)


def give(x, i, n, pool, rng):
    if x.cls[i] in ("SoftSelection", "SoftFluxSelection", "DistanceSelection"):
        pool = POOL
    if x.cls[i] == "GalacticPlaneSelection":
        x.give(i, rng.uniform(0, 100, n))
    else:
        x.give(i, [pool[int(k)] for k in rng.integers(0, len(pool), n)])


def replay(x, hist, rng):
    n = max([len(e["vals"]) for e in hist if e["op"] == "give"] + [3])
    values = sorted(float(v) for v in rng.choice(POOL, size=4, replace=False))
    x.begin()
    hard = HARD[int(rng.integers(0, len(HARD)))]
    loose = LOOSE[int(rng.integers(0, len(LOOSE)))]
    x.new("a", hard, use_of(hard, rng))
    x.new("b", loose, use_of(loose, rng))
    fill(x, "a", n, values, rng)
    fill(x, "b", n, values, rng)
    par = PARS[hard][int(rng.integers(0, len(PARS[hard])))]
    for e in hist:
        if e["op"] == "set":
            v = [0.0, 20.0, 45.0, 70.0][e["v"]] if par == "b_limit" else values[e["v"]]
            x.set("a", par, v)
        elif e["op"] == "give":
            if hard == "GalacticPlaneSelection":
                x.give("a", [7.3 * v + 0.1 for v in e["vals"]])
            else:
                x.give("a", [values[v] for v in e["vals"]])
        elif e["op"] == "select":
            if e["id"] != "c" or "c" in x.s:
                x.select(e["id"], n)
        elif e["op"] == "unmake":
            if e["id"] in x.s:
                x.unmake(e["id"])
        elif e["op"] == "add":
            x.add("c", e["a"], e["b"])
    x.tr.flush()


def random_history(x, rng):
    x.begin()
    n = int(rng.choice([0, 1, 2, 4, 7]))
    pool = POOL if rng.random() < 0.4 else WIDE
    made = {}
    for k in range(int(rng.integers(1, 5))):
        cls = (HARD + LOOSE)[int(rng.integers(0, len(HARD + LOOSE)))]
        x.new("s%d" % k, cls, use_of(cls, rng))
        fill(x, "s%d" % k, n, pool, rng)
    for step in range(14):
        ids = sorted(x.s)
        i = ids[int(rng.integers(0, len(ids)))]
        r = rng.random()
        if x.cls[i] == "Combined":
            if r < 0.3:
                x.unmake(i)
            elif r < 0.6 and x.read(i)["has"]:
                x.select(i, n)
            continue
        if r < 0.2 and PARS[x.cls[i]]:
            p = PARS[x.cls[i]][int(rng.integers(0, len(PARS[x.cls[i]])))]
            x.set(i, p, par_value(x.cls[i], p, pool, rng))
        elif r < 0.35 and x.use[i] != "none":
            give(x, i, n, pool, rng)
        elif r < 0.65:
            x.select(i, n)
        elif r < 0.8:
            x.unmake(i)
        else:
            j = ids[int(rng.integers(0, len(ids)))]
            x.add("c%d" % step, i, j)
    x.tr.flush()


def law(tr, sel, p, q, what):
    sel = np.asarray(sel, dtype=bool)
    n = len(sel)
    tr.emit(op="law", k=int(sel.sum()), n=n, p=p, q=q, what=what, reads={})
    a, b = sel[0 : n - n % 2 : 2], sel[1::2]
    tr.emit(op="law", k=int((a & b).sum()), n=len(b), p=p * p, q=q * q,
            what=what + " independently", reads={})


def laws(x, rng, k):
    tr = x.tr
    tr.flush()
    tr.n_scripts += 1
    tr.emit(op="reset", zero=F(0), one=F(1))
    for bars in (False, True):
        popsynth_config.show_progress = bars
        n = 1500 if bars else 12000
        for p, q in ((1, 2), (1, 4), (7, 8), (1, 16)):
            s = sels.BernoulliSelection()
            s.probability = p / q
            np.random.seed(int(rng.integers(0, 2**31)))
            s.select(n)
            law(tr, s.selection, p, q, "a Bernoulli selection accepts with its probability")
            tr.emit(op="law", k=len(s.selection), n=n, p=1, q=1, reads={},
                    what="a Bernoulli selection has another length")
    popsynth_config.show_progress = False
    n = 8000
    for cls in ("SoftSelection", "SoftFluxSelection"):
        for strength, ratio, p, q in (
            (math.log(3), 1, 1, 2), (math.log(3), 10, 3, 4), (math.log(3), 0.1, 1, 4),
            (0.0, 100, 1, 2), (50.0, 1, 1, 2), (math.log(3) / 2, 100, 3, 4),
            (1000.0, 2, 1, 1), (1000.0, 0.5, 0, 1), (math.log(7), 10, 7, 8),
        ):
            use = use_of(cls, rng)
            s = sels.SoftFluxSelection() if cls == "SoftFluxSelection" else sels.SoftSelection(
                **{FLAG[use]: True})
            s.boundary = float(rng.choice([0.5, 1.0, 3.0]))
            s.strength = strength
            v = np.full(n, s.boundary * ratio)
            getattr(s, GIVE[use])(v)
            s.select(n)
            law(tr, s.selection, p, q, "a soft selection accepts with its probability")
    for strength, off, p, q in ((math.log(3), 0, 1, 2), (math.log(3), 1, 3, 4),
                                (math.log(3), -1, 1, 4), (1000.0, 1, 1, 1)):
        s = sels.SoftSelection(use_flux=True)
        s.boundary = 2.0
        s.strength = strength
        s.set_observed_flux(np.full(n, 2.0 + off))
        s.draw(n, use_log=False)
        law(tr, s.selection, p, q, "a linear soft selection accepts with its probability")
    # objects are told apart
    s = sels.SoftSelection(use_flux=True)
    s.boundary, s.strength = 1.0, 1000.0
    v = np.where(np.arange(n) % 3 == 0, 5.0, 0.2)
    s.set_observed_flux(v)
    s.select(n)
    tr.emit(op="law", k=int((s.selection == (v > 1)).sum()), n=n, p=1, q=1, reads={},
            what="a soft selection accepts other objects")
    tr.flush()


def main():
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    nrandom, nlaws = int(sys.argv[4]), int(sys.argv[5])
    tr = Trace(out)
    popsynth_config.show_progress = False
    for k, line in enumerate(open(scripts)):
        rng = np.random.default_rng([seed, 1, k])
        x = Exec(tr, rng)
        popsynth_config.show_progress = bool(rng.random() < 0.1)
        replay(x, json.loads(line), rng)
    for k in range(nrandom):
        rng = np.random.default_rng([seed, 2, k])
        popsynth_config.show_progress = bool(rng.random() < 0.1)
        random_history(Exec(tr, rng), rng)
    for k in range(nlaws):
        rng = np.random.default_rng([seed, 3, k])
        laws(Exec(tr, rng), rng, k)
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
