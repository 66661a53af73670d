"""drv/run_cosmos.py OUT.ndjson SCRIPTS.ndjson SEED

Replays histories of making, setting and asking cosmologies (generated by TLC
from spec/CosmosAlg.tla).  The first cosmology of a history is now and then the
one of the package, which everything else there uses; then every distribution
that depends on it is asked too.  Each fourth history runs in a process of its
own, with a configuration file that sets the cosmology.
"""
import json
import math
import os
import subprocess
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np
from vtrace import F, Trace

C = 299792.458
MPC = 3.0857e24


def clip(x):
    """whole numbers that TLC can hold"""
    return [int(round(v)) if math.isfinite(v) and abs(v) < 2e9 else -999999 for v in np.atleast_1d(x).astype(float)]


def small(x):
    return [v if abs(v) < 300000 else -999999 for v in clip(x)]


class Run(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng
        import popsynth
        import popsynth.distributions as dists
        from popsynth.auxiliary_sampler import DerivedLumAuxSampler, NonObservedAuxSampler
        from popsynth.distributions.uniform_distribution import UniformCosmoDistribution
        from popsynth.utils.cosmology import Cosmology, cosmology

        popsynth.silence_logs()
        popsynth.silence_progress_bars()
        self.Cosmology, self.shared = Cosmology, cosmology
        self.popsynth = popsynth

        class Aux(NonObservedAuxSampler):
            _auxiliary_sampler_name = "CAux"

            def __init__(self, name):
                super().__init__(name, uses_distance=True)

            def true_sampler(self, size):
                self._true_values = self.luminosity_distance

        class Lum(DerivedLumAuxSampler):
            _auxiliary_sampler_name = "CLum"

            def __init__(self, name):
                super().__init__(name, uses_distance=True)

            def true_sampler(self, size):
                self._true_values = np.ones(size)

            def compute_luminosity(self):
                return self.luminosity_distance

        self.aux, self.lum = Aux, Lum
        self.cosmo = [
            lambda r: dists.ZPowerCosmoDistribution(is_rate=r),
            lambda r: dists.SFRDistribution(is_rate=r),
            lambda r: UniformCosmoDistribution(is_rate=r),
        ]
        self.sphere = [dists.ConstantSphericalDistribution, dists.ZPowerSphericalDistribution]
        self.flatland = dists.FlatlandDistribution

    def ks(self):
        n = int(self.rng.integers(1, 9))
        lo, hi = [(1, 901), (1, 60), (100, 700)][int(self.rng.integers(0, 3))]
        ks = sorted({int(k) for k in self.rng.integers(lo, hi, size=n)})
        if self.rng.random() < 0.5:
            self.rng.shuffle(ks)
        return [int(k) for k in ks]

    def z(self, ks):
        s = 1.0 - np.asarray(ks, dtype=float) / 1000.0
        return 1.0 / s**2 - 1.0

    def answer(self, i, h, via, ks, dl, td=None, dv=None):
        """dl and td in cm, dv in Gpc^3"""
        k = np.asarray(ks, dtype=float)
        s = 1.0 - k / 1000.0
        dl = np.asarray(dl, dtype=float)
        if dl.shape != k.shape:
            self.tr.emit(op="query", id=i, via=via, ks=ks, d=[], fine=[], far=[], q=[])
            return
        d = dl / MPC / (C / 100.0) * s**2 / (2 * (1 - s))
        q = []
        if td is not None:
            td = np.asarray(td, dtype=float) / MPC
            dv = np.asarray(dv, dtype=float)
            q = small(1e4 * dv * 1e9 / td**2 / s**3 / (C / 100.0)) if dv.shape == td.shape == k.shape else [0]
            # the transverse distance is the smaller one
            if td.shape == k.shape and np.any(np.abs(td * MPC / (dl * s**2) - 1) > 1e-6):
                q = [0] * len(ks)
        self.tr.emit(op="query", id=i, via=via, ks=ks, d=small(1e4 * d), fine=clip(1e7 * d * h / 100.0),
                     far=[F(x) for x in dl], q=q)

    def ask(self, i, c, h, shared):
        ks = self.ks()
        z = self.z(ks)
        form = int(self.rng.integers(0, 3))
        if form == 0:
            # one at a time
            dl = [float(c.luminosity_distance(float(x))) for x in z]
            td = [float(c.comoving_transverse_distance(float(x))) for x in z]
            dv = [float(c.differential_comoving_volume(float(x))) for x in z]
        elif form == 1:
            dl, td, dv = c.luminosity_distance(z), c.comoving_transverse_distance(z), c.differential_comoving_volume(z)
        else:
            # in another order
            dv, td, dl = c.differential_comoving_volume(z), c.comoving_transverse_distance(z), c.luminosity_distance(z)
        self.answer(i, h, "cosmology", ks, dl, td, dv)
        unit = C / h
        self.tr.emit(op="here", d=clip(1e6 * float(c.luminosity_distance(0.0)) / MPC / unit)[0],
                     v=clip(1e6 * float(c.differential_comoving_volume(0.0)) * 1e9 / unit**3)[0])
        if not shared:
            return
        for make in [self.cosmo[int(j)] for j in self.rng.permutation(len(self.cosmo))[:2]]:
            d = make(bool(self.rng.random() < 0.5))
            name = type(d).__name__
            L = float(self.rng.choice([1.0, 1e50, 3e-4]))
            flux = np.asarray(d.transform(np.full(len(ks), L), z), dtype=float)
            self.answer(i, h, name, ks, np.sqrt(L / (4 * np.pi * flux)), td, d.differential_volume(z))
            self.tr.emit(op="cosmic", x=clip(1e6 * L / (4 * np.pi * flux * np.asarray(dl, dtype=float) ** 2)))
        self.survey(i, c, h)

    def survey(self, i, c, h):
        """fluxes and distances of a survey"""
        ps = self.popsynth
        derived = bool(self.rng.random() < 0.5)
        d = None
        if not derived:
            d = ps.distributions.LogNormalDistribution()
            d.mu, d.tau = 0.0, 1.0
        spat = self.cosmo[0](True)
        spat.Lambda, spat.delta = 1.0, 1.0
        spat.r_max = float(self.rng.choice([0.3, 2.0, 6.0]))
        s = ps.PopulationSynth(spat, d, seed=int(self.rng.integers(1, 2**31)))
        if derived:
            s.add_observed_quantity(self.lum("lum"))
        s.add_auxiliary_sampler(self.aux("dl"))
        p = s.draw_survey(n_samples=int(self.rng.integers(1, 60)))
        dl = np.asarray(c.luminosity_distance(np.asarray(p.distances)), dtype=float)
        lum, fl = np.asarray(p.luminosities.latent, float), np.asarray(p.fluxes.latent, float)
        self.tr.emit(op="cosmic", x=clip(1e6 * lum / (4 * np.pi * fl * dl**2)))
        self.tr.emit(op="same", x=clip(1e6 * np.asarray(p.dl.latent, float) / dl))
        if derived:
            self.tr.emit(op="same", x=clip(1e6 * lum / dl))

    def plain(self):
        ks = [0, 1] + [int(k) for k in self.rng.integers(0, 40000, size=5)]
        r = np.asarray(ks) / 1000.0
        L = float(self.rng.choice([1.0, 1e30, 7e-5]))
        for cls in self.sphere:
            F_ = np.asarray(cls().transform(np.full(len(ks), L), r.copy()), dtype=float)
            self.tr.emit(op="sphere", ks=ks, x=clip(1e6 * L / (4 * np.pi * F_)))
        F_ = np.asarray(self.flatland().transform(np.full(len(ks), L), r.copy()), dtype=float)
        self.tr.emit(op="flat", x=clip(1e6 * F_ / L))

    def settings(self, i, c):
        self.tr.emit(op="settings", id=i, om=clip(1e4 * float(c.Om))[0], h=clip(10 * float(c.h0))[0])

    def script(self, hist, name, given=None):
        """given is the cosmology that the package was configured for"""
        self.tr.begin(name)
        made = {}
        shared = given is not None or self.rng.random() < 0.4
        old = float(self.shared.Om), float(self.shared.h0)
        if shared:
            om, h = given or (3070, 677)
            if given is None:
                self.shared.Om, self.shared.h0 = om / 1e4, h / 10.0
            made["g"] = [self.shared, om, h]
            self.tr.emit(op="new", id="g", om=om, h=h)
            self.settings("g", self.shared)
            self.ask("g", self.shared, h / 10.0, True)
        ids = {}
        for e in hist:
            if e["op"] == "new":
                if shared and not ids:
                    ids[e["id"]] = "g"
                    continue
                ids[e["id"]] = i = "c%d" % e["id"]
                way = int(self.rng.integers(0, 2))
                c = self.Cosmology(e["om"] / 1e4, e["h"] / 10.0) if way == 0 else self.Cosmology()
                if way:
                    c.h0, c.Om = e["h"] / 10.0, e["om"] / 1e4
                made[i] = [c, e["om"], e["h"]]
                self.tr.emit(op="new", id=i, om=e["om"], h=e["h"])
                continue
            i = ids[e["id"]]
            m = made[i]
            if e["op"] == "setom":
                m[0].Om, m[1] = e["om"] / 1e4, e["om"]
                self.tr.emit(op="setom", id=i, om=e["om"])
            elif e["op"] == "seth":
                m[0].h0, m[2] = e["h"] / 10.0, e["h"]
                self.tr.emit(op="seth", id=i, h=e["h"])
            else:
                self.ask(i, m[0], m[2] / 10.0, i == "g")
        for i, m in made.items():
            self.settings(i, m[0])
        self.plain()
        self.shared.Om, self.shared.h0 = old


def child(out, path, seed, om, h):
    tr = Trace(out)
    run = Run(tr, np.random.default_rng(seed))
    with open(path) as f:
        hist = json.loads(f.read())
    run.script(hist, "configured-%d-%d" % (om, h), (om, h))
    tr.close()


def configured(tr, hist, rng, k, out):
    """a process of its own with a configuration file"""
    om = int(rng.choice([2500, 3070, 4000, 7000, 10000]))
    h = int(rng.choice([500, 677, 731, 1000]))
    lines = []
    if om != 3070 or rng.random() < 0.5:
        lines.append("  Om: %s" % (om / 1e4))
    if h != 677 or rng.random() < 0.5:
        lines.append("  h0: %s" % (h / 10.0))
    home = out + ".home%d" % k
    d = os.path.join(home, ".config", "popsynth")
    os.makedirs(d)
    with open(os.path.join(d, "popsynth_config.yml"), "w") as f:
        f.write("cosmology:\n" + "\n".join(lines) + "\n" if lines else "show_progress: false\n")
    script, part = os.path.join(home, "script"), os.path.join(home, "out.nd")
    with open(script, "w") as f:
        f.write(json.dumps(hist))
    env = dict(os.environ, HOME=home)
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", part, script,
                        str(int(rng.integers(1, 2**31))), str(om), str(h)],
                       env=env, cwd=home, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=500)
    if p.returncode != 0:
        sys.stderr.write(p.stderr.decode("utf-8", "replace")[-4000:])
        sys.exit(1)
    tr.flush()
    with open(part) as f:
        for line in f:
            tr.f.write(line)
            tr.n_events += 1
    tr.n_scripts += 1


def main():
    if sys.argv[1] == "--child":
        return child(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))
    out, path, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rng = np.random.default_rng([seed, 25])
    tr = Trace(out)
    run = Run(tr, rng)
    own = 0
    with open(path) as f:
        for k, line in enumerate(f):
            hist = json.loads(line)
            if k % 12 == 3:
                own += 1
                configured(tr, hist, rng, k, out)
            else:
                run.script(hist, "cosmos-%d-%d" % (seed, k))
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
