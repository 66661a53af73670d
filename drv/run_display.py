"""drv/run_display.py OUT.ndjson SCRIPTS.ndjson SEED

Replays histories of making populations and displaying them (generated by TLC
from spec/DisplayAlg.tla), and displays the synths they come from.  Points are
read back from the figures.
"""
import json
import re
import sys
import warnings

warnings.filterwarnings("ignore")
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from IPython.core.interactiveshell import InteractiveShell
from IPython.utils.capture import capture_output
from matplotlib.colors import to_rgba
from matplotlib.patches import FancyArrow

import popsynth

popsynth.silence_logs()
popsynth.silence_progress_bars()
import popsynth.aux_samplers as auxs
import popsynth.distributions as dists
import popsynth.selection_probability as sels
import probes
from executor import full_digest
from vtrace import F, FA, Trace

COLOURS = [("tab:blue", "tab:red"), ("#112233", "#445566"), ("k", "orange")]
CMAPS = [("Reds", "Blues"), ("magma", "viridis"), ("viridis", "Greens")]
VALS = [0.5, 1.0, 1.25, 2.0, 3.0]


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def snap(v, refs):
    """what agrees with a known value but for rounding is that value"""
    v, refs = np.asarray(v, dtype=float).ravel(), np.unique(np.asarray(refs, dtype=float).ravel())
    if not len(refs):
        return v
    i = np.clip(np.searchsorted(refs, v), 1, max(len(refs) - 1, 1))
    lo, hi = refs[i - 1], refs[np.minimum(i, len(refs) - 1)]
    near = np.where(np.abs(v - lo) <= np.abs(hi - v), lo, hi)
    return np.where(np.abs(v - near) <= 1e-9 * np.maximum(np.abs(near), 1e-300) + 1e-12 * np.max(np.abs(refs)), near, v)


def tables(outputs):
    """(heading, latex, {parameter: value}) in the order they are displayed"""
    head, out = "", []
    for o in outputs:
        data = o.data
        if "text/markdown" in data:
            head = data["text/markdown"].lstrip("#").strip()
            out.append([head, {}])
        elif "text/html" in data:
            cells = re.findall(r"<td>(.*?)</td>", data["text/html"], re.S)
            got = {}
            for k, v in zip(cells[::2], cells[1::2]):
                try:
                    got[k] = float(v)
                except ValueError:
                    got[k] = float("nan")
            if not out:
                out.append(["", {}])
            out[-1][1].update(got)
    return out


class Run(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng

    # ------------------------------------------------------------- making
    def spatial(self):
        rng = self.rng
        cls = pick(rng, [dists.ConstantSphericalDistribution, dists.ZPowerSphericalDistribution,
                         dists.ZPowerCosmoDistribution, probes.VFlat, dists.SFRDistribution])
        d = cls()
        for k in probes.PARS.get("VFlat", {}) if cls is probes.VFlat else {
            dists.ConstantSphericalDistribution: ["Lambda"],
            dists.ZPowerSphericalDistribution: ["Lambda", "delta"],
            dists.ZPowerCosmoDistribution: ["Lambda", "delta"],
            dists.SFRDistribution: ["r0", "a", "rise", "decay", "peak"],
        }[cls]:
            if k != "r_max":
                setattr(d, k, pick(rng, VALS))
        d.r_max = pick(rng, VALS)
        return d

    def luminosity(self):
        rng = self.rng
        d = pick(rng, [dists.ParetoDistribution, dists.SchechterDistribution, dists.LogNormalDistribution])()
        for k in ("mu", "tau") if isinstance(d, dists.LogNormalDistribution) else ("Lmin", "alpha"):
            setattr(d, k, pick(rng, VALS))
        return d

    def aux(self, name):
        rng = self.rng
        which = int(rng.integers(0, 4))
        if which == 0:
            a = auxs.NormalAuxSampler(name, observed=bool(rng.random() < 0.6))
            a.mu, a.tau, a.sigma = pick(rng, VALS), pick(rng, VALS), pick(rng, VALS)
        elif which == 1:
            a = auxs.LogNormalAuxSampler(name, observed=bool(rng.random() < 0.6))
            a.mu, a.tau, a.sigma = pick(rng, VALS), pick(rng, VALS), pick(rng, VALS)
        elif which == 2:
            a = auxs.DeltaAuxSampler(name)
            a.xp, a.sigma = pick(rng, VALS), pick(rng, VALS)
        else:
            a = probes.VAux(name, observed=bool(rng.random() < 0.6))
            a.unset = bool(rng.random() < 0.3)
            if not a.unset:
                a.p = pick(rng, VALS)
        return a

    def configure(self):
        """a synth and what is known of it"""
        rng = self.rng
        spat = self.spatial()
        derived = rng.random() < 0.4
        lum = None if derived else self.luminosity()
        self.objs = {"Spatial Function": spat}
        self.secs, self.auxs = [], []
        y = popsynth.PopulationSynth(spat, lum, seed=int(rng.integers(1, 2**31)))
        self.synth, self.lum = y, "none"
        self.describe()
        if derived:
            d = probes.VDer("lum")
            d.p = pick(rng, VALS)
            for k in range(int(rng.integers(0, 3))):
                s = self.aux("sec%d" % k)
                d.set_secondary_sampler(s)
                self.secs.append(s.name)
                self.objs[s.name] = s
            y.add_observed_quantity(d)
            self.lum, self.objs["Luminosity Function"] = "derived", d
        else:
            self.lum, self.objs["Luminosity Function"] = "direct", lum
        for k in range(int(rng.integers(0, 4))):
            a = self.aux("q%d" % k)
            if rng.random() < 0.3:
                a.set_secondary_sampler(self.aux("under%d" % k))
            y.add_observed_quantity(a)
            self.auxs.append(a.name)
            self.objs[a.name] = a

    def explicit(self, o):
        """the parameters that were set here"""
        names = ("Lambda", "delta", "r0", "a", "rise", "decay", "peak", "Lmin", "alpha", "mu", "tau", "sigma",
                 "xp", "p", "r_max")
        keys = [k for k in names if any(k in vars(c) for c in type(o).__mro__)]
        if getattr(o, "unset", False):
            keys.remove("p")
        return {k: float(getattr(o, k)) for k in keys}

    def describe(self):
        lum = "none" if not hasattr(self, "lum") else self.lum
        if self.synth.luminosity_distribution is not None and lum == "none":
            lum = "direct"
            self.objs["Luminosity Function"] = self.synth.luminosity_distribution
        pars = {h: self.explicit(o) for h, o in self.objs.items()}
        self.tr.emit(op="synth", id=1, lum=lum, aux=list(self.auxs), secs=list(self.secs),
                     pars={h: {k: F(v) for k, v in p.items()} for h, p in pars.items()})
        ok, err, heads, got, missing = True, "", [], {}, []
        try:
            with capture_output() as c:
                self.synth.display()
            parts = tables(c.outputs)
            heads = [h for h, _ in parts]
            got = {h: {k: F(snap([v], VALS)[0]) for k, v in p.items()} for h, p in parts}
            text = repr(self.synth)
            missing = [h for h, o in self.objs.items() if o.name not in text]
            for h, p in pars.items():
                for k, v in p.items():
                    found = [float(x) for x in re.findall(r"^%s: ([-+0-9.einf]+)$" % k, text, re.M)]
                    if v not in found:
                        missing.append("%s of %s" % (k, h))
        except Exception as x:  # noqa
            ok, err = False, repr(x)[:200]
        self.tr.emit(op="shown", id=1, ok=ok, err=err, heads=heads, pars=got, missing=missing)

    def population(self, shape):
        rng = self.rng
        if not hasattr(self, "synth") or rng.random() < 0.3:
            self.configure()
        y = self.synth
        n = 0 if shape == "empty" else int(pick(rng, [1, 2, 3, 8, 25]))
        if shape == "some":
            n = max(n, 2)
        f = sels.HardFluxSelection()
        f.boundary = {"empty": 1e-300, "none": 1e300, "all": 1e-300, "some": 1.0}[shape]
        y.set_flux_selection(f)
        sigma = pick(rng, [None, 0.1, 1.0])
        for k in range(60):
            p = y.draw_survey(n_samples=n, flux_sigma=sigma)
            if shape != "some" or 0 < p.n_detections < n:
                break
            # between two of the fluxes there were
            s = np.sort(np.asarray(p.fluxes, float))
            f.boundary = float(np.sqrt(s[n // 2 - 1] * s[n // 2]))
        if shape == "all" and rng.random() < 0.3 and n:
            p = p.to_sub_population(observed=bool(True))
        if shape == "none" and rng.random() < 0.3 and n:
            p = p.to_sub_population(observed=False)
        self.describe()
        return p

    def arrays(self, p):
        return dict(d=np.asarray(p.distances, float), lat=np.asarray(p.fluxes.latent, float),
                    obs=np.asarray(p.fluxes, float), lum=np.asarray(p.luminosities, float),
                    th=np.asarray(p.theta, float), ph=np.asarray(p.phi, float))

    # ------------------------------------------------------------- scripts
    def script(self, hist, name):
        self.tr.begin(name)
        for k in ("synth", "lum"):
            if hasattr(self, k):
                delattr(self, k)
        pops, axes = [], {}
        for e in hist:
            if e["op"] == "pop":
                p = self.population(e["shape"])
                a = self.arrays(p)
                pops.append((p, a))
                pars = dict(p.spatial_parameters)
                pars.update(p.luminosity_parameters or {})
                self.tr.emit(op="pop", id=len(pops), n=len(a["d"]), sel=[bool(x) for x in p.selection],
                             d=FA(a["d"]), lat=FA(a["lat"]), obs=FA(a["obs"]), lum=FA(a["lum"]),
                             pars={k: F(v) for k, v in pars.items()})
            elif e["op"] == "axes":
                _, axes[len(axes) + 1] = plt.subplots()
                self.tr.emit(op="axes", id=len(axes))
            elif e["op"] == "show":
                self.show(e, pops[e["id"] - 1], axes)
            elif e["op"] == "hist":
                self.hist(e, pops[e["id"] - 1])
            elif e["op"] == "sphere":
                self.sphere(e, pops[e["id"] - 1])
            elif e["op"] == "info":
                self.info(e, pops[e["id"] - 1])
        plt.close("all")

    def show(self, e, pop, axes):
        (p, a), kind = pop, e["kind"]
        t, o = self.colours
        new = e["ax"] == 0
        before = full_digest(p)
        known = len(axes) + 1 if new else e["ax"]
        ax = None if new else axes[e["ax"]]
        old = [] if new else [x for x in ax.patches if isinstance(x, FancyArrow)]
        kw = {} if new else dict(ax=ax)
        ok, err, fig = True, "", None
        try:
            if kind == "true":
                fig = p.display_true_fluxes(flux_color=t, **kw)
            elif kind == "obs":
                fig = p.display_obs_fluxes(flux_color=o, **kw)
            elif kind == "lums":
                fig = p.display_luminosities(true_color=t, obs_color=o, **kw)
            else:
                fig = p.display_fluxes(true_color=t, obs_color=o, with_arrows=kind == "arrows", **kw)
        except Exception as x:  # noqa
            ok, err = False, repr(x)[:200]
            if new:
                axes[known] = plt.subplots()[1]
        nothing = fig is None
        layers, arrows, here = [], [], True
        if ok and not nothing:
            if new:
                ax = fig.axes[0]
                here = len(fig.axes) == 1
                axes[known] = ax
            else:
                here = fig is ax.get_figure()
            for c in ax.collections:
                col = [tuple(x[:3]) for x in np.atleast_2d(c.get_facecolor())]
                mark = "t" if set(col) == {to_rgba(t)[:3]} else "o" if set(col) == {to_rgba(o)[:3]} else "?"
                pts = np.asarray(np.ma.filled(c.get_offsets(), np.nan), float).reshape(-1, 2)
                layers.append(dict(c=mark, pts=[[F(x), F(y)] for x, y in pts]))
            for x in ax.patches:
                if isinstance(x, FancyArrow) and not any(x is y for y in old):
                    v = np.asarray(x.get_xy(), float)
                    # an arrow of no length has no shape
                    if not len(v):
                        arrows.append(None)
                        continue
                    mid = (v[:, 0].min() + v[:, 0].max()) / 2
                    ends = snap([v[:, 1].min(), v[:, 1].max()], np.concatenate([a["lat"], a["obs"]]))
                    mid = float(snap([mid], a["d"])[0])
                    # the head is the wide end
                    wide = v[np.argmax(v[:, 0]), 1]
                    up = abs(wide - v[:, 1].max()) < abs(wide - v[:, 1].min())
                    arrows.append([F(mid), F(ends[0] if up else ends[1]), F(ends[1] if up else ends[0])])
        if kind == "arrows":
            # fluxes without error have no arrows to speak of
            flat = [[F(d), F(x), F(y)] for d, x, y, s in zip(a["d"], a["lat"], a["obs"], p.selection)
                    if s and abs(x - y) <= 1e-9 * abs(x)]
            gone = [x for x in arrows if x is None]
            arrows = [x for x in arrows if x is not None]
            if len(gone) <= len(flat):
                arrows += flat[len(flat) - len(gone):]
        self.tr.emit(op="show", id=e["id"], kind=kind, ax=known, own=new, ok=ok, err=err, nothing=nothing,
                     layers=layers, arrows=arrows, fig=bool(here), same=full_digest(p) == before)

    def hist(self, e, pop):
        p, a = pop
        before = full_digest(p)
        ok, err, bars, edges = True, "", [], [0.0, 1.0]
        try:
            if self.rng.random() < 0.5:
                _, ax = plt.subplots()
                p.display_distances(ax=ax)
            else:
                p.display_distances()
                ax = plt.gca()
            for c in ax.containers:
                bars.append([int(round(r.get_height())) for r in c.patches])
                edges = [r.get_x() for r in c.patches] + [c.patches[-1].get_x() + c.patches[-1].get_width()]
            # the bins go from nothing to the end of the survey
            if len(edges) < 3 or abs(edges[0]) > 1e-9 or abs(edges[-1] / dict(p.spatial_parameters)["r_max"] - 1) > 1e-9:
                bars = []
        except Exception as x:  # noqa
            ok, err = False, repr(x)[:200]
        self.tr.emit(op="hist", id=e["id"], ok=ok, err=err, edges=[F(x) for x in edges], bars=bars,
                     same=full_digest(p) == before)

    def sphere(self, e, pop):
        (p, a), kind = pop, e["kind"]
        before = full_digest(p)
        seen, unseen = pick(self.rng, CMAPS)
        scale = pick(self.rng, [None, 2.0])
        kw = dict(show=False) if kind != "both" and self.rng.random() < 0.7 else {}
        if scale is not None:
            kw["distance_transform"] = lambda r: scale * r
        ok, err, fig = True, "", None
        layers, col = [], []
        r = a["d"] * (scale or 1.0)
        x, y, z = (r * np.sin(a["th"]) * np.cos(a["ph"]), r * np.sin(a["th"]) * np.sin(a["ph"]), r * np.cos(a["th"]))
        try:
            with capture_output():
                if kind == "obs":
                    fig = p.display_obs_fluxes_sphere(cmap=seen, **kw)
                elif kind == "hidden":
                    fig = p.display_hidden_fluxes_sphere(cmap=unseen, **kw)
                else:
                    fig = p.display_flux_sphere(seen_cmap=seen, unseen_cmap=unseen, **kw)
            if fig is not None:
                maps = [m for m, k in ((seen, "obs"), (unseen, "hidden"))
                        if kind in (k, "both") and (p.n_detections if k == "obs" else p.n_objects - p.n_detections)]
                for s, m in zip(fig.scatters, maps + ["magma"] * 9):
                    pts = [snap(v, w) for v, w in ((s.x, x), (s.y, y), (s.z, z))]
                    layers.append([[F(u) for u in q] for q in zip(*pts)])
                    table = plt.get_cmap(m)(np.arange(256))[:, :3]
                    rgb = np.asarray(s.color, float).reshape(-1, 4)[:, :3]
                    dist = np.abs(table[None, :, :] - rgb[:, None, :]).max(axis=2)
                    col.append([int(i) if d < 1e-6 else -1 for i, d in zip(dist.argmin(axis=1), dist.min(axis=1))])
        except Exception as exc:  # noqa
            ok, err = False, repr(exc)[:200]
        self.tr.emit(op="sphere", id=e["id"], kind=kind, ok=ok, err=err, nothing=fig is None, layers=layers, col=col,
                     x=FA(x), y=FA(y), z=FA(z), same=full_digest(p) == before)

    def info(self, e, pop):
        p, a = pop
        before = full_digest(p)
        ok, err, counts, pars, rep = True, "", [], {}, []
        refs = [float(v) for v in list(p.spatial_parameters.values()) + list((p.luminosity_parameters or {}).values())]
        try:
            with capture_output() as c:
                p.display()
            for h, t in tables(c.outputs):
                m = re.search(r"Detected (\d+) out of (\d+) objects", h)
                if m:
                    counts = [int(m.group(1)), int(m.group(2))]
                pars.update({k: F(snap([v], refs)[0]) for k, v in t.items()})
            rep = [int(x) for x in re.findall(r"\d+", repr(p))]
        except Exception as exc:  # noqa
            ok, err = False, repr(exc)[:200]
        self.tr.emit(op="info", id=e["id"], ok=ok, err=err, counts=counts, pars=pars, repr=rep,
                     same=full_digest(p) == before)


def main():
    out, path, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rng = np.random.default_rng([seed, 26])
    InteractiveShell.instance()
    tr = Trace(out)
    run = Run(tr, rng)
    with open(path) as f:
        for k, line in enumerate(f):
            run.colours = pick(rng, COLOURS)
            run.script(json.loads(line), "display-%d-%d" % (seed, k))
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
