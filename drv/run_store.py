"""drv/run_store.py OUT.ndjson SCRIPTS SEED

Replays histories generated by TLC (spec/StoreAlg.tla) on populations that are
drawn or made up.
"""
import json
import math
import os
import sys
import warnings

warnings.filterwarnings("ignore")
import networkx as nx
import numpy as np

import popsynth

popsynth.silence_logs()
from popsynth.population import Population
from popsynth.utils.configuration import popsynth_config
from vtrace import F, FA, BA, IA, Dig, Trace
import synths

PLAIN = ["distances", "luminosities", "fluxes", "theta", "phi"]


def text(x):
    """canonical text of parameters, truth and stored configurations"""

    def conv(o):
        if isinstance(o, dict):
            return {str(k): conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)) and all(isinstance(i, str) for i in o):
            return {str(i): {} for i in o}
        if isinstance(o, (list, tuple)):
            return [conv(v) for v in o]
        if isinstance(o, np.ndarray):
            return [conv(v) for v in o.tolist()]
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        if isinstance(o, (int, float, np.integer, np.floating)):
            return repr(float(o))
        if o is None or isinstance(o, str):
            return o
        return repr(o)

    return conv(x)


def flat(x):
    return json.dumps(text(x), sort_keys=True)


def ordered(x):
    """a configuration, in which the order of samplers matters"""
    t = text(x)
    if isinstance(t, dict) and isinstance(t.get("auxiliary samplers"), dict):
        t["auxiliary samplers"] = [
            [k, json.dumps({a: (list(b) if a == "secondary" else b) for a, b in v.items()}, sort_keys=True)]
            for k, v in t["auxiliary samplers"].items()
        ]
    return json.dumps(t, sort_keys=True)


def log10(v):
    if math.isnan(v) or v < 0:
        return float("nan")
    return -math.inf if v == 0 else math.log10(v)


def near(x, ref):
    x, ref = float(x), float(ref)
    return ref if x == ref or abs(x - ref) <= 1e-12 * max(1.0, abs(ref)) else x


def hidden(p, k):
    """what has no public name everywhere"""
    return getattr(p, k, getattr(p, "_" + k, None))


def look(p, aux, spaces):
    """what can be seen of a population; aux and spaces are the names to look for"""
    vals = {}
    for q in PLAIN + list(aux):
        v = getattr(p, q)
        vals[q] = dict(obs=FA(v), lat=FA(v.latent))
    if p.probability is not None:
        vals["probability"] = dict(obs=FA(p.probability), lat=FA(p.probability.latent))
    sel = BA(p.selection)
    try:
        s = p.to_stan_data()
        exported = all(
            k in s for k in ("N Nz Nnz z_obs known_z_obs z_idx z_nidx r_obs known_r_obs r_idx r_nidx "
                             "log_flux_obs flux_obs flux_sigma z_max r_max N_model").split())
    except Exception:
        s, exported = {}, False
    logs = [log10(float(v)) for v, k in zip(np.asarray(p.fluxes, float), sel) if k]
    stan = dict(z_idx=[], z_nidx=[])
    if exported:
        lg = np.asarray(s["log_flux_obs"], float)
        stan = dict(
            N=int(s["N"]), Nz=int(s["Nz"]), Nnz=int(s["Nnz"]), n_model=int(s["N_model"]),
            z_idx=IA(s["z_idx"]), z_nidx=IA(s["z_nidx"]), r_idx=IA(s["r_idx"]), r_nidx=IA(s["r_nidx"]),
            flux_sigma=F(s["flux_sigma"]), z_max=F(s["z_max"]), r_max=F(s["r_max"]),
            log_flux_obs=[F(near(a, b)) for a, b in zip(lg, logs)] if len(lg) == len(logs) else FA(lg),
            spaces={k: FA(s[k]) for k in spaces if k in s},
            aux={k + "_obs": FA(s[k + "_obs"]) for k in aux if k + "_obs" in s},
        )
        for k in ("z_obs", "known_z_obs", "r_obs", "known_r_obs", "flux_obs"):
            stan[k] = FA(s[k])
    return dict(
        n=int(p.n_objects), nd=int(p.n_detections), nn=int(p.n_non_detections), has=bool(p.has_detections),
        sel=sel, vals=vals, aux={k: k + "_obs" for k in aux}, known=FA(p.known_distances),
        exported=exported, stan=stan, logs=[F(x) for x in logs], flux_sigma=F(p.flux_sigma),
        nodes=sorted(str(x) for x in p.graph.nodes), edges=sorted([str(a), str(b)] for a, b in p.graph.edges),
        r_max=stan.get("r_max", F(0)), n_model=stan.get("n_model", 0), spaces=stan.get("spaces", {}),
        fields=dict(
            spatial_parameters=flat(p.spatial_parameters), luminosity_parameters=flat(p.luminosity_parameters),
            name=flat(hidden(p, "name")), spatial_form=flat(hidden(p, "spatial_form")),
            luminosity_form=flat(hidden(p, "lf_form")),
            truth=flat(p.truth), configuration=ordered(p.pop_synth), seed=flat(hidden(p, "seed")),
            directed=str(bool(p.graph.is_directed())), stan_keys=flat(sorted(s)),
            spaces=flat({k: s[k] for k in spaces if k in s}), flux_sigma=flat(p.flux_sigma),
            r_max=flat(s.get("r_max")), probability=str(p.probability is None),
        ),
    )


# ------------------------------------------------------------ populations


class Synth(object):
    """a synth that is asked for model spaces and for surveys"""

    def __init__(self, rng):
        self.rng, self.d = rng, synths.describe(rng)
        if rng.random() < 0.5:
            self.d["dist"] = synths.selection(rng, ["BernoulliSelection", "UpperBound"])
        self.y, _ = synths.build(self.d)
        self.grids = {}

    def space(self, name):
        """asks for a model space, and how it should be"""
        rng = self.rng
        log = bool(rng.random() < 0.5)
        lo, hi = [(0.5, 10.0), (1e-3, 1e3), (1, 100), (20.0, 2.0), (2.0, 2.0), (1e45, 1e54),
                  (0.0 if not log else 0.1, 1.0), (-3.0 if not log else 3.0, 5)][int(rng.integers(0, 8))]
        kw = dict(log=log) if not log or rng.random() < 0.5 else {}
        self.y.add_model_space(name, lo, hi, **kw)
        t = np.arange(500) / 499.0
        ref = np.exp(math.log(lo) + t * (math.log(hi) - math.log(lo))) if log else lo + t * (hi - lo)
        self.grids[name] = ref
        return ref

    def draw(self):
        o = synths.drawable(self.rng, self.d)
        o.setdefault("n_samples", int(self.rng.integers(0, 20)))
        p = self.y.draw_survey(**o)
        s = p.to_stan_data()
        # the grids, values that agree with what was asked for made equal
        seen = {}
        for k in ("grid", "zs", "Lspace"):
            if k in s:
                v, ref = np.asarray(s[k], float), self.grids.get(k, np.array([]))
                if len(v) == len(ref):
                    v = np.where(np.isclose(v, ref, rtol=1e-9, atol=1e-12), ref, v)
                seen[k] = FA(v)
        return (p, sorted(self.d["samplers"]), sorted(self.grids)), seen


def made_up(rng):
    """a population of any values"""
    n = int(rng.integers(0, 9))

    def vals(lo=-3.0, hi=5.0):
        v = rng.uniform(lo, hi, size=n)
        if n and rng.random() < 0.3:
            v[int(rng.integers(0, n))] = [0.0, 1e300, 5e-324, -0.0, 1.0, 2.0**53 + 2][int(rng.integers(0, 6))]
        if rng.random() < 0.2:
            v = np.round(v)
        return v

    sel = rng.random(n) < rng.choice([0.0, 0.3, 0.7, 1.0])
    dist = vals(0, 5)
    det = dist[sel]
    kn = rng.random(len(det)) < rng.choice([0.0, 0.5, 1.0])
    names = ["x", "Epeak", "α", "a_b", "mass"]
    aux = {names[i]: dict(true_values=vals(), obs_values=vals()) for i in range(int(rng.integers(0, 4)))}
    n_model = int(rng.choice([1, 3, 500]))
    spaces = {["grid", "zs"][i]: rng.uniform(0, 1, size=n_model) for i in range(int(rng.integers(0, 3)))}
    g = nx.DiGraph()
    for i in range(int(rng.integers(0, 5))):
        g.add_node("n%d" % i)
    for i in range(int(rng.integers(0, 5))):
        g.add_edge("n%d" % rng.integers(0, 4), "n%d" % rng.integers(0, 4))
    lf = None if rng.random() < 0.3 else {k: float(v) for k, v in zip(("Lmin", "alpha"), rng.uniform(-2, 3, 2))}

    def conf(level=0):
        out = {}
        for i in range(int(rng.integers(1, 4))):
            r = rng.random()
            k = ["seed", "spatial", "b", "a"][i] + "x" * int(rng.integers(0, 2))
            out[k] = (
                conf(level + 1) if r < 0.3 and level < 3 else {} if r < 0.4 else [] if r < 0.45 else
                ["s%d" % j for j in rng.permutation(3)] if r < 0.55 else bool(rng.random() < 0.5) if r < 0.65 else
                int(rng.integers(-5, 2**40)) if r < 0.75 else "text é" if r < 0.8 else float(rng.normal()))
        return out

    fs = int(rng.integers(0, 3))
    p = Population(
        luminosities=vals(), distances=dist, known_distances=det[kn],
        known_distance_idx=np.where(kn)[0], unknown_distance_idx=np.where(~kn)[0],
        fluxes=vals(0.001, 3), flux_obs=vals(0.001, 3), selection=sel,
        flux_sigma=float(rng.choice([0.0, 0.5, -1])), r_max=float(rng.choice([5, 2.5, 1e10])),
        n_model=n_model, lf_params=lf, lf_form=None if lf is None else r"\frac{L^{-\alpha}}{x}",
        spatial_params={k: float(v) for k, v in zip(["Lambda", "delta"][: int(rng.integers(0, 3))], rng.normal(size=2))},
        model_spaces=spaces, seed=int(rng.integers(0, 2**62)),
        name=[None, "a name", "größe", ""][int(rng.integers(0, 4))],
        spatial_form=[None, r"\rho_0 (1+z)^\delta", "x"][fs],
        auxiliary_quantities=aux,
        truth={k: {a: float(b) for a, b in zip("xyz"[: int(rng.integers(0, 4))], rng.normal(size=3))}
               for k in ["spatial", "lum", "x"][: int(rng.integers(0, 4))]},
        graph=g, theta=vals(0, 3.1), phi=vals(0, 6.2), pop_synth=conf(),
        probability=None if rng.random() < 0.4 else vals(0, 1),
    )
    return p, sorted(aux), sorted(spaces)


# ----------------------------------------------------------------- replay


class Player(object):
    def __init__(self, tr, rng, base):
        self.tr, self.rng, self.base = tr, rng, base
        self.p = {}
        self.files = {}
        self.y = None
        names = [["g1", "g2"], ["g1", "d/x"], ["d/x", "d/y"], ["a b", "ü"], ["d", "d/x"], ["d/x/y", "d/x"],
                 ["population", "pop1"], ["distances", "g"], ["truth", "other"]]
        self.groups = dict(zip(["g1", "g2"], names[int(rng.integers(0, len(names)))]))
        self.groups[""] = ""

    def file(self, f):
        return os.path.join(self.base, f + ".h5")

    def view(self, p):
        return look(*self.p[p])

    def make(self, e):
        drawn, seen = bool(self.rng.random() < 0.5), {}
        if drawn:
            if self.y is None or self.rng.random() < 0.5:
                self.synth()
                for i in range(int(self.rng.integers(0, 3))):
                    self.space(dict(name=["grid", "zs", "Lspace"][i]))
            self.p[e["p"]], seen = self.y.draw()
        else:
            self.p[e["p"]] = made_up(self.rng)
        self.tr.emit(op="make", p=e["p"], drawn=drawn, grids=seen, d=self.view(e["p"]))

    def synth(self):
        self.y = Synth(self.rng)
        self.tr.emit(op="synth")

    def space(self, e):
        if self.y is None:
            self.synth()
        ref, why = [], ""
        try:
            ref = self.y.space(e["name"])
        except Exception as x:
            why = repr(x)[:200]
        self.tr.emit(op="space", name=e["name"], grid=FA(ref), ok=not why, why=why)

    def look(self, e):
        self.tr.emit(op="look", p=e["p"], d=self.view(e["p"]))

    def write(self, e):
        ok = True
        try:
            self.p[e["p"]][0].writeto(self.file(e["f"]))
        except Exception as x:
            ok, e = False, dict(e, why=repr(x)[:200])
        self.tr.emit(op="write", p=e["p"], f=e["f"], ok=ok, why=e.get("why", ""))

    def add(self, e):
        g = self.groups[e["g"]]
        ok, why = True, ""
        try:
            self.p[e["p"]][0].addto(self.file(e["f"]), g)
        except Exception as x:
            ok, why = False, repr(x)[:200]
        up = ["/".join(g.split("/")[:i]) for i in range(1, g.count("/") + 1)]
        self.tr.emit(op="add", p=e["p"], f=e["f"], g=g, up=up, ok=ok, why=why)
        self.files.setdefault((e["f"], g), self.p[e["p"]][1:])

    def read(self, e):
        g = self.groups[e["g"]]
        ok, why, d = True, "", {}
        try:
            if g == "":
                p = Population.from_file(self.file(e["f"]))
            else:
                p = Population.from_group(self.file(e["f"]), g)
        except Exception as x:
            ok, why = False, repr(x)[:200]
        if ok:
            names = e["names"]
            self.p[e["p"]] = (p,) + tuple(names)
            try:
                d = self.view(e["p"])
            except Exception as x:
                ok, why = False, repr(x)[:200]
        self.tr.emit(op="read", p=e["p"], f=e["f"], g=g, ok=ok, why=why, d=d)
        return ok

    def old(self, e):
        """what an older version of the package would not have written"""
        import h5py

        g = self.groups[e["g"]]
        gone = [["known"], ["known", "probability"], ["probability"]][int(self.rng.integers(0, 3))]
        try:
            with h5py.File(self.file(e["f"]), "r+") as h:
                q = h[g] if g else h
                if "selection" not in q:
                    return
                if "probability" in gone and "probability" in q:
                    del q["probability"]
                if "known" in gone:
                    for k in ("known_distances", "known_distance_idx", "unknown_distance_idx"):
                        if k in q:
                            del q[k]
        except (OSError, KeyError):
            return
        self.tr.emit(op="old", f=e["f"], g=g, gone=gone)

    def sub(self, e):
        p, aux, sp = self.p[e["p"]]
        ok, why, d = True, "", {}
        try:
            q = p.to_sub_population(observed=e["observed"])
            self.p[e["q"]] = (q, aux, sp)
            d = self.view(e["q"])
        except Exception as x:
            ok, why = False, repr(x)[:200]
        self.tr.emit(op="sub", p=e["p"], q=e["q"], observed=e["observed"], ok=ok, why=why, d=d)

    def play(self, script):
        held = {}  # (file, group) -> names of what should be there
        for e in script:
            if e["op"] == "write":
                held = {k: v for k, v in held.items() if k[0] != e["f"]}
                held[(e["f"], "")] = self.p[e["p"]][1:] if e["p"] in self.p else ([], [])
            if "p" in e and e["op"] not in ("make", "read") and e["p"] not in self.p:
                continue
            if e["op"] == "add":
                held.setdefault((e["f"], self.groups[e["g"]]), self.p[e["p"]][1:])
            if e["op"] == "read":
                e = dict(e, names=held.get((e["f"], self.groups[e["g"]]), ([], [])))
            getattr(self, e["op"], lambda e: None)(e)
        # at last everything is looked at again
        for p in sorted(self.p):
            self.look(dict(p=p))
        for f, g in sorted(held):
            self.read(dict(p="last", f=f, g=[k for k, v in self.groups.items() if v == g][0], names=held[f, g]))
            self.p.pop("last", None)
        for f in ("f1", "f2"):
            if os.path.exists(self.file(f)):
                os.remove(self.file(f))


# -------------------------------------------------------------- many objects


def brief(p, rng_state):
    """a population too big to be looked at in full: digests, and places picked at random"""
    rng = np.random.default_rng(rng_state)
    s = p.to_stan_data()
    zi, zn = np.asarray(s["z_idx"]), np.asarray(s["z_nidx"])
    both = np.concatenate([zi, zn]).astype(float)
    det = np.asarray(p.distances, float)[np.asarray(p.selection, bool)]
    j = rng.integers(0, len(zi), size=25) if len(zi) else np.array([], int)
    at = zi[j].astype(int) - 1
    k = rng.integers(0, len(det), size=25) if len(det) else np.array([], int)
    logs = [log10(float(v)) for v in np.asarray(p.fluxes, float)[np.asarray(p.selection, bool)][k]]
    dig = {q: [Dig(np.asarray(getattr(p, q), float)), Dig(getattr(p, q).latent)] for q in PLAIN + ["x"]}
    dig["known"] = [Dig(p.known_distances)]
    dig["selection"] = [Dig(np.asarray(p.selection, float))]
    dig["z_idx"] = [Dig(zi)]
    dig["z_nidx"] = [Dig(np.sort(zn))]
    det_of = lambda q: Dig(np.asarray(getattr(p, q), float)[np.asarray(p.selection, bool)])
    return dict(
        n=int(p.n_objects), nd=int(p.n_detections), nn=int(p.n_non_detections),
        lens=[len(getattr(p, q)) for q in PLAIN + ["x"]], nsel=int(np.asarray(p.selection, bool).sum()),
        N=int(s["N"]), Nz=int(s["Nz"]), Nnz=int(s["Nnz"]), lz=len(zi), ln=len(zn), lk=len(p.known_distances),
        lo=int(both.min()) if len(both) else 1, hi=int(both.max()) if len(both) else int(s["N"]),
        distinct=len(np.unique(both)),
        known=FA(np.asarray(p.known_distances)[j]),
        there=[F(det[i]) if 0 <= i < len(det) else F(float("nan")) for i in at],
        logs=[F(x) for x in logs],
        slogs=[F(near(a, b)) for a, b in zip(np.asarray(s["log_flux_obs"])[k], logs)],
        dig=dig,
        stan=[Dig(s["z_obs"]), Dig(s["r_obs"]), Dig(s["flux_obs"]), Dig(s["known_z_obs"]), Dig(s["x_obs"]),
              Dig(s["known_r_obs"]), Dig(s["r_idx"]), Dig(s["r_nidx"])],
        want=[det_of("distances"), det_of("distances"), det_of("fluxes"), Dig(p.known_distances), det_of("x"),
              Dig(p.known_distances), Dig(zi), Dig(zn)],
    )


def big(tr, rng, base):
    n = int(rng.choice([200, 1000, 45000, 90000]))
    share = float(rng.choice([0.5, 0.9, 1.0]))
    sel = rng.random(n) < share
    nd = int(sel.sum())
    dist = rng.uniform(0, 5, n)
    kn = rng.random(nd) < float(rng.choice([0.02, 0.5, 1.0]))
    p = Population(
        luminosities=rng.uniform(1, 2, n), distances=dist, known_distances=dist[sel][kn],
        known_distance_idx=np.where(kn)[0], unknown_distance_idx=np.where(~kn)[0],
        fluxes=rng.uniform(0.1, 2, n), flux_obs=rng.uniform(0.1, 2, n), selection=sel, flux_sigma=1.0,
        r_max=5.0, n_model=500, lf_params={"Lmin": 1.0}, spatial_params={"Lambda": 1.0}, model_spaces={},
        seed=int(rng.integers(0, 2**31)), name="big", spatial_form="x", lf_form="y",
        auxiliary_quantities={"x": dict(true_values=rng.normal(size=n), obs_values=rng.normal(size=n))},
        truth={}, graph=nx.DiGraph(), theta=rng.uniform(0, 3, n), phi=rng.uniform(0, 6, n), pop_synth={},
        probability=None)
    f = os.path.join(base, "big.h5")
    st = int(rng.integers(0, 2**31))
    a = brief(p, st)
    p.writeto(f)
    b = brief(Population.from_file(f), st)
    os.remove(f)
    q = p.to_sub_population(observed=True)
    c = brief(q, st)
    c["keep"] = [
        Dig(np.asarray(getattr(p, k), float)[sel]) for k in PLAIN + ["x"]]
    tr.emit(op="big", a=a, b=b, sub=c, subvals=[Dig(np.asarray(getattr(q, k), float)) for k in PLAIN + ["x"]])


def main():
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    popsynth_config.show_progress = False
    rng = np.random.default_rng([seed, 10])
    tr = Trace(out)
    base = os.getcwd()
    for line in open(scripts):
        tr.begin("store")
        Player(tr, rng, base).play(json.loads(line))
    for _ in range(3):
        tr.begin("many objects")
        big(tr, rng, base)
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
