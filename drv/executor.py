"""Executes operations of the specification on the real package.

Every operation emits one event with its arguments and its outcome.  Nothing
is judged here: the events are checked by TLC against spec/PopSynth.tla.
"""
import json
import signal

import numpy as np

import popsynth
import probes
from popsynth.population_synth import PopulationSynth
from popsynth.selection_probability import (
    BernoulliSelection,
    BoxSelection,
    DistanceSelection,
    GalacticPlaneSelection,
    HardFluxSelection,
    LowerBound,
    SoftFluxSelection,
    SoftSelection,
    UnitySelection,
    UpperBound,
)
from probes import REC
from vtrace import BA, FA, IA, Dig, F


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


class Guard(object):
    """runs a call, returns (ok, error name)"""

    limit = 60

    def __call__(self, fn):
        signal.alarm(self.limit)
        try:
            out = fn()
            signal.alarm(0)
            return True, "", out
        except Hang:
            return False, "Hang", None
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa
            signal.alarm(0)
            return False, type(e).__name__, None
        finally:
            signal.alarm(0)


def plain(x):
    """something comparable for digests of nested things"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return Dig(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return repr(float(x))
    if x is None:
        return "none"
    return str(x)


def text_digest(x):
    import hashlib

    return hashlib.sha1(
        json.dumps(plain(x), sort_keys=True).encode()
    ).hexdigest()[:16]


ARR = ("lum", "dist", "flat", "fobs", "theta", "phi", "prob")


def arrays_of(pop):
    p = pop.probability
    return {
        "lum": pop.luminosities.view(np.ndarray),
        "dist": pop.distances.view(np.ndarray),
        "flat": np.asarray(pop.fluxes.latent),
        "fobs": pop.fluxes.view(np.ndarray),
        "theta": pop.theta.view(np.ndarray),
        "phi": pop.phi.view(np.ndarray),
        "prob": np.zeros(0) if p is None else p.view(np.ndarray),
    }


NOT_AUX = ("known_z_obs", "known_r_obs", "z_obs", "r_obs", "log_flux_obs", "flux_obs")


def aux_names(pop):
    a = getattr(pop, "_auxiliary_quantities", None)
    if a is not None:
        return list(a.keys())
    return [
        k[:-4] for k in pop.to_stan_data() if k.endswith("_obs") and k not in NOT_AUX
    ]


def indices_of(pop):
    """indices of the detected objects with known and unknown distances"""
    k = getattr(pop, "_known_distance_idx", None)
    u = getattr(pop, "_unknown_distance_idx", None)
    if k is None or u is None:
        d = pop.to_stan_data()
        k, u = d["z_idx"] - 1, d["z_nidx"] - 1
    return k, u


def attached_names(syn):
    """what is attached to a synth, as it exports it"""
    d = syn.to_dict()
    return sorted(d.get("auxiliary samplers", {})) + sorted(
        k for k in d if k.endswith("selection")
    )


def survey_digest(pop):
    """everything that was drawn"""
    a = {k: Dig(v) for k, v in arrays_of(pop).items()}
    a["sel"] = Dig(pop.selection)
    a["known"] = Dig(pop.known_distances)
    k, u = indices_of(pop)
    a["kidx"] = Dig(k)
    a["uidx"] = Dig(u)
    for n in sorted(aux_names(pop)):
        q = getattr(pop, n)
        a["t:" + n] = Dig(q.latent)
        a["o:" + n] = Dig(q.view(np.ndarray))
    return text_digest(a)


def graph_of(g):
    if g is None:
        return {"nodes": [], "edges": []}
    return {
        "nodes": sorted(str(n) for n in g.nodes),
        "edges": sorted([str(a), str(b)] for a, b in g.edges),
    }


def stan_of(pop):
    try:
        with np.errstate(all="ignore"):
            return pop.to_stan_data()
    except Exception as e:  # noqa
        return type(e).__name__


def full_digest(pop):
    """everything the population exposes"""
    return text_digest(
        {
            "survey": survey_digest(pop),
            "truth": pop.truth,
            "graph": graph_of(pop.graph),
            "gattr": {
                str(n): {k: v for k, v in d.items()}
                for n, d in (pop.graph.nodes(data=True) if pop.graph is not None else [])
            },
            "conf": pop.pop_synth,
            "spat": pop.spatial_parameters,
            "lf": pop.luminosity_parameters,
            "stan": stan_of(pop),
            "n": [pop.n_objects, pop.n_detections, pop.n_non_detections],
            "sigma": pop.flux_sigma,
            "det": bool(pop.has_detections),
            "text": [
                getattr(pop, k, None)
                for k in ("_name", "_spatial_form", "_lf_form", "_seed", "_r_max")
            ],
            "latents": {
                k: Dig(getattr(pop, k).latent)
                for k in ("luminosities", "distances", "theta", "phi")
            },
        }
    )


def scribble(d):
    for k in list(d.keys()):
        if isinstance(d[k], dict):
            scribble(d[k])
        else:
            d[k] = -77.0
    d["scribble"] = 1


def views_of(sv):
    """selected and non-selected parts, observed and latent"""
    s, h = sv.selected, sv.non_selected
    return {
        "so": FA(s.view(np.ndarray)),
        "sl": FA(s.latent),
        "ho": FA(h.view(np.ndarray)),
        "hl": FA(h.latent),
        # every object of the one is selected, none of the other
        "marks": len(s.selected) == len(s) and len(h.non_selected) == len(h),
    }


def pars_rec(d):
    return {str(k): F(v) for k, v in d.items()}


JUNK = {
    "str": lambda: "nonsense",
    "none": lambda: None,
    "num": lambda: 3.0,
    "dict": lambda: {},
    "spat": lambda: probes.VFlat(),
    "lumd": lambda: probes.VLum(),
    "samp": lambda: probes.VAux("junk"),
    "sel": lambda: UnitySelection(),
    "cls": lambda: probes.VAux,
}


class Exec(object):
    def __init__(self, tr, rng, held=False, full=True, views=False):
        self.tr = tr
        self.rng = rng
        self.held_on = held
        self.full = full
        self.full_max = 60
        self.views_on = views
        self.guard = Guard()
        self.new_script("init")

    # ---------------------------------------------------------- scripts
    def new_script(self, name):
        self.tr.begin(name)
        self.dists, self.samps, self.sels, self.syns = {}, {}, {}, {}
        self.info = {}
        self.pops = []
        REC.on = False
        REC.calls = []

    def out(self, op, ok, err, **kw):
        ev = dict(op=op, ok=ok, err=err, **kw)
        if self.held_on:
            ev["held"] = self.digests()
        else:
            ev["held"] = ["off"]
        self.tr.emit(**ev)
        return ok

    def digests(self):
        res = []
        for p in self.pops:
            ok, err, d = self.guard(lambda: full_digest(p))
            res.append(d if ok else "error:" + err)
        return res

    # ---------------------------------------------------------- builders
    def new_dist(self, id, cls, name, pars, canon=None):
        c = (probes.SPATIAL.get(cls) or probes.LUM.get(cls))
        defaults = probes.PARS[cls]

        def go():
            o = c(name=name)
            for k, v in pars.items():
                setattr(o, k, v)
            return o

        ok, err, o = self.guard(go)
        if ok:
            o.vid = id
            self.dists[id] = o
            self.info[id] = dict(
                kind="dist", cls=cls, name=name, pars=dict(pars), canon=canon or id
            )
        return self.out(
            "new_dist",
            ok,
            err,
            id=id,
            canon=canon or id,
            cls=cls,
            kind="spat" if cls in probes.SPATIAL else "lum",
            name=name,
            pars=pars_rec(pars),
            defs=pars_rec({k: v for k, v in defaults.items() if v is not None}),
        )

    def new_sampler(self, id, cls, name, observed, pars, canon=None):
        c = probes.SAMPLERS[cls]
        der = cls.startswith("VDer")
        non = cls == "VNonObs"

        def go():
            o = c(name) if der or non else c(name, observed=observed)
            for k, v in pars.items():
                setattr(o, k, v)
            return o

        ok, err, o = self.guard(go)
        if ok:
            o.vid = id
            self.samps[id] = o
            self.info[id] = dict(
                kind="samp",
                cls=cls,
                name=name,
                observed=observed,
                pars=dict(pars),
                canon=canon or id,
                secs=[],
                sel="unity",
                der=der,
                under=False,
            )
        return self.out(
            "new_sampler",
            ok,
            err,
            id=id,
            canon=canon or id,
            cls=cls,
            kind="derived" if der else "aux",
            name=name,
            obs=bool(observed and not der and not non),
            ud=cls in ("VAuxD", "VAuxDL", "VAuxPD", "VDerD"),
            ul=cls in ("VAuxL", "VAuxDL"),
            hp=cls in ("VAuxP", "VAuxPD", "VDerP"),
            pars=pars_rec(pars),
            defs=pars_rec(
                {k: v for k, v in probes.PARS[cls].items() if v is not None}
            ),
        )

    def new_sel(self, id, typ, on, lo, hi, canon=None):
        flags = {
            "obs": dict(use_obs_value=True),
            "dist": dict(use_distance=True),
            "lum": dict(use_luminosity=True),
            "flux": dict(use_flux=True),
        }

        def go():
            if typ == "lower":
                o = LowerBound(**flags[on])
                o.boundary = lo
            elif typ == "upper":
                o = UpperBound(**flags[on])
                o.boundary = lo
            elif typ == "box":
                o = BoxSelection(**flags[on])
                o.vmin, o.vmax = lo, hi
            elif typ == "hard":
                o = HardFluxSelection()
                o.boundary = lo
            elif typ == "soft":
                o = SoftSelection(**flags[on])
                o.boundary, o.strength = lo, hi
            elif typ == "softflux":
                o = SoftFluxSelection()
                o.boundary, o.strength = lo, hi
            elif typ == "bern":
                o = BernoulliSelection()
                o.probability = lo
            elif typ == "unity":
                o = UnitySelection()
            elif typ == "range":
                o = DistanceSelection()
                o.min_distance, o.max_distance = lo, hi
            elif typ == "gal":
                o = GalacticPlaneSelection()
                o.b_limit = lo
            else:
                raise KeyError(typ)
            return o

        ok, err, o = self.guard(go)
        if ok:
            o.vid = id
            self.sels[id] = o
            self.info[id] = dict(
                kind="sel", typ=typ, on=on, lo=lo, hi=hi, canon=canon or id
            )
        base = typ
        if typ == "hard":
            base = "lower"
        if typ == "bern":
            base = "all" if lo == 1 else ("nothing" if lo == 0 else "random")
        if typ in ("soft", "softflux"):
            base = "random"
        return self.out(
            "new_sel",
            ok,
            err,
            id=id,
            canon=canon or id,
            typ=base,
            on=on,
            lo=F(lo),
            hi=F(hi),
        )

    def set_bound(self, id, lo, hi):
        """change the boundary of an existing selection"""
        o = self.sels[id]
        i = self.info[id]

        def go():
            if i["typ"] in ("lower", "upper", "hard"):
                o.boundary = lo
            elif i["typ"] == "box":
                o.vmin, o.vmax = lo, hi
            elif i["typ"] == "range":
                o.min_distance, o.max_distance = lo, hi
            else:
                raise KeyError(i["typ"])

        ok, err, _ = self.guard(go)
        if ok:
            i["lo"], i["hi"] = lo, hi
        return self.out("set_bound", ok, err, id=id, lo=F(lo), hi=F(hi))

    def set_par(self, id, p, v):
        o = self.dists.get(id) or self.samps.get(id)
        ok, err, _ = self.guard(lambda: setattr(o, p, v))
        if ok:
            self.info[id]["pars"][p] = v
        return self.out("set_par", ok, err, id=id, p=p, v=F(v))

    def _thing(self, ref):
        if ref.startswith("junk:"):
            return JUNK[ref[5:]]()
        for d in (self.dists, self.samps, self.sels):
            if ref in d:
                return d[ref]
        raise KeyError(ref)

    def new_synth(self, id, spat, lum, seed):
        a = self._thing(spat)
        b = None if lum == "none" else self._thing(lum)

        def go():
            return PopulationSynth(a, luminosity_distribution=b, seed=seed)

        ok, err, o = self.guard(go)
        if ok:
            self.syns[id] = o
            self.info[id] = dict(
                kind="syn", spat=spat, lum=lum, seed=seed, aux=[], der="none",
                flux="unity", dist="unity", sp="unity", spaces=[],
            )
        return self.out(
            "new_synth", ok, err, id=id, spat=spat, lum=lum, seed=str(seed), same=True
        )

    # ---------------------------------------------------------- attaching
    def add(self, syn, what, via="quantity"):
        o = self.syns[syn]
        f = o.add_observed_quantity if via == "quantity" else o.add_auxiliary_sampler
        thing = self._thing(what)
        before = self.fingerprint()
        ok, err, _ = self.guard(lambda: f(thing))
        same = before == self.fingerprint()
        if ok and what in self.samps:
            i = self.info[syn]
            if self.info[what]["der"]:
                i["der"] = what
            else:
                i["aux"].append(what)
        return self.out("add", ok, err, syn=syn, what=what, same=same)

    def sec(self, parent, child):
        thing = self._thing(child)
        before = self.fingerprint()
        ok, err, _ = self.guard(
            lambda: self.samps[parent].set_secondary_sampler(thing)
        )
        same = before == self.fingerprint()
        if ok and child in self.samps:
            if child not in self.info[parent]["secs"]:
                self.info[parent]["secs"].append(child)
        return self.out("sec", ok, err, parent=parent, child=child, same=same)

    def setsel(self, s, sel):
        thing = self._thing(sel)
        before = self.fingerprint()
        ok, err, _ = self.guard(
            lambda: self.samps[s].set_selection_probability(thing)
        )
        same = before == self.fingerprint()
        if ok and sel in self.sels:
            self.info[s]["sel"] = sel
        return self.out("setsel", ok, err, s=s, sel=sel, same=same)

    def setrole(self, syn, role, sel):
        o = self.syns[syn]
        f = {
            "flux": o.set_flux_selection,
            "dist": o.set_distance_selection,
            "sp": o.add_spatial_selector,
        }[role]
        thing = self._thing(sel)
        before = self.fingerprint()
        ok, err, _ = self.guard(lambda: f(thing))
        same = before == self.fingerprint()
        if ok and sel in self.sels:
            self.info[syn][role] = sel
        return self.out("setrole", ok, err, syn=syn, role=role, sel=sel, same=same)

    def space(self, syn, name, lo, hi, log):
        ok, err, _ = self.guard(
            lambda: self.syns[syn].add_model_space(name, lo, hi, log)
        )
        if ok:
            self.info[syn]["spaces"].append((name, lo, hi, log))
        return self.out("space", ok, err, syn=syn, name=name)

    def clean(self, syn, reset):
        i = self.info[syn]
        ids = self.attached(syn)
        sels = [i[r] for r in ("flux", "dist", "sp") if i[r] in self.sels]
        ok, err, _ = self.guard(lambda: self.syns[syn].clean(reset=reset))
        if ok:
            i["aux"], i["der"] = [], "none"
            i["flux"], i["dist"], i["sp"] = "unity", "unity", "unity"
        # what a reset leaves behind
        left, remain = [], []
        if ok:
            good, e, remain = self.guard(lambda: attached_names(self.syns[syn]))
            if not good:
                remain = ["error:" + e]
        if reset and ok:
            left += self.left_in(ids)
            for s in sels:
                good, _, _ = self.guard(lambda: self.sels[s].selection)
                if good:
                    left.append(s)
        return self.out("clean", ok, err, syn=syn, reset=reset, left=left, remain=remain)

    def reset_sampler(self, s):
        ok, err, _ = self.guard(lambda: self.samps[s].reset())
        left = self.left_in([s] + self.under(s)) if ok else []
        return self.out("reset_sampler", ok, err, s=s, left=left)

    def export(self, syn):
        """exporting the configuration must not disturb anything"""
        before = self.fingerprint()
        ok, err, d = self.guard(lambda: self.syns[syn].to_dict())
        one = text_digest(d)
        if ok:
            # what was exported belongs to the one who asked for it
            scribble(d)
        pure = before == self.fingerprint()
        return self.out("export", ok, err, syn=syn, pure=pure)

    def left_in(self, ids):
        left = []
        for t in ids:
            o = self.samps[t]
            if o.true_values is not None or o.obs_values is not None:
                left.append(t)
            elif self.info[t]["sel"] != "unity":
                good, _, _ = self.guard(lambda: o.selection)
                if good:
                    left.append(t)
        return left

    def fingerprint(self):
        """the visible state of all synths and samplers"""
        out = {}
        for k, o in self.syns.items():
            good, e, d = self.guard(lambda: o.to_dict())
            out[k] = d if good else e
        for k, o in self.samps.items():
            out[k] = [
                o.name,
                o.observed,
                o.truth,
                o.is_secondary,
                o.has_secondary,
                sorted(o.parents),
                list(o.secondary_samplers.keys()),
                [id(x) for x in o.secondary_samplers.values()],
                id(o.selector),
            ]
        return text_digest(out)

    def under(self, s):
        out = []
        for t in self.info[s]["secs"]:
            for u in self.under(t) + [t]:
                if u not in out:
                    out.append(u)
        return out

    def attached(self, syn):
        i = self.info[syn]
        out = []
        for r in i["aux"] + ([i["der"]] if i["der"] != "none" else []):
            for u in self.under(r) + [r]:
                if u not in out:
                    out.append(u)
        return out

    # ---------------------------------------------------------- drawing
    def draw(self, syn, n=None, norm=False, sigma=None, log10=True):
        REC.calls = []
        REC.on = True
        np.random.seed(int(self.rng.integers(0, 2**31)))
        kw = dict(flux_sigma=sigma, log10_flux_draw=log10, normalize=norm)
        if n is not None:
            kw["n_samples"] = n
        ok, err, pop = self.guard(lambda: self.syns[syn].draw_survey(**kw))
        REC.on = False
        self.tr.emit(
            op="draw_begin",
            syn=syn,
            n=-1 if n is None else n,
            norm=bool(norm),
            hassig=sigma is not None,
            sigma=F(sigma if sigma is not None else 0),
            log10=bool(log10),
        )
        for c in REC.calls:
            self.tr.emit(**c)
        REC.calls = []
        ev = dict(op="draw_end", ok=ok, err=err, syn=syn, full=False, seen=False)
        if ok:
            self.pops.append(pop)
            good, oerr, o = self.guard(lambda: self.observe(syn, pop, norm))
            if good:
                ev.update(o)
                ev["seen"] = True
            else:
                ev["err"] = "observe:" + oerr
        ev["held"] = self.digests() if self.held_on else ["off"]
        self.tr.emit(**ev)
        return pop if ok else None

    def observe(self, syn, pop, norm):
        i = self.info[syn]
        arr = arrays_of(pop)
        full = self.full and pop.n_objects <= self.full_max
        names = aux_names(pop)
        ev = dict(full=full)
        ev["n"] = int(pop.n_objects)
        ev["ndet"] = int(pop.n_detections)
        ev["nnon"] = int(pop.n_non_detections)
        ev["has"] = bool(pop.has_detections)
        ev["len"] = {k: int(np.asarray(v).shape[0]) for k, v in arr.items()}
        ev["len"]["sel"] = len(pop.selection)
        ev["dig"] = {k: Dig(v) for k, v in arr.items()}
        ev["dig"]["lumlat"] = Dig(pop.luminosities.latent)
        ev["dig"]["distlat"] = Dig(pop.distances.latent)
        ev["radiff"] = self.off(
            [pop.ra.view(np.ndarray), pop.ra.latent, self.dists[i["spat"]].ra],
            arr["phi"] * 180 / np.pi,
        )
        ev["decdiff"] = self.off(
            [pop.dec.view(np.ndarray), pop.dec.latent, self.dists[i["spat"]].dec],
            90 - arr["theta"] * 180 / np.pi,
        )
        ev["angles"] = bool(
            np.all((arr["theta"] >= 0) & (arr["theta"] <= np.pi))
            and np.all((arr["phi"] >= 0) & (arr["phi"] <= 2 * np.pi))
        )
        spat = self.dists[i["spat"]]
        ev["dig"]["trans"] = Dig(spat.transform(arr["lum"], arr["dist"]))
        ev["sigma"] = F(pop.flux_sigma)
        ev["nosigma"] = F(-1)
        ev["zero"] = F(0)
        ev["fobspos"] = bool(np.all(arr["fobs"] > 0) and np.all(np.isfinite(arr["fobs"])))
        ev["aux"] = {}
        for nme in names:
            q = getattr(pop, nme)
            r = dict(
                t=Dig(q.latent),
                o=Dig(q.view(np.ndarray)),
                lt=len(q.latent),
                lo=len(q),
                obs=FA(q.view(np.ndarray)) if full else [],
                tru=FA(q.latent) if full else [],
            )
            ev["aux"][nme] = r
        ev["sel"] = BA(pop.selection) if full else []
        ev["val"] = {k: FA(v) if full else [] for k, v in arr.items()}
        ev["selcount"] = int(np.sum(np.asarray(pop.selection)))
        ev["absb"] = []
        if full and i["sp"] != "unity" and self.info[i["sp"]]["typ"] == "gal":
            from astropy.coordinates import SkyCoord

            c = SkyCoord(
                np.rad2deg(arr["phi"]),
                90 - np.rad2deg(arr["theta"]),
                unit="deg",
                frame="icrs",
            )
            ev["absb"] = FA(np.abs(c.galactic.b.deg))
        # what each attached selection reported
        rep = {}
        for s in self.attached(syn):
            k = self.info[s]["sel"]
            if k != "unity":
                rep[s] = BA(self.samps[s].selection) if full else []
        for r in ("flux", "sp"):
            k = i[r]
            if k in self.sels:
                rep[r] = BA(self.sels[k].selection) if full else []
        if i["dist"] in self.sels:
            rep["dist"] = BA(self.sels[i["dist"]].selection) if full else []
        ev["rep"] = rep
        ev["known"] = FA(pop.known_distances) if full else []
        kidx, uidx = indices_of(pop)
        ev["kidx"] = IA(kidx) if full else []
        ev["uidx"] = IA(uidx) if full else []
        ev["nk"] = [len(pop.known_distances), len(kidx), len(uidx)]
        ev["views"] = {}
        if self.views_on and full:
            for k, sv in (
                ("lum", pop.luminosities),
                ("dist", pop.distances),
                ("flux", pop.fluxes),
                ("theta", pop.theta),
                ("phi", pop.phi),
                ("prob", pop.probability),
            ):
                ev["views"][k] = views_of(sv)
            # the names of earlier versions
            ev["views"]["old"] = {
                "llat": FA(pop.luminosities_latent),
                "flat": FA(pop.fluxes_latent),
                "fobs": FA(np.asarray(pop.fluxes_observed)),
                "sfo": FA(np.asarray(pop.selected_fluxes_observed)),
                "sfl": FA(np.asarray(pop.selected_fluxes_latent)),
                "sd": FA(np.asarray(pop.selected_distances)),
                "hfo": FA(np.asarray(pop.hidden_fluxes_observed)),
                "hfl": FA(np.asarray(pop.hidden_fluxes_latent)),
                "hd": FA(np.asarray(pop.hidden_distances)),
            }
            ev["views"]["aux"] = {nme: views_of(getattr(pop, nme)) for nme in names}
        # protected quantities
        denied = []
        for nme in names:
            was = getattr(pop, nme)
            good, e, _ = self.guard(lambda: setattr(pop, nme, 1))
            if good:
                setattr(pop, nme, was)
            else:
                denied.append(nme)
        ev["denied"] = denied
        ev["truth"] = {str(k): pars_rec(v) for k, v in pop.truth.items()}
        ev["graph"] = graph_of(pop.graph)
        ev["directed"] = bool(pop.graph.is_directed())
        ev["lf"] = pars_rec(pop.luminosity_parameters or {})
        ev["spp"] = pars_rec(pop.spatial_parameters or {})
        ev["digest"] = survey_digest(pop)
        # exponents of the recorded probability and of its contributions
        ev["lg"] = self.log_probs(syn, pop, arr, norm) if full else {"on": False}
        return ev

    @staticmethod
    def off(values, expected):
        """largest deviation in units of 1e-9 degree (rounded)"""
        out = 0
        for v in values:
            v = np.asarray(v)
            if v.shape != expected.shape:
                return 1000000
            if len(v):
                d = np.max(np.abs(v - expected))
                out = max(out, 1000000 if not d < 1e-3 else int(round(d * 1e9)))
        return out

    def log_probs(self, syn, pop, arr, norm):
        i = self.info[syn]
        sp, lu = self.info[i["spat"]], i["lum"]
        out = {"on": False}
        if sp["cls"] != "VStep" and sp["cls"] != "VFlat":
            return out
        if lu != "none" and i["der"] == "none" and self.info[lu]["cls"] != "VLum":
            return out

        def lg(a):
            a = np.asarray(a, dtype=float)
            with np.errstate(all="ignore"):
                x = np.log2(a)
            r = np.round(x)
            good = np.isfinite(x) & (np.abs(x - r) < 1e-9)
            return [int(v) if g else -9999 for v, g in zip(r, good)]

        o = self.dists[i["spat"]]
        r_max = float(sp["pars"].get("r_max", 10))
        if sp["cls"] == "VStep":
            base = float(sp["pars"].get("base", 2))
            d = np.power(base, np.floor(arr["dist"]))
            edges = np.arange(0, r_max + 1e-9, 1.0)
            integral = sum(base**k for k in range(int(r_max))) if r_max == int(r_max) else None
        else:
            amp = float(sp["pars"].get("amp", 1))
            d = np.full(len(arr["dist"]), amp)
            integral = amp * r_max
        if norm:
            if integral is None:
                return out
            d = d / integral
        out["spat"] = lg(d)
        if i["der"] == "none":
            out["lum"] = lg(np.exp2(np.mod(np.floor(arr["lum"]), 3.0)))
        else:
            out["lum"] = [0] * len(arr["lum"])
        out["aux"] = {}
        for s in self.attached(syn):
            hp = self.info[s]["cls"] in ("VAuxP", "VAuxPD", "VDerP")
            t = np.asarray(getattr(pop, self.info[s]["name"]).latent)
            out["aux"][s] = (
                lg(np.exp2(np.mod(np.floor(t), 3.0))) if hp else [0] * len(t)
            )
        out["pop"] = lg(arr["prob"])
        out["on"] = all(x > -9999 for x in out["spat"])
        return out
