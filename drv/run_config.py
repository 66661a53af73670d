"""drv/run_config.py OUT.ndjson SCRIPTS|none SEED N_READY

Replays histories generated by TLC (spec/ConfigAlg.tla) on random synths, and
makes the ready-made populations.
"""
import copy
import hashlib
import json
import os
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np
import yaml

import popsynth

popsynth.silence_logs()
import popsynth.populations as ready
from popsynth.populations.spatial_populations import MWRadialPopulation
from popsynth.utils.configuration import popsynth_config
from vtrace import F, Dig, Trace
import synths
from synths import DEFAULTS

NOTAUX = ("z_obs", "known_z_obs", "r_obs", "known_r_obs", "flux_obs", "log_flux_obs")
NONE = dict(name="none", pars={})


def fill(cls, pars):
    out = dict(DEFAULTS.get(cls, {}))
    out.update({k: float(v) for k, v in pars.items()})
    return {k: F(v) for k, v in out.items()}


def dist_part(d, cls=None):
    """Unity selections of fluxes and distances are the same as none"""
    if d["name"] in ("none", "UnitySelection"):
        return NONE
    return dict(name=d["name"], pars=fill(d["name"], d["pars"]))


def described(d):
    """a description as the specification has it"""
    out = dict(
        seed=str(d["seed"]),
        spatial=dict(name=d["spatial"]["name"], rate=d["spatial"]["rate"],
                     pars=fill(d["spatial"]["name"], d["spatial"]["pars"])),
        lum=dist_part(d["lum"]), flux=dist_part(d["flux"]), dist=dist_part(d["dist"]),
        space=NONE if d["space"]["name"] == "none" else dict(
            name=d["space"]["name"], pars=fill(d["space"]["name"], d["space"]["pars"])),
        aux=list(d["aux"]), derived=d["derived"], samplers={},
    )
    for k, s in d["samplers"].items():
        out["samplers"][k] = dict(
            type=s["type"], observed=s["observed"], pars=fill(s["type"], s["pars"]),
            secondary=list(s["secondary"]),
            sel=dict(name=s["sel"]["name"], pars=fill(s["sel"]["name"], s["sel"]["pars"]),
                     uses=list(s["sel"]["uses"])))
    return out


def first(d):
    """the class and the parameters of a part of a configuration"""
    if d is None:
        return dict(name="none", pars={})
    k = [x for x in d if x != "is_rate" and not x.startswith("use_")]
    if len(k) != 1:
        return dict(name="|".join(k), pars={})
    return dict(name=k[0], pars=d[k[0]] or {})


def canon(conf):
    """an exported configuration as the specification has it"""
    sp = first(conf["spatial distribution"])
    rate = "none"
    if sp["name"] in synths.COSMO:
        rate = "yes" if bool(conf["spatial distribution"].get("is_rate", True)) else "no"
    d = dict(
        seed=str(int(conf["seed"])), spatial=dict(sp, rate=rate),
        lum=first(conf.get("luminosity distribution")), flux=first(conf.get("flux selection")),
        dist=first(conf.get("distance selection")), space=first(conf.get("spatial selection")),
        samplers={}, aux=[], derived="none",
    )
    inner = set()
    for k, s in (conf.get("auxiliary samplers") or {}).items():
        sel = first(s.get("selection") or {"UnitySelection": {}})
        uses = sorted(x[4:] for x, v in (s.get("selection") or {}).items()
                      if x.startswith("use_") and bool(v))
        if sel["name"] in synths.ANYTHING:
            uses = []
        elif not any(x.startswith("use_") for x in s["selection"]):
            uses = ["obs_value"]
        sec = s.get("secondary")
        sec = [] if sec is None else [sec] if isinstance(sec, str) else list(sec)
        inner.update(sec)
        d["samplers"][k] = dict(
            type=s["type"], observed=bool(s["observed"]), secondary=sec,
            pars={p: v for p, v in s.items() if p not in ("type", "observed", "secondary", "selection")},
            sel=dict(name=sel["name"], pars=sel["pars"], uses=uses))
    for k, s in d["samplers"].items():
        if k in inner:
            continue
        if s["type"] == "VLumSampler":
            d["derived"] = k
        else:
            d["aux"].append(k)
    return described(d)


def Near(v):
    """a digest to ten digits, as numbers of numpy and others differ in the last ones when raised to a power"""
    v = np.asarray(v)
    if v.dtype.kind != "f":
        return Dig(v)
    m, e = np.frexp(v)
    return Dig(np.ldexp(np.round(m * 2.0**33), e - 33))


def digest(p, Near=Dig):
    """everything a population holds"""
    parts = []
    s = p.to_stan_data()
    aux = sorted(k[:-4] for k in s if k.endswith("_obs") and k not in NOTAUX)
    for name in ["luminosities", "distances", "fluxes", "theta", "phi", "probability"] + aux:
        v = getattr(p, name)
        if v is None:
            parts.append(name + ":none")
        else:
            parts.append("%s:%s:%s" % (name, Near(v), Near(v.latent)))
    for k in sorted(s):
        parts.append("%s:%s" % (k, Near(s[k])))
    parts.append("sel:" + Dig(p.selection))
    parts += ["n:%d:%d" % (p.n_objects, p.n_detections)]
    return hashlib.sha1("|".join(parts).encode()).hexdigest()[:16]


def optstr(o):
    return json.dumps(o, sort_keys=True)


# ------------------------------------------------------- written by hand


def number(rng, v):
    r = rng.random()
    if r < 0.3 and float(v) == int(v):
        return int(v)
    if r < 0.4:
        return repr(float(v))
    return float(v)


def by_hand(rng, d):
    """a configuration as one would write it"""

    def pars(p):
        out = {k: number(rng, v) for k, v in p.items()}
        return None if not out and rng.random() < 0.5 else out

    def part(x):
        return {x["name"]: pars(x["pars"])}

    c = {"seed": d["seed"]}
    sp = {d["spatial"]["name"]: {k: number(rng, v) for k, v in d["spatial"]["pars"].items()}}
    if d["spatial"]["rate"] == "no" or (d["spatial"]["rate"] == "yes" and rng.random() < 0.5):
        sp["is_rate"] = d["spatial"]["rate"] == "yes"
    c["spatial distribution"] = sp
    if d["lum"]["name"] != "none":
        c["luminosity distribution"] = {d["lum"]["name"]: {k: number(rng, v) for k, v in d["lum"]["pars"].items()}}
    for k, key in (("flux", "flux selection"), ("dist", "distance selection"), ("space", "spatial selection")):
        if d[k]["name"] != "none":
            c[key] = part(d[k])
        elif rng.random() < 0.1:
            c[key] = None
    order = []

    def add(n):
        if n in order:
            return
        before = rng.random() < 0.5
        if before:
            for x in d["samplers"][n]["secondary"]:
                add(x)
        if n not in order:
            order.append(n)
        for x in d["samplers"][n]["secondary"]:
            add(x)

    tops = list(d["aux"])
    if d["derived"] != "none":
        tops.insert(int(rng.integers(0, len(tops) + 1)), d["derived"])
    for n in tops:
        add(n)
    aux = {}
    for n in order:
        s = d["samplers"][n]
        a = {"type": s["type"], "observed": s["observed"]}
        for k, v in s["pars"].items():
            a[k] = number(rng, v)
        r = rng.random()
        if s["type"] == "VStartSampler" and r < 0.5:
            if "mu" in a:
                a["init variables"] = {"start": float(a.pop("mu"))}
        elif r < 0.1:
            a["init variables"] = None if r < 0.05 else {}
        sec = s["secondary"]
        if sec:
            r = rng.random()
            a["secondary"] = sec[0] if len(sec) == 1 and r < 0.5 else list(sec)
        elif rng.random() < 0.4:
            a["secondary"] = [] if rng.random() < 0.5 else None
        if s["sel"]["name"] != "UnitySelection" or rng.random() < 0.5:
            sel = {s["sel"]["name"]: pars(s["sel"]["pars"])}
            if s["sel"]["uses"] not in ([], ["obs_value"]) or (s["sel"]["uses"] and rng.random() < 0.3):
                sel.update({"use_" + u: u in s["sel"]["uses"]
                            for u in ("obs_value", "distance", "luminosity", "flux")})
            a["selection"] = sel
        elif rng.random() < 0.3:
            a["selection"] = None
        aux[n] = a
    if aux or rng.random() < 0.5:
        c["auxiliary samplers"] = aux
    return c


# ----------------------------------------------------------------- replay


class Player(object):
    def __init__(self, tr, rng, base):
        self.tr = tr
        self.rng = rng
        self.base = base
        self.y = {}
        self.objs = {}
        self.desc = {}
        self.docs = {}
        self.docdesc = {}
        self.kinds = {}
        self.opts = {}
        self.n = 0

    def path(self):
        self.n += 1
        return os.path.join(self.base, "f%d" % self.n)

    def kind(self, k):
        if k not in self.kinds:
            self.kinds[k] = synths.describe(self.rng)
        return copy.deepcopy(self.kinds[k])

    def make(self, e):
        d = self.kind(e["kind"])
        if self.rng.random() < 0.25:
            # written by hand instead
            conf = by_hand(self.rng, d)
            x = "h%d" % self.n
            self.n += 1
            how = "dict"
            if self.rng.random() < 0.5:
                how = self.path() + ".yml"
                with open(how, "w") as f:
                    yaml.safe_dump(conf, f, sort_keys=False)
            self.tr.emit(op="hand", x=x, d=described(d))
            self.docs[x] = (how, conf)
            self.docdesc[x] = d
            self.build(dict(y=e["y"], x=x))
            return
        self.y[e["y"]], self.objs[e["y"]] = synths.build(d)
        self.desc[e["y"]] = d
        self.tr.emit(op="make", y=e["y"], d=described(d))

    def export(self, e):
        y = self.y[e["y"]]
        how = e["how"]
        if how == "file":
            how = ["yaml", "population", "h5", "group", "twice"][int(self.rng.integers(0, 5))]
        ok, conf, doc = True, None, None
        if True:
            if how == "dict":
                conf = y.to_dict()
                doc = ("dict", conf)
            elif how == "yaml":
                f = self.path() + ".yml"
                y.write_to(f)
                with open(f) as h:
                    conf = yaml.safe_load(h)
                doc = (f, conf)
            else:
                p = y.draw_survey(n_samples=int(self.rng.integers(0, 4)))
                if how in ("h5", "twice"):
                    for _ in range(1 if how == "h5" else 2):
                        f = self.path() + ".h5"
                        p.writeto(f)
                        p = popsynth.Population.from_file(f)
                elif how == "group":
                    f = self.path() + ".h5"
                    p.writeto(f)
                    p.addto(f, "here")
                    p = popsynth.Population.from_group(f, "here")
                conf = p.pop_synth
                doc = ("dict", conf)
        c = canon(conf)
        self.docs[e["x"]] = doc
        self.docdesc[e["x"]] = copy.deepcopy(self.desc[e["y"]])
        self.tr.emit(op="export", y=e["y"], x=e["x"], how=how, ok=ok, c=c)

    def build(self, e):
        how, conf = self.docs[e["x"]]
        before = json.dumps(conf, default=repr)
        if how == "dict":
            self.y[e["y"]] = popsynth.PopulationSynth.from_dict(conf)
        else:
            self.y[e["y"]] = popsynth.PopulationSynth.from_file(how)
        self.objs[e["y"]] = {}
        self.desc[e["y"]] = copy.deepcopy(self.docdesc[e["x"]])
        self.tr.emit(op="build", y=e["y"], x=e["x"], ok=True,
                     unchanged=json.dumps(conf, default=repr) == before)

    def tune(self, e):
        y, d, rng = self.y[e["y"]], self.desc[e["y"]], self.rng
        where = ["spatial"]
        if d["lum"]["name"] != "none":
            where.append("lum")
        named = sorted(n for n in self.objs[e["y"]])
        where += ["sampler"] * min(2, len(named)) + ["selection"] * min(1, len(named))
        w = where[int(rng.integers(0, len(where)))]
        name = named[int(rng.integers(0, len(named)))] if w in ("sampler", "selection") else ""
        if w == "spatial":
            tab, cls, obj, pars = synths.SPATIAL, d["spatial"]["name"], y.spatial_distribution, d["spatial"]["pars"]
        elif w == "lum":
            tab, cls, obj, pars = synths.LUM, d["lum"]["name"], y.luminosity_distribution, d["lum"]["pars"]
        elif w == "sampler":
            s = d["samplers"][name]
            tab, cls, obj, pars = synths.AUX, s["type"], self.objs[e["y"]][name], s["pars"]
        else:
            s = d["samplers"][name]["sel"]
            tab, cls, obj, pars = synths.SEL, s["name"], self.objs[e["y"]][name].selector, s["pars"]
        if not tab[cls]:
            return
        ks = sorted(tab[cls])
        par = ks[int(rng.integers(0, len(ks)))]
        v = synths.odd(rng, tab[cls][par](rng))
        setattr(obj, par, v)
        pars[par] = v
        self.tr.emit(op="tune", y=e["y"], where=w, name=name, par=par, v=F(v))

    def draw(self, e):
        d = self.desc[e["y"]]
        if e["opts"] not in self.opts:
            self.opts[e["opts"]] = synths.drawable(self.rng, d)
        o = dict(self.opts[e["opts"]])
        if d["spatial"]["name"] == "SpiralGalaxyDistribution" or max(
            float(x) for x in d["spatial"]["pars"].values()
        ) > 4.9:
            o.setdefault("n_samples", 11)
        np.random.seed(int(self.rng.integers(0, 2**31)))
        p = self.y[e["y"]].draw_survey(**o)
        self.tr.emit(op="draw", y=e["y"], opts=optstr(o), ok=True, dig=digest(p, Near), c=canon(p.pop_synth))

    def play(self, script):
        for e in script:
            getattr(self, e["op"], lambda e: None)(e)
        # at last every synth draws and is exported
        for y in sorted(self.y):
            self.draw(dict(y=y, opts="o1"))
            self.export(dict(y=y, x="z" + y, how="dict"))


# ------------------------------------------------------------- ready made

SP = dict(SphericalPopulation=["Lambda"], ZPowerSphericalPopulation=["Lambda", "delta"],
          ZPowerCosmoPopulation=["Lambda", "delta"],
          SFRPopulation=["r0", "a", "rise", "decay", "peak"],
          MWRadialPopulation=["rho", "a", "b", "R1", "R0"])
SPCLS = dict(SphericalPopulation="ConstantSphericalDistribution",
             ZPowerSphericalPopulation="ZPowerSphericalDistribution",
             ZPowerCosmoPopulation="ZPowerCosmoDistribution", SFRPopulation="SFRDistribution",
             MWRadialPopulation="SpiralGalaxyDistribution")
LM = dict(Pareto=["Lmin", "alpha"], Schechter=["Lmin", "alpha"], LogNormal=["mu", "tau"],
          Log10Normal=["mu", "tau"], BPL=["Lmin", "alpha", "Lbreak", "beta", "Lmax"])
LMCLS = dict(Pareto="ParetoDistribution", Schechter="SchechterDistribution",
             LogNormal="LogNormalDistribution", Log10Normal="Log10NormalDistribution",
             BPL="BPLDistribution")


def ready_made(tr, rng, rounds):
    classes = [(s, s, None) for s in SP]
    for l in LM:
        for s in list(SP)[:4]:
            name = l + (s if s != "SphericalPopulation" else "HomogeneousSphericalPopulation")
            classes.append((name, s, l))
    for _ in range(rounds):
        for name, s, l in classes:
            tr.begin("ready")
            sc = SPCLS[s]
            tab = dict(synths.SPATIAL[sc])
            if l:
                tab.update(synths.LUM[LMCLS[l]])
            sig = SP[s] + (LM[l] if l else [])
            vals = [tab[k](rng) for k in sig]
            # no two alike, so that none can be taken for another
            vals = [float(v) + 0.001 * (i + 1) for i, v in enumerate(vals)]
            cosmo = s in ("ZPowerCosmoPopulation", "SFRPopulation")
            r_max = {"SphericalPopulation": 5, "MWRadialPopulation": 20}.get(s, 5)
            if l == "Schechter":
                r_max = 10
            seed, rate = 1234, "yes"
            kw = {}
            mode = rng.random()
            if mode < 0.8:
                r_max = kw["r_max"] = synths.SPATIAL[sc]["r_max"](rng)
                seed = kw["seed"] = int(rng.choice([0, rng.integers(0, 2**32)]))
                if cosmo:
                    kw["is_rate"] = bool(rng.random() < 0.5)
                    rate = "yes" if kw["is_rate"] else "no"
            elif cosmo and mode < 0.9:
                kw["is_rate"] = False
                rate = "no"
            lum = None
            if l is None and rng.random() < 0.0:
                pass
            cls = getattr(ready, name) if name != "MWRadialPopulation" else MWRadialPopulation
            if name == "MWRadialPopulation" and rng.random() < 0.3:
                vals = [vals[0], 1.64, 4.01, 0.55, 8.5]
                y = cls(vals[0], **kw)
            elif rng.random() < 0.5:
                y = cls(*vals, **kw)
            else:
                y = cls(**dict(zip(sig, vals)), **kw)
            tr.emit(op="ready", y="y1", cls=name, args=[F(v) for v in vals], r_max=F(r_max), seed=str(seed),
                    rate=rate if cosmo else "none", ok=True, c=canon(y.to_dict()))
            ns = len(SP[s])
            d = dict(seed=seed, samplers={}, aux=[], derived="none", flux=NONE, dist=NONE, space=NONE,
                     spatial=dict(name=sc, pars=dict(zip(sig[:ns], vals[:ns]), r_max=r_max),
                                  rate=rate if cosmo else "none"),
                     lum=NONE if l is None else dict(name=LMCLS[l], pars=dict(zip(sig[ns:], vals[ns:]))))
            z, _ = synths.build(d)
            tr.emit(op="make", y="y2", d=described(d))
            pl = Player(tr, rng, None)
            pl.y = dict(y1=y, y2=z)
            pl.desc = dict(y1=d, y2=d)
            if l is None:
                # a derived luminosity
                for k in ("y1", "y2"):
                    a = synths.LumSampler("lum")
                    pl.y[k].add_auxiliary_sampler(a)
                d2 = dict(d, derived="lum", samplers=dict(lum=dict(
                    type="VLumSampler", observed=False, pars={}, secondary=[],
                    sel=dict(name="UnitySelection", pars={}, uses=[]))))
                pl.desc = dict(y1=d2, y2=d2)
                for k in ("y1", "y2"):
                    tr.emit(op="derive", y=k, d=described(d2))
            pl.opts["o1"] = dict(n_samples=int(rng.integers(1, 20)))
            for k in ("y1", "y2"):
                pl.draw(dict(y=k, opts="o1"))


def main():
    out, scripts, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    popsynth_config.show_progress = False
    synths.NARROW = True
    rng = np.random.default_rng([seed, 9])
    tr = Trace(out)
    base = os.getcwd()
    if scripts != "none":
        for line in open(scripts):
            tr.begin("config")
            pl = Player(tr, rng, base)
            pl.play(json.loads(line))
            for f in os.listdir(base):
                if f.endswith((".yml", ".h5")) and f.startswith("f"):
                    os.remove(os.path.join(base, f))
    ready_made(tr, rng, n)
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
