"""Random histories of synths, on top of executor.Exec.

Only histories with a defined meaning are made (see DESIGN.md): a selection
belongs to one holder, samplers do not depend on each other in cycles, a
selection on luminosity or distance belongs to a sampler that has them.
"""
import numpy as np

import popsynth
from popsynth.utils.configuration import popsynth_config

GOOD = {
    "VStep": {"r_max": [1, 2, 3], "dens": [0.5, 1, 2], "base": [1, 2, 2]},
    "VFlat": {"r_max": [1, 4, 8], "amp": [0.5, 1, 2]},
    "VSphere": {"r_max": [1, 1.5], "Lambda": [0.5, 1, 2]},
    "VCosmo": {"r_max": [0.2, 0.3], "Lambda": [0.5, 1], "delta": [0, 1, -1]},
    "VLum": {"a": [0.5, 1, 2], "b": [1, 3, 8]},
    "VPareto": {"Lmin": [1, 2], "alpha": [1, 2]},
    "VLogN": {"mu": [0, 1], "tau": [0.5, 1]},
    "VNormal": {"mu": [0, 2], "tau": [0, 1, 2], "sigma": [0.5, 1]},
    "VLogNormal": {"mu": [0, 1], "tau": [0.5, 1], "sigma": [0.5, 1]},
    "VDelta": {"xp": [0, 2, -1], "sigma": [0.5, 1]},
    "VParetoA": {"xmin": [1, 2], "alpha": [1, 2], "sigma": [0.5, 1]},
    "VTrunc": {"mu": [0, 1], "tau": [1, 2], "lower": [-1, 0], "upper": [1.5, 2], "sigma": [0.5]},
    "VNonObs": {"p": [1, 2]},
}
for _c in ("VAux", "VAuxD", "VAuxL", "VAuxDL", "VAuxP", "VAuxPD", "VDer", "VDerD", "VDerP"):
    GOOD[_c] = {"p": [-1, 0, 1, 2], "q": [0, 2, 8]}
MUST = {
    "VCosmo": ["delta"],
    "VLogN": ["mu", "tau"],
    "VTrunc": ["lower", "upper"],
}
HAS_UL = ("VAuxL", "VAuxDL")
HAS_UD = ("VAuxD", "VAuxDL", "VAuxPD", "VDerD")
AUX_CLS = [
    "VAux", "VAux", "VAuxD", "VAuxD", "VAuxL", "VAuxDL", "VAuxP", "VAuxP",
    "VAuxPD", "VNormal", "VLogNormal", "VDelta", "VParetoA", "VTrunc", "VNonObs",
]
DER_CLS = ["VDer", "VDerD", "VDerP"]
SCALE = {"VStep": "dens", "VFlat": "amp", "VSphere": "Lambda", "VCosmo": "Lambda"}
JUNKS = {
    "add": ["str", "none", "num", "dict", "spat", "lumd", "sel", "cls"],
    "sel": ["str", "none", "num", "dict", "spat", "samp", "cls"],
    "sec": ["str", "none", "num", "dict", "sel", "cls"],
    "spat": ["str", "none", "num", "lumd", "samp", "sel"],
    "lum": ["str", "num", "dict", "spat", "samp", "sel"],
}

BASE = dict(
    spat=["VStep", "VStep", "VFlat", "VSphere", "VCosmo"],
    lum=["VLum", "VLum", "VPareto", "VLogN"],
    aux=AUX_CLS,
    n_aux=(0, 6),
    p_edge=0.45,
    p_der=0.3,
    p_nolum=0.25,
    p_sel=0.5,
    p_flux=0.5,
    p_dist=0.4,
    p_sp=0.3,
    p_norm=0.15,
    p_sigma=0.4,
    p_neg=0.0,
    p_loud=0.2,
    p_random=0.15,
    ns=[0, 1, 2, 5, 12, 25],
    p_free=0.2,
    steps=8,
    w=dict(draw=6, repeat=1, set_par=2, set_bound=2, edge=3, setsel=1, setrole=1,
           grow=1, sec=1, clean=1, reset=1, export=1, space=0.5, synth=0.5,
           twin=1, junk=0, steal=0, dup=0),
)


def profile(**kw):
    out = dict(BASE)
    w = dict(BASE["w"])
    w.update(kw.pop("w", {}))
    out.update(kw)
    out["w"] = w
    return out


def some_seed(rng):
    """any seed that numpy takes"""
    if rng.random() < 0.6:
        return int(rng.integers(0, 10000))
    return int([0, 0, 1, 2**16, 2**31 - 1, 2**31, 2**32 - 1, rng.integers(0, 2**32)][int(rng.integers(0, 8))])


class Gen(object):
    def __init__(self, x, rng, prof):
        self.x, self.rng, self.p = x, rng, prof
        self.count = 0

    # ------------------------------------------------------------ helpers
    def flip(self, p):
        return bool(self.rng.random() < p)

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def id(self, pre):
        self.count += 1
        return "%s%d" % (pre, self.count)

    def good(self, cls):
        """values of the parameters of a class"""
        out = GOOD[cls]
        if self.p.get("scales") and cls in SCALE:
            # densities of any scale
            out = dict(out, **{SCALE[cls]: [0.5, 1, 2, 2.0**30, 2.0**-30, 2.0**60]})
        return out

    def pars(self, cls, p=0.6):
        out = {}
        for k, vals in self.good(cls).items():
            if k in MUST.get(cls, []) or k == "r_max" or self.flip(p):
                out[k] = self.pick(vals)
        return out

    # ------------------------------------------------------------ building
    def dist(self, cls, pre):
        i = self.id(pre)
        self.x.new_dist(i, cls, i, self.pars(cls))
        return i

    def sampler(self, cls=None, pre="a", name=None):
        i = self.id(pre)
        cls = cls or self.pick(self.p["aux"])
        obs = self.flip(0.6) and cls != "VNonObs"
        self.x.new_sampler(i, cls, name or i, obs, self.pars(cls))
        return i

    def info(self, s):
        return self.x.info[s]

    def tree(self, s):
        return [s] + self.x.under(s)

    def derived_tree(self):
        out = set()
        for k, v in self.x.info.items():
            if v["kind"] == "samp" and v["der"]:
                out.update(self.tree(k))
        return out

    def in_synths(self, s):
        return [
            y for y, v in self.x.info.items() if v["kind"] == "syn" and s in v["aux"]
        ]

    def is_child(self, s):
        return any(
            v["kind"] == "samp" and s in v["secs"] for v in self.x.info.values()
        )

    def can_sec(self, parent, child):
        if parent == child or parent in self.tree(child):
            return False
        c = self.info(child)
        if c["der"]:
            return False
        names = [self.info(t)["name"] for t in self.info(parent)["secs"]]
        if c["name"] in names:
            return False
        low = self.tree(child)
        # a selection on luminosity needs luminosities
        for t in low:
            v = self.info(t)
            if v.get("lumsel") and v["cls"] not in HAS_UL:
                return False
        above = [
            k for k, v in self.x.info.items()
            if v["kind"] == "samp" and parent in self.tree(k)
        ]
        if any(self.info(k)["der"] for k in above):
            if any(
                self.info(t)["cls"] in HAS_UL or self.info(t).get("lumsel")
                for t in low
            ):
                return False
        if len(above) > 4:
            return False
        return True

    def selection(self, holder=None, role=None, values=None):
        """a new selection for a sampler or a role"""
        i = self.id("k")
        rnd = self.flip(self.p["p_random"])
        if role == "flux":
            if rnd:
                self.x.new_sel(i, "softflux", "flux", self.pick([0.5, 1, 5]), 2)
            else:
                t = self.pick(["hard", "hard", "lower", "upper", "box", "unity"])
                if self.p.get("flux_real") and t == "unity":
                    t = "hard"
                a, b = sorted(self.pick([0.05, 0.2, 0.5, 1, 2, 6, 20]) for _ in range(2))
                self.x.new_sel(i, t, "flux", a, b)
        elif role == "dist":
            t = "bern" if rnd else self.pick(["lower", "upper", "box", "bern"])
            if t == "bern":
                self.x.new_sel(i, t, "obs", self.pick([0, 1, 0.5] if rnd else [0, 1]), 0)
            else:
                a, b = sorted(self.pick([0, 0.3, 0.7, 1, 1.5, 2.5, 5]) for _ in range(2))
                self.x.new_sel(i, t, "dist", a, b)
        elif role == "sp":
            t = self.pick(["range", "range", "gal"])
            if t == "gal":
                self.x.new_sel(i, "gal", "sky", self.pick([0, 5, 20, 45]), 0)
            else:
                a, b = sorted(self.pick([0, 0.2, 0.7, 1, 1.5, 2.5, 9]) for _ in range(2))
                self.x.new_sel(i, "range", "dist", a, b)
        else:
            v = self.info(holder)
            on = ["obs"] * 3
            if v["cls"] in HAS_UD:
                on.append("dist")
            lumok = v["cls"] in HAS_UL or (
                not v["der"] and not self.is_child(holder)
            )
            if lumok and holder not in self.derived_tree():
                on.append("lum")
            on = self.pick(on)
            if rnd:
                self.x.new_sel(i, "bern", "obs", self.pick([0.3, 0.8]), 0)
            else:
                t = self.pick(["lower", "upper", "box", "lower", "upper", "box", "unity", "bern"])
                grid = {
                    "obs": [-2, -0.5, 0, 0.5, 1, 1.25, 2, 3.5, 6],
                    "dist": [0.3, 0.7, 1.2, 2.1],
                    "lum": [0.5, 1, 2, 3, 4, 6],
                }[on]
                a, b = sorted(self.pick(grid) for _ in range(2))
                if t == "bern":
                    a = self.pick([0, 1, 1])
                self.x.new_sel(i, t, on, a, b)
                if on == "lum" and t in ("lower", "upper", "box"):
                    v["lumsel"] = True
        return i

    def give_selection(self, s):
        self.x.setsel(s, self.selection(holder=s))

    def give_role(self, y, role):
        self.x.setrole(y, role, self.selection(role=role))

    def configure(self, y):
        """attach new things to a clean synth"""
        p = self.p
        n = int(self.rng.integers(p["n_aux"][0], p["n_aux"][1] + 1))
        ids = [self.sampler() for _ in range(n)]
        roots = []
        for j, s in enumerate(ids):
            cands = ids[:j]
            linked = False
            for c in cands:
                if self.flip(p["p_edge"] / (1 + 0.3 * len(cands))) and self.can_sec(c, s):
                    self.x.sec(c, s)
                    linked = True
            if not linked:
                roots.append(s)
        lum = self.info(y)["lum"]
        need = lum == "none" and not self.flip(p["p_neg"])
        if need or self.flip(p["p_der"]):
            d = self.sampler(self.pick(DER_CLS), "d")
            for s in ids:
                if s not in roots and self.flip(0.4) and self.can_sec(d, s):
                    self.x.sec(d, s)
            if self.flip(0.7):
                c = self.sampler(self.pick([z for z in p["aux"] if z not in HAS_UL]))
                if self.can_sec(d, c):
                    self.x.sec(d, c)
                    ids.append(c)
                    if self.flip(0.4) and roots and self.can_sec(self.pick(roots), c):
                        r = self.pick(roots)
                        if self.can_sec(r, c):
                            self.x.sec(r, c)
            ids.append(d)
            self.x.add(y, d, via=self.pick(["quantity", "sampler"]))
        for s in ids:
            if self.flip(p["p_sel"]):
                self.give_selection(s)
        for s in roots:
            if self.flip(0.9):
                self.x.add(y, s, via=self.pick(["quantity", "sampler"]))
        for r in ("flux", "dist", "sp"):
            if self.flip(p["p_" + r]):
                self.give_role(y, r)

    def synth(self, share=False):
        y = self.id("y")
        p = self.p
        dists = [k for k, v in self.x.info.items() if v["kind"] == "dist"]
        sp = [k for k in dists if self.info(k)["cls"] in ("VStep", "VFlat", "VSphere", "VCosmo")]
        lu = [k for k in dists if k not in sp]
        s = self.pick(sp) if share and sp else self.dist(self.pick(p["spat"]), "s")
        if self.flip(p["p_nolum"]):
            l = "none"
        else:
            l = self.pick(lu) if share and lu else self.dist(self.pick(p["lum"]), "l")
        self.x.new_synth(y, s, l, some_seed(self.rng))
        return y

    # ------------------------------------------------------------ drawing
    def opts(self, y):
        p = self.p
        i = self.info(self.info(y)["spat"])
        d = i["pars"].get(SCALE.get(i["cls"]), 1)
        n = None if self.flip(p["p_free"]) and d <= 2 else int(self.pick(p["ns"]))
        o = dict(n=n, norm=self.flip(p["p_norm"]))
        if self.flip(p["p_sigma"]):
            o["sigma"] = self.pick([0, 0.0, 0.001, 0.1, 0.5, 1.0, 3])
            o["log10"] = self.flip(0.6)
        return o

    def draw(self, y, o=None):
        o = o or self.opts(y)
        popsynth_config.show_progress = self.flip(self.p["p_loud"])
        pop = self.x.draw(y, **o)
        popsynth_config.show_progress = False
        if pop is not None:
            self.last = (y, o, pop)
        return pop

    def edge(self):
        """move a bound onto a value that was seen"""
        if getattr(self, "last", None) is None:
            return
        y, o, pop = self.last
        if y not in self.x.syns or pop.n_objects == 0:
            return
        cands = []
        i = self.info(y)
        for s in self.x.attached(y):
            k = self.info(s)["sel"]
            if k in self.x.sels:
                cands.append((k, self.info(s)["name"]))
        for r in ("flux", "dist", "sp"):
            if i[r] in self.x.sels:
                cands.append((i[r], None))
        cands = [
            c for c in cands
            if self.info(c[0])["typ"] in ("lower", "upper", "box", "hard", "range", "gal")
        ]
        if not cands:
            return
        k, name = self.pick(cands)
        v = self.info(k)
        try:
            if v["typ"] == "range" or v["on"] == "dist":
                vals = np.asarray(pop.distances)
            elif v["typ"] == "gal":
                return
            elif v["on"] == "lum":
                vals = np.asarray(pop.luminosities)
            elif v["on"] == "flux":
                vals = np.asarray(pop.fluxes)
            else:
                vals = np.asarray(getattr(pop, name))
        except Exception:  # noqa
            return
        if len(vals) == 0 or not np.all(np.isfinite(vals)):
            return
        a, b = sorted([float(self.pick(vals)), float(self.pick(vals))])
        self.x.set_bound(k, a, b)
        o = dict(o)
        o["n"] = int(pop.n_objects)
        self.draw(y, o)

    def twin(self, y):
        """the same configuration from new objects gives the same survey"""
        x = self.x
        self.count += 1
        pre = "t%d_" % self.count
        i = x.info[y]
        made = {}

        def mk_sel(k):
            if k not in x.sels:
                return k
            v = x.info[k]
            x.new_sel(pre + k, v["typ"], v["on"], v["lo"], v["hi"], canon=v["canon"])
            return pre + k

        def mk(s):
            if s in made:
                return made[s]
            v = x.info[s]
            x.new_sampler(pre + s, v["cls"], v["name"], v["observed"], v["pars"], canon=v["canon"])
            made[s] = pre + s
            for c in v["secs"]:
                x.sec(pre + s, mk(c))
            if v["sel"] in x.sels:
                x.setsel(pre + s, mk_sel(v["sel"]))
            return pre + s

        def mk_dist(d):
            if d == "none":
                return d
            v = x.info[d]
            x.new_dist(pre + d, v["cls"], v["name"], v["pars"], canon=v["canon"])
            return pre + d

        t = pre + y
        x.new_synth(t, mk_dist(i["spat"]), mk_dist(i["lum"]), i["seed"])
        for s in i["aux"]:
            x.add(t, mk(s))
        if i["der"] != "none":
            x.add(t, mk(i["der"]))
        for r in ("flux", "dist", "sp"):
            if i[r] in x.sels:
                x.setrole(t, r, mk_sel(i[r]))
        return t

    # ------------------------------------------------------------ histories
    def refused(self, y):
        """draws on this synth have to be refused"""
        i = self.info(y)
        return (i["lum"] == "none" and i["der"] == "none") or any(
            self.is_child(s) for s in i["aux"]
        )

    def step(self, ys):
        x, p = self.x, self.p
        ops = [k for k in p["w"] if p["w"][k] > 0]
        w = np.array([p["w"][k] for k in ops], dtype=float)
        op = ops[int(self.rng.choice(len(ops), p=w / w.sum()))]
        y = self.pick(ys)
        att = x.attached(y)
        i = self.info(y)
        if op == "draw":
            self.draw(y)
        elif op == "repeat":
            o = self.opts(y)
            self.draw(y, o)
            self.draw(y, o)
        elif op == "set_par":
            ids = att + [i["spat"]] + ([i["lum"]] if i["lum"] != "none" else [])
            t = self.pick(ids)
            c = self.info(t)["cls"]
            k = self.pick(list(GOOD[c]))
            x.set_par(t, k, self.pick(self.good(c)[k]))
        elif op == "set_bound":
            ks = [self.info(s)["sel"] for s in att] + [i[r] for r in ("flux", "dist", "sp")]
            ks = [
                k for k in ks
                if k in x.sels and self.info(k)["typ"] in ("lower", "upper", "box", "hard")
            ]
            if ks:
                a, b = sorted(self.pick([0.1, 0.5, 1, 1.5, 2, 3]) for _ in range(2))
                x.set_bound(self.pick(ks), a, b)
        elif op == "edge":
            self.edge()
        elif op == "setsel":
            if att:
                self.give_selection(self.pick(att))
        elif op == "setrole":
            self.give_role(y, self.pick(["flux", "dist", "sp"]))
        elif op == "grow":
            s = self.sampler() if self.flip(0.8) else self.sampler(self.pick(DER_CLS), "d")
            if self.flip(p["p_sel"]):
                self.give_selection(s)
            x.add(y, s)
        elif op == "sec":
            if att:
                par = self.pick(att)
                c = self.sampler()
                if self.can_sec(par, c):
                    x.sec(par, c)
                    if self.flip(p["p_sel"]):
                        self.give_selection(c)
        elif op == "clean":
            roots = list(i["aux"])
            x.clean(y, self.flip(0.5))
            if self.flip(0.6):
                for s in roots:
                    if self.flip(0.7):
                        x.add(y, s)
                if self.flip(0.5) or (i["lum"] == "none" and not self.flip(p["p_neg"])):
                    ds = [
                        k for k, v in x.info.items()
                        if v["kind"] == "samp" and v["der"] and not k.startswith("t")
                    ]
                    if ds:
                        x.add(y, self.pick(ds))
                if self.flip(0.5):
                    self.give_role(y, self.pick(["flux", "dist", "sp"]))
            else:
                self.configure(y)
        elif op == "reset":
            if att:
                x.reset_sampler(self.pick(att))
        elif op == "export":
            x.export(y)
        elif op == "space":
            x.space(y, self.id("m"), 1.0, self.pick([2.0, 5.0]), self.flip(0.5))
        elif op == "synth":
            if len(ys) < 3:
                z = self.synth(share=True)
                for s in list(i["aux"]):
                    if self.flip(0.7):
                        x.add(z, s)
                if i["der"] != "none" and (self.flip(0.5) or x.info[z]["lum"] == "none"):
                    x.add(z, i["der"])
                if x.info[z]["lum"] == "none" and x.info[z]["der"] == "none":
                    if not self.flip(p["p_neg"]):
                        x.add(z, self.sampler(self.pick(DER_CLS), "d"))
                ys.append(z)
        elif op == "twin":
            o = self.opts(y)
            t = self.twin(y)
            if self.flip(0.5):
                self.draw(y, o)
                self.draw(t, o)
            else:
                self.draw(t, o)
                self.draw(y, o)
        elif op == "junk":
            self.junk(y, att)
        elif op == "dup":
            # a sampler under a name that is taken
            if i["aux"]:
                s = self.pick(i["aux"])
                if self.flip(0.5):
                    x.add(y, s)
                else:
                    x.add(y, self.sampler(name=self.info(s)["name"]))
        elif op == "steal":
            # attach a sampler that is a secondary, or the other way round
            if att:
                s = self.pick(att)
                if self.is_child(s) and self.flip(0.6):
                    x.add(y, s)
                elif s in i["aux"]:
                    z = self.sampler()
                    if self.can_sec(z, s):
                        x.sec(z, s)
                        self.draw(y)
                        if self.flip(0.7):
                            x.clean(y, self.flip(0.5))
                            if self.flip(0.5):
                                x.add(y, z)
                            else:
                                x.add(y, s)
                            if x.info[y]["lum"] == "none" and x.info[y]["der"] == "none":
                                x.add(y, self.sampler(self.pick(DER_CLS), "d"))

    def junk(self, y, att):
        x = self.x
        k = self.pick(["add", "flux", "dist", "sp", "setsel", "sec", "spat", "lum", "swap"])
        if k == "add":
            x.add(y, "junk:" + self.pick(JUNKS["add"]), via=self.pick(["quantity", "sampler"]))
        elif k in ("flux", "dist", "sp"):
            x.setrole(y, k, "junk:" + self.pick(JUNKS["sel"]))
        elif k == "setsel" and att:
            x.setsel(self.pick(att), "junk:" + self.pick(JUNKS["sel"]))
        elif k == "sec" and att:
            x.sec(self.pick(att), "junk:" + self.pick(JUNKS["sec"]))
        elif k == "spat":
            x.new_synth(self.id("z"), "junk:" + self.pick(JUNKS["spat"]), "none", 1)
        elif k == "lum":
            x.new_synth(
                self.id("z"), x.info[y]["spat"], "junk:" + self.pick(JUNKS["lum"]), 1
            )
        elif k == "swap":
            l = x.info[y]["lum"]
            if l != "none":
                x.new_synth(self.id("z"), l, "none", 1)
                x.new_synth(self.id("z"), x.info[y]["spat"], x.info[y]["spat"], 1)

    def script(self, name):
        x = self.x
        x.new_script(name)
        self.count = 0
        self.last = None
        y = self.synth()
        self.configure(y)
        self.draw(y)
        ys = [y]
        for _ in range(self.p["steps"]):
            self.step(ys)
        o = self.opts(y)
        self.draw(y, o)
        if self.flip(0.5):
            self.draw(self.twin(y), o)
