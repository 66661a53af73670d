"""drv/run_repro.py OUT.ndjson SCRIPTS SEED

Replays histories generated by TLC (spec/ReproAlg.tla): the same surveys are
drawn in several processes, each with a history, a hash seed and an initial
state of the generators of its own.
"""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
from popsynth.utils.configuration import popsynth_config
from vtrace import Trace
from run_config import digest
import synths


class Process(object):
    def __init__(self, rng):
        self.rng = rng
        self.y = {}
        self.out = []

    def make(self, e):
        d = e["desc"]
        y, _ = synths.build(d)
        if self.rng.random() < 0.2:
            y = popsynth.PopulationSynth.from_dict(y.to_dict())
        self.y[e["y"]] = y
        self.out.append({k: e[k] for k in ("op", "p", "y", "k", "s")})

    def draw(self, e):
        ok, why, dig, n = True, "", "", 0
        try:
            p = self.y[e["y"]].draw_survey(**e["opts"])
            n = int(p.n_objects)
            dig = digest(p)
        except Exception as x:
            ok, why = False, repr(x)[:200]
        self.out.append(dict(op="draw", p=e["p"], y=e["y"], o=e["o"], ok=ok, why=why, dig=dig, n=n))

    def noise(self, e):
        r = int(self.rng.integers(0, 8))
        if r == 0:
            np.random.normal(size=int(self.rng.integers(1, 1000)))
        elif r == 1:
            np.random.seed(int(self.rng.integers(0, 2**31)))
        elif r == 2:
            random.seed(int(self.rng.integers(0, 2**31)))
            random.random()
        elif r == 3:
            np.random.standard_normal()  # leaves half of a pair behind
        elif r == 4:
            s = popsynth.NormalAuxSampler("noise")
            s.mu, s.tau, s.sigma = 0, 1, 1
            s.draw(size=3)
        elif r == 5:
            d = synths.describe(self.rng)
            y, _ = synths.build(d)
            try:
                y.draw_survey(**synths.drawable(self.rng, d))
            except Exception:
                pass
        elif r == 6:
            np.random.set_state(np.random.RandomState(int(self.rng.integers(0, 99))).get_state())
        else:
            s = popsynth.aux_samplers.PowerLawAuxSampler("noise")
            s.xmin, s.xmax, s.alpha, s.sigma = 1.0, 10.0, -2.0, 0.0
            s.draw(size=2)
        self.out.append(dict(op="noise", p=e["p"]))

    def seed(self, e):
        np.random.seed(e["s"])
        self.out.append(dict(op="seed", p=e["p"], s=str(e["s"])))

    def bars(self, e):
        popsynth_config.show_progress = bool(e["on"])
        if self.rng.random() < 0.3:
            popsynth.loud_mode() if self.rng.random() < 0.5 else popsynth.quiet_mode()
        self.out.append(dict(op="bars", p=e["p"], on=e["on"]))


def run(jobs, seed, p):
    """every script's part for one process, in an order of its own"""
    rng = np.random.default_rng([seed, 20, p])
    np.random.seed(int(rng.integers(0, 2**31)))
    out = {}
    for i in rng.permutation(len(jobs)).tolist():
        pr = Process(rng)
        popsynth_config.show_progress = False
        popsynth.silence_logs()
        for e in jobs[i]:
            if e["p"] == p:
                getattr(pr, e["op"])(e)
        out[i] = pr.out
    popsynth_config.show_progress = False
    return out


def main():
    if sys.argv[1] == "child":
        _, _, path, seed, p = sys.argv
        with open(path, "rb") as f:
            jobs = pickle.load(f)
        out = run(jobs, int(seed), int(p))
        with open("%s.%s" % (path, p), "w") as f:
            json.dump([out[i] for i in range(len(jobs))], f)
        return
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rng = np.random.default_rng([seed, 20])
    jobs, procs = [], set()
    for line in open(scripts):
        kinds, opts, part = {}, {}, []
        base = [0, 2**32 - 10**8, int(rng.integers(0, 2**32 - 10**8))][int(rng.integers(0, 3))]
        stride = [1, 1, 2**16, 10**6][int(rng.integers(0, 4))]
        for e in json.loads(line):
            procs.add(e.get("p", 1))
            if e["op"] == "make":
                if e["k"] not in kinds:
                    kinds[e["k"]] = synths.describe(rng)
                d = copy.deepcopy(kinds[e["k"]])
                d["seed"] = base + stride * e["s"]
                e = dict(e, desc=d)
                opts.setdefault("of", {})[e["y"]] = e["k"]
            elif e["op"] == "draw":
                k = (opts["of"][e["y"]], e["o"])
                if k not in opts:
                    opts[k] = synths.drawable(rng, kinds[k[0]])
                e = dict(e, opts=opts[k])
            elif e["op"] == "seed":
                e = dict(e, s=base + stride * e["s"])
            part.append(e)
        # at last all synths draw once more
        for y, k in opts.get("of", {}).items():
            if (k, 1) not in opts:
                opts[(k, 1)] = synths.drawable(rng, kinds[k])
            p = [e["p"] for e in part if e["op"] == "make" and e["y"] == y][0]
            part.append(dict(op="draw", p=p, y=y, o=1, opts=opts[(k, 1)]))
        jobs.append(part)
    path = os.path.join(os.getcwd(), "jobs")
    with open(path, "wb") as f:
        pickle.dump(jobs, f)
    kids = []
    for p in sorted(procs):
        env = dict(os.environ, PYTHONHASHSEED=str(p))
        kids.append((p, subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), "child", path, str(seed), str(p)],
            env=env, stdout=subprocess.DEVNULL)))
    res = {}
    for p, k in kids:
        if k.wait() != 0:
            sys.exit("a process failed")
        with open("%s.%s" % (path, p)) as f:
            res[p] = json.load(f)
    tr = Trace(out)
    for i in range(len(jobs)):
        tr.begin("repro")
        left = {p: list(res[p][i]) for p in res}
        for e in jobs[i]:
            tr.emit(**left[e["p"]].pop(0))
    tr.close()
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
