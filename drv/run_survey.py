"""drv/run_survey.py OUT.ndjson PROFILE SEED SECONDS [SCRIPTS.ndjson]"""
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
popsynth.silence_progress_bars()
from executor import Exec
from scripts import Gen, profile
from vtrace import Trace

PROFILES = {
    "C01": profile(p_sel=0.8, p_flux=0.7, p_sp=0.5, n_aux=(1, 6),
                   w=dict(edge=8, set_bound=3, setsel=2, setrole=2)),
    "C02": profile(p_dist=0.9, p_flux=0.7, ns=[0, 1, 3, 12, 30, 80],
                   w=dict(edge=5, set_bound=3, setrole=3)),
    "C03": profile(n_aux=(2, 7), p_edge=0.7, p_der=0.5, p_sel=0.3, ns=[1, 3, 6],
                   w=dict(sec=3, grow=2, edge=0)),
    "C04": profile(steps=10, ns=[0, 2, 5, 9], p_norm=0.3, p_free=0.3,
                   w=dict(clean=3, reset=3, twin=3, repeat=3, synth=1.5, set_par=4, edge=1)),
    "C05": profile(steps=9, ns=[1, 3, 8],
                   w=dict(clean=3, reset=2, set_par=4, space=3, synth=1.5, sec=2, export=2,
                          setrole=2, edge=1)),
    "C06": profile(p_sigma=0.7, p_flux=0.6, p_der=0.5, ns=[0, 1, 5, 20, 80],
                   w=dict(edge=1, setrole=3)),
    "C07": profile(n_aux=(0, 7), p_edge=0.7, p_der=0.5, ns=[1, 3],
                   w=dict(sec=3, grow=2, set_par=4, clean=3, edge=0, twin=0.5)),
    "C08": profile(p_neg=0.4, ns=[1, 3], steps=12, n_aux=(1, 5),
                   w=dict(junk=10, steal=4, dup=4, edge=0, clean=2)),
    "C22": profile(spat=["VStep", "VFlat"], lum=["VLum"],
                   aux=["VAuxP", "VAuxP", "VAuxPD", "VAux", "VAuxL", "VNormal"],
                   p_sel=0.7, p_norm=0.5, ns=[1, 4, 12], n_aux=(0, 5), scales=True,
                   w=dict(edge=1, setsel=3)),
    "C20": profile(p_random=0.5, p_loud=0.5, ns=[0, 3, 9], w=dict(repeat=4, twin=4)),
    "C17": profile(n_aux=(0, 2), ns=[0, 1, 2, 7, 33, 150], p_free=0.3, p_norm=0.4),
    "C24": profile(n_aux=(0, 3), ns=[0, 1, 2, 7, 33, 150]),
}


def main():
    out, prof, seed, secs = sys.argv[1:5]
    seed, secs = int(seed), float(secs)
    most = int(sys.argv[5]) if len(sys.argv) > 5 else 10**9
    rng = np.random.default_rng([seed, sum(map(ord, prof))])
    tr = Trace(out)
    x = Exec(tr, rng, held=prof == "C05", views=prof in ("C02", "C13"))
    g = Gen(x, rng, PROFILES[prof])
    t0 = time.time()
    k = 0
    while time.time() - t0 < secs and k < most:
        # now and then a large survey
        big = k % 50 == 0
        g.p = dict(PROFILES[prof], ns=[150, 300, 700], steps=3) if big else PROFILES[prof]
        x.full_max = 800 if big else 60
        g.script("%s-%d-%d" % (prof, seed, k))
        k += 1
    tr.close()
    print("SCRIPTS", k, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
