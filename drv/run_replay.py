"""drv/run_replay.py OUT.ndjson SCRIPTS.ndjson SEED HELD

Replays histories generated by TLC from spec/SurveyAlg.tla on the real
package.  The objects are those of SurveyAlg!Base.
"""
import json
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth

popsynth.silence_logs()
popsynth.silence_progress_bars()
from executor import Exec
from vtrace import Trace


def base(x):
    x.new_dist("s1", "VFlat", "s1", {"r_max": 4})
    x.new_dist("l1", "VLum", "l1", {})
    for s, cls, obs in (
        ("a", "VAux", True),
        ("b", "VAuxD", False),
        ("c", "VAux", True),
        ("d", "VDer", False),
    ):
        x.new_sampler(s, cls, s, obs, {"p": 1})
    x.new_sel("k1", "lower", "obs", 1.5, 0)
    x.new_sel("kf", "hard", "flux", 0.3, 0)
    x.new_synth("y1", "s1", "l1", 1)
    x.new_synth("y2", "s1", "none", 1)


def run(x, hist):
    for op in hist:
        k = op["op"]
        if k == "sec":
            x.sec(op["parent"], op["child"])
        elif k == "add":
            x.add(op["syn"], op["what"])
        elif k == "setsel":
            x.setsel(op["s"], op["sel"])
        elif k == "setrole":
            x.setrole(op["syn"], op["role"], op["sel"])
        elif k == "set_par":
            x.set_par(op["id"], op["p"], op["v"])
        elif k == "clean":
            x.clean(op["syn"], op["reset"])
        elif k == "reset_sampler":
            x.reset_sampler(op["s"])
        elif k == "draw":
            x.draw(op["syn"], 4 * op["n"])
        else:
            raise KeyError(k)


def main():
    out, scripts, seed, held = sys.argv[1:5]
    rng = np.random.default_rng(int(seed))
    tr = Trace(out)
    x = Exec(tr, rng, held=held == "1")
    k = 0
    with open(scripts) as f:
        for line in f:
            x.new_script("replay-%d" % k)
            base(x)
            hist = json.loads(line)
            run(x, hist)
            # wherever the history ended, both synths are drawn
            for y in ("y1", "y2", "y1"):
                x.draw(y, 5)
            k += 1
    tr.close()
    print("SCRIPTS", k, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
