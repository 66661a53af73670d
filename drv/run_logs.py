"""drv/run_logs.py OUT.ndjson SCRIPTS.ndjson SEED

Replays histories of log and progress switches (generated by TLC from
spec/LogsAlg.tla), each in a process of its own, and records which messages
come through.
"""
import contextlib
import io
import json
import logging
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth
from popsynth.utils import logging as plog
from popsynth.utils.configuration import popsynth_config
from popsynth.utils.progress_bar import progress_bar
from vtrace import Trace

LOGGERS = [
    "popsynth.population_synth", "popsynth.distribution", "popsynth.auxiliary_sampler",
    "popsynth.population", "popsynth.simulated_variable",
    "popsynth.selection_probability.selection_probability", "popsynth.utils.meta",
]
CALLS = {
    "silence": popsynth.silence_logs,
    "quiet": popsynth.quiet_mode,
    "loud": popsynth.loud_mode,
    "debug": popsynth.debug_mode,
    "activate": popsynth.activate_logs,
    "warnoff": popsynth.silence_warnings,
    "warnon": popsynth.activate_warnings,
    "progon": popsynth.show_progress_bars,
    "progoff": popsynth.silence_progress_bars,
}


def handlers():
    con, usr = [], []
    for h in logging.getLogger(LOGGERS[0]).handlers:
        if getattr(h, "baseFilename", "").endswith("usr.log"):
            usr.append(h)
        elif isinstance(h, logging.StreamHandler) and not hasattr(h, "baseFilename"):
            con.append(h)
    return con, usr


class Probe(object):
    """counts what handlers let through"""

    def __init__(self):
        self.con, self.usr = handlers()
        self.got = {}
        for k, hs in (("con", self.con), ("usr", self.usr)):
            for h in hs:
                h.emit = self.sink(k)

    def sink(self, k):
        return lambda rec: self.got.setdefault(k, []).append(int(rec.levelno))

    def messages(self, name):
        self.got = {}
        lg = logging.getLogger(name)
        for m in (10, 20, 30, 40):
            lg.log(m, "probe")
        return {k: self.got.get(k, []) for k in ("con", "usr")}


def bars():
    buf = io.StringIO()
    with contextlib.redirect_stderr(buf):
        out = list(progress_bar(range(3)))
    if out != [0, 1, 2]:
        return "wrong"
    return len(buf.getvalue()) > 0


def draw(probe):
    s = popsynth.populations.ParetoHomogeneousSphericalPopulation(1, 1, 2, r_max=3, seed=1)
    b = popsynth.BernoulliSelection()
    b.probability = 0.5
    s.set_distance_selection(b)
    buf = io.StringIO()
    probe.got = {}
    try:
        with contextlib.redirect_stderr(buf):
            s.draw_survey(n_samples=3)
        ok = True
    except Exception:  # noqa
        ok = False
    return ok, len(buf.getvalue()) > 0, bool(probe.got.get("con"))


def run(tr, hist, rng):
    probe = Probe()
    tr.buf.append(
        dict(op="reset", script="logs", con=30, usr=30, prog=bool(popsynth_config.show_progress))
    )
    stack = []
    for e in hist:
        e = dict(e)
        ok, err = True, ""
        try:
            if e["op"] in CALLS:
                CALLS[e["op"]]()
            elif e["op"] == "level":
                popsynth.update_logging_level(e["v"] if rng.random() < 0.5 else logging.getLevelName(e["v"]))
            elif e["op"] == "enter":
                c = plog.silence_console_log()
                c.__enter__()
                stack.append(c)
            elif e["op"] == "leave":
                c = stack.pop()
                e["raised"] = False
                if e["failing"]:
                    try:
                        x = KeyError("body")
                        e["raised"] = not c.__exit__(KeyError, x, None)
                    except KeyError:
                        e["raised"] = True
                else:
                    c.__exit__(None, None, None)
        except Exception as ex:  # noqa
            ok, err = False, type(ex).__name__
        m = probe.messages(LOGGERS[int(rng.integers(0, len(LOGGERS)))])
        tr.emit(ok=ok, err=err, con=m["con"], usr=m["usr"], bars=bars(), **e)
        if rng.random() < 0.12 and not stack:
            drew, db, said = draw(probe)
            m = probe.messages(LOGGERS[int(rng.integers(0, len(LOGGERS)))])
            tr.emit(op="draw", ok=True, err="", con=m["con"], usr=m["usr"], bars=bars(),
                    drew=drew, drawbars=db, said=said)


def main():
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    hists = [json.loads(l) for l in open(scripts)]
    total = 0
    with open(out, "wb") as f:
        for k, h in enumerate(hists):
            part = out + ".part"
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    tr = Trace(part)
                    run(tr, h, np.random.default_rng([seed, k]))
                    tr.close()
                    code = 0
                except BaseException:  # noqa
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                sys.exit("a script failed")
            data = open(part, "rb").read()
            total += data.count(b"\n")
            f.write(data)
        os.remove(part)
    print("SCRIPTS", len(hists), "EVENTS", total)


if __name__ == "__main__":
    main()
