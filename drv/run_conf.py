"""drv/run_conf.py OUT.ndjson SCRIPTS.ndjson SEED

Replays histories of a user editing the configuration file and importing the
package (generated by TLC from spec/ConfFileAlg.tla), each import in a process
of its own with a scratch home, and records what is in force there.
"""
import io
import json
import os
import shutil
import sys
import tempfile
import traceback
import warnings

warnings.filterwarnings("ignore")
import numpy as np
import yaml
from vtrace import Trace

CANDIDATES = dict(Om=["0.307", "0.2", "0.45"], h0=["67.7", "50.0", "80.0"])
PATHS = dict(
    debug=("logging", "debug"), con=("logging", "console", "on"),
    conlevel=("logging", "console", "level"), file=("logging", "file", "on"),
    filelevel=("logging", "file", "level"), Om=("cosmology", "Om"), h0=("cosmology", "h0"),
    progress=("show_progress",), unknown=("colour",), logunknown=("logging", "colour"),
)
BAD = dict(
    debug=["maybe", [1]], con=["perhaps", {"a": 1}], conlevel=["LOUDER", ["INFO"]],
    file=["never", [True]], filelevel=["TRACE", {"a": "INFO"}], Om=["much", [0.3]],
    h0=["fast", {"h": 1}], progress=["sometimes", [0]], unknown=[True, 3], logunknown=["red", False],
)


def spelling(key, tok, rng):
    """a YAML value meaning the token"""
    if tok == "bad":
        b = BAD[key]
        return b[int(rng.integers(0, len(b)))]
    if tok in ("true", "false"):
        return tok == "true"
    if key in CANDIDATES:
        return float(tok)
    return tok


def write(path, given, rng):
    d = {}
    items = list(given.items())
    rng.shuffle(items)
    for k, tok in items:
        at = d
        for part in PATHS[k][:-1]:
            at = at.setdefault(part, {})
        at[PATHS[k][-1]] = spelling(k, tok, rng)
    if rng.random() < 0.2:
        # a part that gives nothing
        d.setdefault(["logging", "cosmology"][int(rng.integers(0, 2))], {})
    place(path, rng)
    text = yaml.safe_dump(d, default_flow_style=bool(rng.random() < 0.3)) if d else ""
    if "bad" in given.values() and rng.random() < 0.25:
        # not even a mapping
        text = ["cosmology: [1,\n", "- 1\n- 2\n", "a: b: c\n"][int(rng.integers(0, 3))]
    if rng.random() < 0.5:
        text = "# settings of mine\n\n" + text
    if rng.random() < 0.2:
        text = "# r\u00e9glages \u2603\n" + text
    if rng.random() < 0.2:
        text = "---\n" + text
    if rng.random() < 0.2:
        text = text.replace("\n", "\r\n")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def place(path, rng):
    """where the file really is: it, or its directory, may be a link"""
    d = os.path.dirname(path)
    away = os.path.join(os.path.dirname(os.path.dirname(d)), "my files")
    if not os.path.exists(d) and rng.random() < 0.15:
        os.makedirs(os.path.join(away, "settings"), exist_ok=True)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        os.symlink(os.path.join(away, "settings"), d)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(path) and rng.random() < 0.3:
        os.makedirs(away, exist_ok=True)
        target = os.path.join(away, "popsynth.yml")
        open(target, "w").close()
        os.symlink(target if rng.random() < 0.5 else os.path.relpath(target, os.path.realpath(d)), path)
    if rng.random() < 0.2:
        open(os.path.join(d, "other.yml"), "w").write("cosmology:\n  h0: 99.0\n")


def get(conf, path):
    for p in path:
        conf = conf[p]
    return conf


def token(key, v):
    if isinstance(v, (bool, np.bool_)):
        return "true" if v else "false"
    if key in CANDIDATES:
        for c in CANDIDATES[key]:
            if isinstance(v, (int, float)) and abs(float(v) - float(c)) < 1e-6:
                return c
    return str(v)


def flat(conf):
    out = {}
    for k, p in PATHS.items():
        try:
            out[k] = token(k, get(conf, p))
        except Exception:  # noqa
            pass
    return out


def reference(Om, h0, z):
    """luminosity distance in cm by numerical integration"""
    zz = np.linspace(0, z, 4001)
    e = 1.0 / np.sqrt(Om * (1 + zz) ** 3 + 1 - Om)
    return 299792.458 / h0 * (1 + z) * np.sum((e[1:] + e[:-1]) / 2 * np.diff(zz)) * 3.086e24


def in_force(cosmology):
    """the candidate parameters that explain the distances"""
    got = [float(cosmology.luminosity_distance(z)) for z in (0.5, 4.0)]
    best = ("none", "none")
    for Om in CANDIDATES["Om"]:
        for h0 in CANDIDATES["h0"]:
            ref = [reference(float(Om), float(h0), z) for z in (0.5, 4.0)]
            if all(abs(g / r - 1) < 5e-3 for g, r in zip(got, ref)):
                best = (Om, h0)
    return best


def observe(home, rng):
    """in a process of its own: import and say what is in force"""
    os.environ["HOME"] = home
    out = open(os.path.join(home, "stdout"), "w+")
    sys.stdout = out
    import logging

    import popsynth

    rec = dict(ok=True, conf={k: v for k, v in flat(popsynth.popsynth_config).items()
                              if k not in ("unknown", "logunknown")})
    rec["Om"], rec["h0"] = in_force(popsynth.cosmology)
    names = sorted(
        n for n, l in logging.root.manager.loggerDict.items()
        if n.startswith("popsynth.") and isinstance(l, logging.Logger) and not l.propagate
    )
    for i in rng.choice(len(names), size=2, replace=False):
        for m in (10, 20, 30, 40, 50):
            logging.getLogger(names[int(i)]).log(m, "probe-%d-%d." % (m, i))
    said = {}
    for name, p in (("console", "stdout"), ("usr", ".log/popsynth/usr.log"),
                    ("dev", ".log/popsynth/dev.log")):
        out.flush()
        p = os.path.join(home, p)
        text = open(p).read() if os.path.exists(p) else ""
        # every logger lets the same levels through
        counts = {m: text.count("probe-%d-" % m) for m in (10, 20, 30, 40, 50)}
        said[name] = [m for m in counts if counts[m] > 0]
        if any(c not in (0, 2) for c in counts.values()):
            said[name].append(99)
        if os.path.exists(p) and p.endswith(".log"):
            open(p, "w").close()
    rec.update(said)
    err = io.StringIO()
    sys.stderr, keep = err, sys.stderr
    try:
        s = popsynth.populations.ParetoHomogeneousSphericalPopulation(1, 1, 2, r_max=3, seed=1)
        b = popsynth.BernoulliSelection()
        b.probability = 0.5
        s.set_distance_selection(b)
        s.draw_survey(n_samples=3)
    finally:
        sys.stderr = keep
    rec["bars"] = "true" if "%|" in err.getvalue() or "it/s" in err.getvalue() else "false"
    return rec


def in_child(home, seed):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with open(os.path.join(home, "stderr"), "w") as ef:
                os.dup2(ef.fileno(), 2)
            try:
                rec = observe(home, np.random.default_rng(seed))
            except BaseException as ex:  # noqa
                rec = dict(ok=False, err=type(ex).__name__ + " " + str(ex)[:80])
            os.write(w, json.dumps(rec).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data)


def preload(home):
    """imports what the package needs, so that imports in children are fast"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.environ["HOME"] = home
            sys.stdout = open(os.devnull, "w")
            import popsynth  # noqa

            names = [n for n in sys.modules if not n.startswith("popsynth")]
            os.write(w, "\n".join(names).encode())
        except BaseException:  # noqa
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.waitpid(pid, 0)
    if not data:
        # the package cannot be imported with its defaults: judged below
        return
    import importlib

    for n in data.decode().split("\n"):
        try:
            importlib.import_module(n)
        except BaseException:  # noqa
            pass


def main():
    out, scripts, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    base = tempfile.mkdtemp(prefix="homes-", dir=os.environ.get("TMPDIR"))
    first = os.path.join(base, "first")
    os.makedirs(first)
    preload(first)
    tr = Trace(out)
    n = 0
    for k, line in enumerate(open(scripts)):
        hist = json.loads(line)
        rng = np.random.default_rng([seed, k])
        home = os.path.join(base, ["h%d", "h %d", "h\u00e9.%d"][int(rng.integers(0, 3))] % k)
        os.makedirs(home)
        path = os.path.join(home, ".config", "popsynth", "popsynth_config.yml")
        if rng.random() < 0.3:
            os.makedirs(os.path.join(home, ".config"))
        tr.begin("conf")
        for e in hist:
            if e["op"] == "write":
                given = dict(e["given"])
                write(path, given, rng)
                tr.emit(op="write", given=given)
            elif e["op"] == "delete":
                os.remove(path)
                tr.emit(op="delete")
            elif e["op"] == "import":
                before = open(path, "rb").read() if os.path.exists(path) else None
                linked = os.path.islink(path)
                rec = in_child(home, [seed, k, n])
                n += 1
                exists = os.path.exists(path)
                after = open(path, "rb").read() if exists else None
                written = {}
                if exists and before is None:
                    try:
                        written = flat(yaml.safe_load(after) or {})
                    except Exception:  # noqa
                        written = {}
                tr.emit(op="import", exists=exists, unchanged=before == after and linked == os.path.islink(path),
                        written=written, **rec)
        tr.flush()
        shutil.rmtree(home)
    tr.close()
    shutil.rmtree(base)
    print("SCRIPTS", tr.n_scripts, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
