"""Runs drivers on the real package and TLC on what they recorded."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Broken(Exception):
    """the machinery failed: neither pass nor violation"""


def thorough():
    return TIER == "thorough"


def scale(quick, deep):
    return deep if thorough() else quick


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.home = os.path.join(self.dir, "home")
        os.makedirs(self.home)
        self.pool = cf.ThreadPoolExecutor(max_workers=8)
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.drivers = []
        self.samples = []
        self.bad = []
        self.assumptions = []
        self.n = 0

    def fresh(self, suffix):
        self.n += 1
        return os.path.join(self.dir, "%d%s" % (self.n, suffix))

    def env(self, jit=False, extra=None):
        e = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPATH": ":".join(["/opt/vp/compat", REPO, os.path.join(VERIF, "drv")]),
            "MPLBACKEND": "Agg",
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "1",
            "NUMBA_CACHE_DIR": os.path.join(self.dir, "nbcache"),
            "HOME": self.home,
            "TMPDIR": self.dir,
            "VERIF_SEED": str(SEED),
            "LANG": "C.UTF-8",
            "PYTHONHASHSEED": "random",
        }
        if not jit:
            e["NUMBA_DISABLE_JIT"] = "1"
        e.update(extra or {})
        return e

    # ------------------------------------------------------------- models
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, mem="4g"):
        """returns (output, seconds)"""
        meta = self.fresh("-meta")
        cmd = [
            "java", "-Xmx" + mem, "-Xss128m", "-XX:+Use%sGC" % ("Serial" if workers == 1 else "Parallel"),
            "-Dtlc2.TLC.stopAfter=%d" % timeout,
            "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", "-config", cfg,
        ] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=os.path.join(VERIF, "spec"), env=e, timeout=timeout + 60,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            )
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        return out, time.time() - t0

    def model(self, module, cfg, workers=2, timeout=700, mem="6g", note=""):
        """exhaustively checks a model; cfg is the text of its configuration"""
        path = self.fresh(".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        out, secs = self.tlc(module, path, workers=workers, timeout=timeout, mem=mem)
        if "Model checking completed. No error has been found." not in out:
            raise Broken("model %s fails:\n%s" % (module, out[-3000:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.distinct += dist
        self.transitions = getattr(self, "transitions", 0) + gen
        self.models.append(
            dict(module=module, states=dist, transitions=gen, wall_s=round(secs, 1),
                 exhaustive=True, cfg=" ".join(cfg.split()), note=note)
        )

    def scripts(self, module, cfg, num, depth, seed, name="SCRIPT"):
        """behaviours generated by TLC's simulator"""
        path = self.fresh(".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        out, _ = self.tlc(
            module, path,
            extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
        )
        got = []
        for line in out.splitlines():
            if line.startswith('"%s ' % name):
                got.append(json.loads(line)[len(name) + 1:])
        if not got:
            raise Broken("no scripts from %s:\n%s" % (module, out[-2000:]))
        f = self.fresh(".scripts")
        with open(f, "w") as h:
            h.write("\n".join(got) + "\n")
        return f, len(got)

    # ------------------------------------------------------------- drivers
    def drive(self, driver, args, trace=None, jit=False, extra=None, timeout=600):
        """runs a driver, returns the path of the trace"""
        trace = trace or self.fresh(".nd")
        home = self.fresh("-home")
        os.makedirs(home)
        err = self.fresh(".err")
        cmd = [PY, os.path.join(VERIF, "drv", driver), trace] + [str(a) for a in args]
        env = self.env(jit=jit, extra=dict(extra or {}, HOME=home))
        with open(err, "wb") as ef:
            try:
                p = subprocess.run(
                    cmd, cwd=home, env=env, stdout=subprocess.PIPE, stderr=ef,
                    timeout=timeout,
                )
            except subprocess.TimeoutExpired:
                raise Broken("driver %s timed out" % " ".join(cmd))
        text = open(err, "rb").read()[-6000:].decode("utf-8", "replace")
        if p.returncode != 0:
            # what the package returned made the driver fail, or it failed itself;
            # no memory, no space and the like are not its doing
            last = (text.strip().splitlines() or [""])[-1]
            if re.match(r"[\w.]*(Error|Exception|Exit|Stop\w*|Warning|Interrupt)\b", last) and not re.match(
                r"(MemoryError|OSError|BlockingIOError|PermissionError|KeyboardInterrupt|SystemExit)", last
            ):
                self.bad.append(
                    dict(clause="*:the package fails: " + text.strip().splitlines()[-1][:200],
                         driver=driver, args=[str(a) for a in args], trace=None, line=0,
                         tail=text)
                )
                return None
            raise Broken("driver %s failed:\n%s" % (driver, text[-3000:]))
        m = re.search(rb"SCRIPTS (\d+) EVENTS (\d+)", p.stdout)
        if not m:
            raise Broken("driver %s reported nothing" % driver)
        k, n = int(m.group(1)), int(m.group(2))
        self.traces += k
        self.events += n
        self.drivers.append(dict(driver=driver, args=[str(a) for a in args], scripts=k, events=n))
        return trace

    def judge(self, module, trace, driver, args, env=None):
        """validates a trace with TLC"""
        if trace is None:
            return
        e = {"TRACE": trace}
        e.update(env or {})
        cfg = os.path.join(VERIF, "spec", "Trace.cfg")
        out, _ = self.tlc(module, cfg, env=e, mem="6g")
        m = re.findall(r'"END (\d+)"', out)
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise Broken("empty trace from " + driver)
        for line in out.splitlines():
            if line.startswith('"BAD '):
                s = json.loads(line)
                _, at, what = s.split(" ", 2)
                for c in json.loads(what):
                    self.bad.append(
                        dict(clause=c, driver=driver, args=[str(a) for a in args],
                             trace=trace, line=int(at))
                    )
        if not m or int(m[-1]) != n:
            # the specification cannot read the trace from some line on
            at = 1 + max([0] + [int(x) for x in re.findall(r"l = (\d+)", out)] )
            if "Error" in out and re.search(r"(evaluat|Attempted|not a|applied|Evaluating)", out):
                tail = [x for x in out.splitlines() if x.strip()][-12:]
                self.bad.append(
                    dict(clause="*:the specification does not accept the trace",
                         driver=driver, args=[str(a) for a in args], trace=trace,
                         line=last_state(out), tail="\n".join(tail))
                )
            else:
                raise Broken("TLC failed on %s:\n%s" % (trace, out[-3000:]))
        mm = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if mm:
            gen, dist = (int(x.replace(",", "")) for x in mm[-1])
            self.trace_states = getattr(self, "trace_states", 0) + dist
        if len(self.samples) < 3:
            self.samples.append(sample(trace, 3))

    def drive_and_judge(self, driver, args, module, jit=False, extra=None, timeout=600):
        t = self.drive(driver, args, jit=jit, extra=extra, timeout=timeout)
        self.judge(module, t, driver, args)
        return t

    def run(self, jobs):
        """runs callables concurrently"""
        futs = [self.pool.submit(j) for j in jobs]
        errs = []
        for f in futs:
            try:
                f.result()
            except Broken as e:
                errs.append(e)
        if errs and not self.mine():
            raise errs[0]

    # ------------------------------------------------------------- verdict
    def mine(self):
        out = []
        for b in self.bad:
            ids = b["clause"].split(":", 1)[0].split(",")
            if self.prop in ids or "*" in ids:
                out.append(b)
        return out

    def finish(self):
        mine = self.mine()
        known = known_findings(self.prop)
        fresh, seen = [], {}
        for b in mine:
            k = match_known(known, b)
            if k is not None:
                seen[k["what"]] = seen.get(k["what"], 0) + 1
            else:
                fresh.append(b)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.evidence(len(fresh))
        if fresh:
            rp = self.replay(fresh)
            for c in sorted({b["clause"] for b in fresh})[:10]:
                print("  " + c)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print(
            "OK property=%s traces=%d events=%d model states=%d wall=%.0fs"
            % (self.prop, self.traces, self.events, self.states, time.time() - self.t0)
        )
        return 0

    def replay(self, fresh):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        b = fresh[0]
        rec = dict(
            property=self.prop, seed=SEED, tier=TIER, clause=b["clause"],
            clauses=sorted({x["clause"] for x in fresh}),
            driver=[PY, "drv/" + b["driver"], "OUT.nd"] + b["args"], line=b["line"],
            tail=b.get("tail"),
        )
        if b["trace"]:
            rec["events"] = segment(b["trace"], b["line"])
        h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:8]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        return p

    def evidence(self, nviol):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(
            property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick",
            seed=SEED, level="model_checking",
            coverage=dict(
                states=self.distinct + getattr(self, "trace_states", 0),
                transitions=getattr(self, "transitions", 0) + self.events,
                traces_validated_against_impl=self.traces,
                samples=self.samples or ["none"],
                models=self.models,
                events_validated=self.events,
                drivers=self.drivers,
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 1),
            violations=nviol,
        )
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        self.pool.shutdown(wait=True)
        if self.dir.startswith(tempfile.gettempdir() + "/verif-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def last_state(out):
    at = re.findall(r"l = (\d+)", out)
    return int(at[-1]) if at else 0


def sample(trace, n):
    out = []
    with open(trace) as f:
        for i, line in enumerate(f):
            if i >= n:
                break
            out.append(line.strip()[:300])
    return out


def segment(trace, line):
    """the events of the script that line belongs to, up to it"""
    with open(trace) as f:
        lines = f.read().splitlines()
    line = min(max(line, 1), len(lines))
    i = line - 1
    while i > 0 and '"op": "reset"' not in lines[i][:40]:
        i -= 1
    return [json.loads(x) for x in lines[i:line]]


def known_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    data = json.load(open(FINDINGS))
    return [k for k in data.get("known", []) if k["property"] == prop]


def match_known(known, b):
    for k in known:
        if k["clause"] != b["clause"]:
            continue
        if "match" in k:
            ev = segment(b["trace"], b["line"])[-1] if b["trace"] else {}
            if any(ev.get(x) != y for x, y in k["match"].items()):
                continue
        return k
    return None
