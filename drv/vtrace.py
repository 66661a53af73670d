"""Traces of real executions: JSON lines for TLC.

Floats are wrapped in F() when an event is emitted.  When a script ends every
float of the script is replaced by its rank among the distinct floats of that
script (NaN -> -1): an order isomorphism, so that the specification can compare
values exactly with TLC's 32-bit integers.  Dig() is a token for the exact bits
of an array, used where only equality matters.
"""
import hashlib
import json
import math

import numpy as np


class F(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = float(v)


def FA(arr):
    a = np.asarray(arr, dtype=float)
    # what is not a sequence of numbers is not taken for one
    return [F(x) for x in a] if a.ndim == 1 else [F(float("nan"))] * (a.size + 1)


def BA(arr):
    a = np.asarray(arr)
    return [bool(x) for x in a] if a.ndim == 1 else [False] * (a.size + 1)


def IA(arr):
    out = []
    a = np.asarray(arr)
    if a.ndim != 1:
        return [-99998] * (a.size + 1)
    for x in a:
        fx = float(x)
        out.append(int(fx) if fx == int(fx) and abs(fx) < 2**30 else -99999)
    return out


def Dig(arr):
    """token for the exact contents of an array"""
    if arr is None:
        return "none"
    a = np.asarray(arr)
    if a.dtype == object:
        return "obj:" + hashlib.sha1(repr(a.tolist()).encode()).hexdigest()[:14]
    a = np.asarray(a, dtype=float)
    a = np.where(a == 0, 0.0, a)  # one zero
    shape = a.shape
    return hashlib.sha1(
        (str(shape) + ":").encode() + np.ascontiguousarray(a).tobytes()
    ).hexdigest()[:16]


class Trace(object):
    def __init__(self, path):
        self.path = path
        self.f = open(path, "w")
        self.buf = []
        self.n_events = 0
        self.n_scripts = 0

    def emit(self, **ev):
        self.buf.append(ev)

    def begin(self, name):
        self.flush()
        self.n_scripts += 1
        self.buf.append({"op": "reset", "script": name})

    def flush(self):
        if not self.buf:
            return
        vals = set()

        def collect(o):
            if isinstance(o, F):
                if not math.isnan(o.v):
                    vals.add(o.v + 0.0)
            elif isinstance(o, dict):
                for x in o.values():
                    collect(x)
            elif isinstance(o, (list, tuple)):
                for x in o:
                    collect(x)

        for e in self.buf:
            collect(e)
        rank = {v: i for i, v in enumerate(sorted(vals))}

        def conv(o):
            if isinstance(o, F):
                return -1 if math.isnan(o.v) else rank[o.v + 0.0]
            if isinstance(o, dict):
                return {str(k): conv(x) for k, x in o.items()}
            if isinstance(o, (list, tuple)):
                return [conv(x) for x in o]
            if isinstance(o, (np.bool_, bool)):
                return bool(o)
            if isinstance(o, np.integer):
                return int(o)
            if o is None:
                return "none"
            return o

        for e in self.buf:
            self.f.write(json.dumps(conv(e)) + "\n")
            self.n_events += 1
        self.buf = []

    def close(self):
        self.flush()
        self.f.close()
