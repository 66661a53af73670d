"""drv/run_simvar.py OUT.ndjson SEED SCRIPTS: histories of simulated variables"""
import operator
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import popsynth
from popsynth.simulated_variable import SimulatedVariable
from vtrace import Dig, Trace

BIN = [
    "add", "subtract", "multiply", "maximum", "minimum", "less", "less_equal",
    "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
]
OPER = dict(
    add=operator.add, subtract=operator.sub, multiply=operator.mul, less=operator.lt,
    less_equal=operator.le, greater=operator.gt, greater_equal=operator.ge,
    equal=operator.eq, not_equal=operator.ne, floor_divide=operator.floordiv,
    remainder=operator.mod,
)
IOPER = dict(
    add=operator.iadd, subtract=operator.isub, multiply=operator.imul,
    floor_divide=operator.ifloordiv, remainder=operator.imod,
)
UN = ["negative", "absolute", "square", "sign", "logical_not"]


def ints(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return [int(x) for x in a]
    out = []
    for x in np.asarray(a, dtype=float).ravel():
        out.append(int(x) if x == x and abs(x) < 1e8 and x == int(x) else 99999999)
    return out


def bools(a):
    return [bool(x) for x in np.asarray(a)]


def snap(x):
    if isinstance(x, SimulatedVariable):
        return dict(
            k="sv", o=ints(x.view(np.ndarray)), l=ints(x.latent),
            s=[] if x._selection is None else bools(sel_of(x)),
        )
    if isinstance(x, np.ndarray):
        return dict(k="arr", o=ints(x), l=ints(x), s=[])
    return dict(k=type(x).__name__, o=[], l=[], s=[])


def sel_of(x):
    """the selection, by what the views hold"""
    s = getattr(x, "_selection", None)
    return np.asarray(s)


class Runner(object):
    def __init__(self, tr, rng):
        self.tr, self.rng = tr, rng

    def pick(self, s):
        return s[int(self.rng.integers(0, len(s)))]

    def flip(self, p):
        return bool(self.rng.random() < p)

    def emit(self, op, fn, **kw):
        """fn returns the new variables"""
        try:
            with np.errstate(all="ignore"):
                new = fn()
            ok, err = True, ""
            self.v.update(new)
        except Exception as e:  # noqa
            ok, err = False, type(e).__name__
        self.tr.emit(op=op, ok=ok, err=err, all={k: snap(x) for k, x in self.v.items()}, **kw)
        return ok

    def id(self):
        self.n += 1
        return "v%d" % self.n

    def operand(self, n, small=False, positive=False):
        c = [
            k for k, x in self.v.items()
            if len(x) == n and (not small or big(x) < 40)
            and (not positive or (n == 0 or (lowest(x) > 0)))
        ]
        if c and self.flip(0.75):
            return dict(t="id", id=self.pick(c))
        return dict(t="c", c=int(self.rng.integers(1 if positive else -3, 5)))

    def val(self, p):
        return self.v[p["id"]] if p["t"] == "id" else p["c"]

    def new(self, n):
        r = self.id()
        o = self.rng.integers(-4, 6, n).astype(float)
        l = o.copy() if self.flip(0.3) else self.rng.integers(-4, 6, n).astype(float)
        s = self.sels[n]
        if self.flip(0.2):
            self.emit("new", lambda: {r: o.copy()}, r=r, k="arr", o=ints(o), l=[], s=[])
            return
        if self.flip(0.3):
            # observed and latent values in the same memory
            x = o.copy()
            self.emit(
                "new", lambda: {r: SimulatedVariable(x, x, s)}, r=r, k="sv", o=ints(o),
                l=ints(o), s=bools(s),
            )
            return
        self.emit(
            "new", lambda: {r: SimulatedVariable(o.copy(), l.copy(), s)}, r=r, k="sv",
            o=ints(o), l=ints(l), s=bools(s),
        )

    def step(self):
        ids = list(self.v)
        if not ids or self.flip(0.08) or len(ids) > 9:
            if len(ids) > 9:
                return False
            self.new(self.pick(list(self.sels)))
            return True
        a = self.pick(ids)
        x = self.v[a]
        n = len(x)
        sv = isinstance(x, SimulatedVariable)
        pa = dict(t="id", id=a)
        k = self.pick(
            ["bin"] * 5 + ["un", "inp", "inp", "inp", "inp", "out", "divmod", "acc", "red", "item",
                           "idx", "idx", "idx", "mask", "part", "part", "part", "copy",
                           "opaque", "opaque"]
        )
        if k == "bin":
            f = self.pick(BIN)
            small = f == "multiply"
            if small and big(x) >= 40:
                return True
            b = self.operand(n, small)
            p, q = (pa, b) if self.flip(0.5) else (b, pa)
            if not self.compatible(p, q):
                return True
            r = self.id()
            u = OPER[f] if f in OPER and self.flip(0.6) else getattr(np, f)
            self.emit("bin", lambda: {r: u(self.val(p), self.val(q))}, f=f, a=p, b=q, r=r)
        elif k == "divmod":
            b = self.operand(n, positive=True)
            if not self.compatible(pa, b):
                return True
            if self.flip(0.4):
                f = self.pick(["floor_divide", "remainder"])
                r = self.id()
                u = OPER[f] if self.flip(0.5) else getattr(np, f)
                self.emit("bin", lambda: {r: u(x, self.val(b))}, f=f, a=pa, b=b, r=r)
                return True
            r, r2 = self.id(), self.id()
            self.emit(
                "divmod", lambda: dict(zip((r, r2), np.divmod(x, self.val(b)))), a=pa, b=b, r=r, r2=r2,
            )
        elif k == "un":
            f = self.pick(UN)
            if f != "logical_not" and np.asarray(x).dtype == bool:
                return True
            if f == "square" and big(x) >= 40:
                return True
            r = self.id()
            u = getattr(np, f)
            if f in ("negative", "absolute") and self.flip(0.5):
                u = operator.neg if f == "negative" else operator.abs
            self.emit("un", lambda: {r: u(x)}, f=f, a=pa, r=r)
        elif k in ("inp", "out"):
            if a in self.frozen or np.asarray(x).dtype == bool:
                return True
            f = self.pick(["add", "subtract", "multiply", "maximum", "minimum", "floor_divide",
                           "remainder"])
            pos = f in ("floor_divide", "remainder")
            small = f == "multiply"
            if small and big(x) >= 40:
                return True
            b = self.operand(n, small, pos)
            mask = [True] * n
            if k == "inp":
                p, q = pa, b
                if not self.compatible(p, q):
                    return True
                if f in IOPER and self.flip(0.6):
                    def go():
                        y = IOPER[f](self.v[a], self.val(q))
                        return {a: y}
                elif self.flip(0.4):
                    mask = bools(self.rng.random(n) < 0.6)

                    def go():
                        getattr(np, f)(self.v[a], self.val(q), out=self.v[a], where=np.array(mask, dtype=bool))
                        return {}
                else:
                    def go():
                        y = getattr(np, f)(self.v[a], self.val(q), out=self.v[a])
                        if y is not self.v[a]:
                            raise TypeError("not the target")
                        return {}
            else:
                p = self.operand(n, small)
                q = b
                if p["t"] == "c" and q["t"] == "c":
                    return True
                if not (self.compatible(p, q) and self.compatible(pa, p) and self.compatible(pa, q)):
                    return True
                # a target without latent values has none to receive
                def go():
                    getattr(np, f)(self.val(p), self.val(q), out=self.v[a])
                    return {}
            self.emit("inp", go, f=f, a=p, b=q, r=a, mask=mask)
        elif k == "acc":
            if n == 0 or big(x) > 1000 or np.asarray(x).dtype == bool:
                return True
            r = self.id()
            f = self.pick(["add", "maximum"])
            self.emit("acc", lambda: {r: getattr(np, f).accumulate(x)}, f=f, a=a, r=r)
        elif k == "red":
            if n == 0:
                return True
            f = self.pick(["add", "maximum", "minimum"])
            how = self.pick([
                lambda: getattr(np, f).reduce(x),
                lambda: {"add": np.sum, "maximum": np.max, "minimum": np.min}[f](x),
                lambda: {"add": x.sum, "maximum": x.max, "minimum": x.min}[f](),
            ])
            res = []
            ok = self.emit_red(f, a, how)
        elif k == "item":
            if n == 0:
                return True
            i = int(self.rng.integers(0, n))
            j = i if self.flip(0.5) else i - n
            got = []
            try:
                got = ints([x[j]])[0]
                ok, err = True, ""
            except Exception as e:  # noqa
                ok, err, got = False, type(e).__name__, 0
            self.tr.emit(op="item", ok=ok, err=err, a=a, i=i, val=got,
                         all={k2: snap(y) for k2, y in self.v.items()})
        elif k in ("idx", "mask"):
            if k == "mask":
                # a comparison used as a mask
                c = int(self.rng.integers(-3, 5))
                item = None
                m = np.asarray(x.view(np.ndarray) > c)
                ix = np.arange(n)[m]
                go = lambda: {r: self.v[a][self.v[a] > c]}  # noqa
            else:
                t = self.pick(["slice", "mask", "list", "array", "empty"])
                if t == "slice":
                    lo, hi = (int(z) for z in self.rng.integers(-n - 1, n + 2, 2))
                    item = slice(
                        lo if self.flip(0.7) else None, hi if self.flip(0.7) else None,
                        self.pick([None, 1, 2, -1, -2]),
                    )
                elif t == "mask":
                    item = self.rng.random(n) < 0.5
                    if self.flip(0.3):
                        item = [bool(z) for z in item]
                        if not item:
                            return True
                elif t in ("list", "array"):
                    if n == 0:
                        return True
                    item = [int(z) for z in self.rng.integers(-n, n, int(self.rng.integers(1, 5)))]
                    if t == "array":
                        item = np.array(item)
                else:
                    item = slice(0, 0)
                ix = np.arange(n)[item]
                go = lambda: {r: self.v[a][item]}  # noqa
                if t in ("slice", "empty"):
                    # these can share memory
                    self.frozen.add(a)
                    self.frozen.add("v%d" % (self.n + 1))
            r = self.id()
            self.emit("idx", go, a=a, ix=[int(z) for z in ix], r=r)
        elif k == "part":
            if not sv:
                return True
            b = self.flip(0.5)
            r = self.id()
            self.emit(
                "part", lambda: {r: self.v[a].selected if b else self.v[a].non_selected},
                a=a, sel=b, r=r,
            )
        elif k == "copy":
            r = self.id()
            if sv and np.shares_memory(x.view(np.ndarray), np.asarray(x.latent)):
                # a copy keeps the latent values of the original
                self.frozen.update((a, r))
            self.emit("copy", lambda: {r: self.v[a].copy()}, a=a, r=r)
        elif k == "opaque":
            if not sv or np.asarray(x).dtype == bool:
                return True
            f = self.pick(["exp", "log10", "sqrt", "arctan", "true_divide", "power", "hypot",
                           "reciprocal", "isfinite", "cbrt", "modf", "fmax", "copysign",
                           "clip", "clip", "narrow", "masked", "outer", "at"])
            o, l = np.array(x.view(np.ndarray)), np.array(x.latent)
            if f in ("clip", "narrow", "masked", "outer", "at"):
                self.special(f, a, x, o, l)
                return True
            u = getattr(np, f)
            two = f in ("true_divide", "power", "hypot", "fmax", "copysign")
            y = self.pick([0.5, 2, 3.0]) if two else None
            call = (lambda z: u(z, y)) if two else u
            flipd = two and self.flip(0.4)
            if flipd:
                call = lambda z: u(y, z)  # noqa
            if f == "modf":
                j = self.pick([0, 1])
                call = lambda z: u(z)[j]  # noqa
            got = dict(o="none", l="none", s=[])
            with np.errstate(all="ignore"):
                want = dict(o=Dig(call(o)), l=Dig(call(l)))
                try:
                    g = call(x)
                    got = dict(
                        o=Dig(np.asarray(g.view(np.ndarray))), l=Dig(g.latent), s=bools(sel_of(g))
                    )
                    ok, err = True, ""
                except Exception as e:  # noqa
                    ok, err = False, type(e).__name__
            self.tr.emit(op="opaque", ok=ok, err=err, f=f, a=a, got=got, want=want,
                         all={k2: snap(z) for k2, z in self.v.items()})
        return True

    def special(self, f, a, x, o, l):
        """further ways to call a universal function; the operands keep their selection"""
        n = len(o)
        c = float(self.rng.integers(-3, 4))
        if f == "clip":
            lo, hi = self.operand(n), self.operand(n)
            if not (self.compatible(dict(t="id", id=a), lo) and self.compatible(dict(t="id", id=a), hi)):
                return
            lo, hi = self.val(lo), self.val(hi)

            def of(which, z):
                if not isinstance(z, SimulatedVariable):
                    return np.array(z)
                return np.array(z.view(np.ndarray)) if which == "o" else np.array(z.latent)

            want = {w: np.minimum(np.maximum(of(w, x), of(w, lo)), of(w, hi)) for w in "ol"}
            call = lambda: self.pick([np.clip, lambda q, p, r: np.core.umath.clip(q, p, r)])(x, lo, hi)  # noqa
        elif f == "narrow":
            want = dict(o=np.add(o, c + 0.1, dtype=np.float32), l=np.add(l, c + 0.1, dtype=np.float32))
            call = lambda: np.add(x, c + 0.1, dtype=np.float32)  # noqa
        elif f == "masked":
            m = self.rng.random(n) < 0.5
            into = np.full(n, 7.0)
            want = dict(o=np.where(m, o * c, 7.0), l=np.where(m, o * c, 7.0))
            call = lambda: np.multiply(x, c, out=into, where=m)  # noqa
        elif f == "outer":
            w = np.array([2.0, -1.0, c])[: int(self.rng.integers(1, 4))]
            want = dict(o=np.multiply.outer(o, w), l=np.multiply.outer(l, w))
            call = lambda: np.multiply.outer(x, w)  # noqa
        else:
            if n == 0:
                return
            ix = self.rng.integers(0, n, 3)
            want = dict(o=o.copy(), l=l.copy())
            np.add.at(want["o"], ix, c)
            np.add.at(want["l"], ix, c)

            def call():
                y = SimulatedVariable(o.copy(), l.copy(), sel_of(x))
                np.add.at(y, ix, c)
                return y

        got = dict(o="none", l="none", s=[])
        with np.errstate(all="ignore"):
            try:
                g = call()
                ok, err = True, ""
                if f == "masked":
                    # the target has no latent values
                    got = dict(o=Dig(into), l=Dig(np.asarray(g)), s=bools(sel_of(x)))
                else:
                    got = dict(o=Dig(np.asarray(g.view(np.ndarray))), l=Dig(g.latent), s=bools(sel_of(g)))
            except Exception as e:  # noqa
                ok, err = False, type(e).__name__
        self.tr.emit(op="opaque", ok=ok, err=err, f=f, a=a, got=got,
                     want=dict(o=Dig(want["o"]), l=Dig(want["l"])),
                     all={k2: snap(z) for k2, z in self.v.items()})

    def emit_red(self, f, a, how):
        try:
            val = ints([how()])[0]
            ok, err = True, ""
        except Exception as e:  # noqa
            ok, err, val = False, type(e).__name__, 0
        self.tr.emit(op="red", ok=ok, err=err, f=f, a=a, val=val,
                     all={k2: snap(z) for k2, z in self.v.items()})

    def compatible(self, p, q):
        """two variables of one population have the same selection"""
        if p["t"] == "id" and q["t"] == "id":
            x, y = self.v[p["id"]], self.v[q["id"]]
            if np.asarray(x).dtype == bool or np.asarray(y).dtype == bool:
                return False
            if isinstance(x, SimulatedVariable) and isinstance(y, SimulatedVariable):
                return bools(sel_of(x)) == bools(sel_of(y))
            return True
        for z in (p, q):
            if z["t"] == "id" and np.asarray(self.v[z["id"]]).dtype == bool:
                return False
        return True

    def script(self, name):
        self.tr.begin(name)
        self.v, self.n, self.frozen = {}, 0, set()
        n = int(self.rng.integers(1, 6))
        self.sels = {k: self.rng.random(k) < self.pick([0, 0.5, 0.5, 1]) for k in (n, self.pick([0, 1, n]))}
        for _ in range(3):
            self.new(n)
        for _ in range(18):
            if not self.step():
                break


def big(x):
    x = np.asarray(x, dtype=float)
    m = np.max(np.abs(x)) if len(x) else 0
    return m


def lowest(x):
    m = np.min(np.asarray(x.view(np.ndarray), dtype=float))
    if isinstance(x, SimulatedVariable):
        m = min(m, np.min(np.asarray(x.latent, dtype=float)))
    return m


_big = big


def big(x):  # noqa
    m = _big(x.view(np.ndarray))
    if isinstance(x, SimulatedVariable):
        m = max(m, _big(x.latent))
    return m


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    tr = Trace(out)
    r = Runner(tr, np.random.default_rng([seed, 13]))
    for k in range(n):
        r.script("simvar-%d-%d" % (seed, k))
    tr.close()
    print("SCRIPTS", n, "EVENTS", tr.n_events)


if __name__ == "__main__":
    main()
