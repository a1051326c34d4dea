"""P10: whole-array reductions."""
import math

import numpy as np
import common, ops, simapi
from ops import ALL, arr, invalid, isinv, rng_of
from simapi import violate, probe
from w_math import strided

shrink = ops.shrink_ops
F = dict(sum=0, nansum=1, mean=102, nanmean=103, var=106, nanvar=107, std=108, nanstd=109, min=200, nanmin=201, max=202, nanmax=203,
         argmin=204, nanargmin=205, argmax=206, nanargmax=207)
STY = ["full", "small", "dup", "pos", "big", "one", "two", "allinv", "inf", "const"]


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 5)):
        o.append({"k": "red", "s": rng.getrandbits(40), "n": ops.length(rng, big=0.75, cap=140000), "d": rng.choice(ALL + ["f4", "f8", "i8", "u8", "i4", "g"]),
                  "f": rng.sample(sorted(F), rng.randint(1, 6)), "sty": rng.choice(STY), "ddof": rng.choice([1, 1, 0, 2, "n"]),
                  "st": rng.choice([0, 0, 0, 0, 9, "2d", "2f", "2s", "0d", 2, -1])})
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def data(g, d, n, sty):
    """No invalids unless the style says so."""
    t = np.dtype("g") if d == "g" else np.dtype(ops.D[d])
    if t.kind == "b":
        return np.full(n, g.integers(2) > 0) if sty == "const" else (g.random(n) < g.choice([0.001, .5, .999]))
    if sty in ("small", "dup", "pos"):
        return arr(g, "f8", n, sty).astype(t) if d == "g" else arr(g, d, n, sty)
    if sty == "const":
        a = np.full(n, g.integers(1, 100)).astype(t)
    elif sty in ("big", "one", "two", "inf"):     # values near the ends of the type
        if t.kind == "f":
            a = (g.normal(size=n) * g.choice([1e3, 1e15, 1e18, 1e19, 1e30])).astype(t)
        else:
            ii = np.iinfo(t)
            a = g.integers(ii.min + 1, ii.max - 1, n, dtype=t, endpoint=True)
            if t.itemsize == 8 and g.random() < .7:
                a >>= int(g.integers(4, 20))
            if t.kind == "i" and g.random() < .5:
                a = np.abs(a)
    elif sty == "allinv":
        return np.full(n, invalid(t)).astype(t)
    else:
        return arr(g, "f8", n, "full").astype(t) if d == "g" else arr(g, d, n, "full")
    if sty in ("one", "two"):
        for _ in range(1 if sty == "one" else 2):
            a[int(g.integers(0, n)) if g.random() < .7 else (0 if g.random() < .5 else n - 1)] = invalid(t)
    if sty == "inf" and t.kind == "f":
        for _ in range(int(g.integers(1, 4))):
            a[int(g.integers(0, n))] = g.choice([np.inf, -np.inf])
    return a


def expect(f, a, ddof):
    """(kind, value, tolerance): kind exact | float | invalid | error."""
    t, k = a.dtype, a.dtype.kind
    bad = isinv(a)
    nan = f.startswith("nan")
    b = f[3:] if nan else f
    if b in ("argmin", "argmax"):
        if bad.any() and not nan:
            return "exact", int(np.flatnonzero(bad)[0]), 0
        v = np.flatnonzero(~bad)
        if not len(v):
            return "error", None, 0
        w = a[v]
        if k == "b":
            w = w.astype("u1")
        return "exact", int(v[(np.argmin if b == "argmin" else np.argmax)(w)]), 0
    v = a[~bad]
    if b in ("min", "max"):
        if (bad.any() and not nan) or not len(v):
            return "invalid", invalid(t), 0
        m = v.min() if b == "min" else v.max()
        return ("exact", int(m), 0) if k in "biu" else ("float", float(m), 0)
    poison = bad.any() and not nan
    if b == "sum":
        if k in "iub":
            if poison:
                return "invalid", (np.iinfo("u8").max if t == np.uint64 else np.iinfo("i8").min), 0
            s = int(v.astype("O").sum()) if t.itemsize == 8 else int(v.sum(dtype="i8"))
            lo, hi = (0, 2 ** 64 - 1) if t == np.uint64 else (-2 ** 63, 2 ** 63 - 1)
            edge = 2048 * max(1, len(a) // ops.BLK)
            if s < lo or s > hi:
                return ("over", float(s), 1e-9) if abs(s - lo) > edge and abs(s - hi) > edge else ("any", 0, 0)
            if s > hi - edge or s < lo + edge and lo:
                return "any", 0, 0
            return "exact", s, 0
        if poison:
            return "invalid", np.nan, 0
        with np.errstate(all="ignore"):
            w = v.astype("f8")
            s = math.fsum(w) if np.isfinite(w).all() else float(w.sum())
            return "float", s, 1e-12 * float(np.abs(w).sum()) + 1e-300
    if poison:
        return "invalid", np.nan, 0
    if not len(v):
        return ("float", 0.0, 0) if b == "mean" else ("float", np.nan, 0)
    with np.errstate(all="ignore"):
        w = v.astype("g")
        if not np.isfinite(w).all():
            m = w.sum() / len(w)
            if b == "mean":
                return "float", float(m), 0
            return "float", np.nan, 0
        m = w.mean()
        ta = 1e-12 * float(np.abs(w).sum() / len(w)) + 1e-300
        if b == "mean":
            return "float", float(m), ta
        if len(v) <= ddof:
            return "float", np.nan, 0
        s = ((w - m) ** 2).sum() / (len(v) - ddof)
        tv = float(s * 1e-11 + (ta * ta + 1e-300) * len(v) / (len(v) - ddof))
        if b == "var":
            return "float", float(s), tv
        return "float", float(np.sqrt(s)), float(np.sqrt(s + tv) - np.sqrt(max(s - tv, 0)) + 1e-300)


def judge(f, a, ddof, r, what):
    kind, e, tol = expect(f, a, ddof)
    if kind == "any":
        return
    if kind == "error":
        violate("wrong-result", "%s returned %r, there is no valid value" % (what, r))
    if kind == "exact":
        if type(r) is not int or r != e:
            violate("wrong-result", "%s returned %r instead of %r" % (what, r, e))
    elif kind == "invalid":
        if not (r != r if e != e else (type(r) is int and r == e)):
            violate("wrong-result", "%s returned %r instead of the invalid value %r" % (what, r, e))
    else:
        if type(r) is not float:
            violate("wrong-result", "%s returned %r instead of %r" % (what, r, e))
        if r == e or (r != r and e != e):
            return
        if kind == "over":
            tol = abs(e) * tol
        if not abs(r - e) <= tol:
            violate("wrong-result", "%s returned %r instead of %r (tolerance %r)" % (what, r, e, tol))


def _red(rc, g, op, what):
    n = op["n"]
    a = data(g, op["d"], n, op["sty"])
    st = op["st"]
    if st == "0d":
        a = a[0:1].reshape(())
    elif st == "2d":
        a = a[:n // 3 * 3].reshape(-1, 3) if n >= 3 else a
    elif st == "2f":
        a = np.asfortranarray(a[:n // 3 * 3].reshape(-1, 3)) if n >= 3 else a
    elif st == "2s":
        if n >= 8:
            a = np.asfortranarray(a[:n // 4 * 4].reshape(-1, 4))[:n // 8]
    elif st:
        a = strided(a, st, g)
    flat = np.ascontiguousarray(a).reshape(-1)
    fr = ops.frozen(a)
    for f in op["f"]:
        dd = len(flat) if op["ddof"] == "n" else op["ddof"]
        w = "%s %s of %d %s style %s layout %s ddof %s" % (what, f, len(flat), op["d"], op["sty"], st, dd)
        len(flat) >= ops.PAR and probe("split")
        try:
            r = rc.Reduce(a, F[f], dd)
        except ValueError as e:
            if "no valid" in str(e) and expect(f, flat, dd)[0] == "error":
                continue
            violate("error", "%s raised %r" % (w, e))
        if r is None:
            if a.ndim == 1 and a.strides[0] == a.itemsize:
                violate("no-result", w + " was not computed")
            probe("punted")
            continue
        judge(f, flat, dd, r, w)
        if a.ndim > 1 and f.find("arg") >= 0:
            probe("arg2d")
    ops.check_frozen(fr, what, violate)


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        globals()["_" + op["k"]](rc, rng_of(op["s"]), op, "op %d" % i)
