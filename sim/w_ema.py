"""P11: binning, rolling, EMA, time windows, interpolation and record conversion."""
import math

import numpy as np
import common, ops, simapi
from ops import ALL, D, FLTS, INTS, NUM, PAR, SINTS, arr, invalid, isinv, rng_of, where_diff
from simapi import violate, probe
from w_math import strided

shrink = ops.shrink_ops
BIND = ["i1", "i2", "i4", "i8", "u8", "f4", "f8"]
ROLL = dict(sum=0, nansum=1, mean=102, nanmean=103, quantile=104, var=106, nanvar=107, std=108, nanstd=109)
EMA = dict(cumsum=300, decay=301, cumprod=302, findnth=303, normal=304, weighted=305, cumnanmax=306, cumnanmin=307, cummax=308, cummin=309)


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["bins", "bins", "strs", "sorted", "tw", "roll", "ema", "ema", "ema", "interp", "rec"])
        op = {"k": k, "s": rng.getrandbits(40), "st": rng.choice([0, 0, 0, 0, 2, -1, 9])}
        n = ops.length(rng, big=0.7, cap=90000)
        if k == "bins":
            op.update(d=rng.choice(ALL + ["f8", "f8", "i8", "i4"]), b=rng.choice(BIND + ["f8", "f8", "f8"]), mode=rng.choice([0, 0, 1, 2]),
                      nb=rng.choice([1, 2, 3, 5, 10, 99, 100, 101, 127, 128, 129, 300, 30000, 30001]), sty=rng.choice(["full", "small", "dup", "edge", "edge"]))
        elif k == "strs":
            op.update(w=rng.choice([1, 2, 5, 9]), bw=rng.choice([1, 2, 5, 9]), nb=rng.choice([1, 2, 3, 10, 100, 101, 200]), u=rng.random() < .1)
        elif k == "sorted":
            op.update(d=rng.choice(ALL + ["f8", "f4"]), nb=rng.choice([1, 2, 3, 5, 10, 100, 101, 129, 1000]), x=rng.choice(["i4", "i8"]),
                      mode=rng.choice([0, 1]), sty=rng.choice(["full", "small", "dup", "edge"]))
        elif k == "tw":
            op.update(d=rng.choice(ALL + ["f8"]), f=rng.choice([0, 0, 1]), delta=rng.choice([-1, 0, 1, 2, 5, 20, 40]), tg=rng.choice([1, 1, 2, 10]))
        elif k == "roll":
            op.update(d=rng.choice(ALL + FLTS), f=rng.choice(sorted(ROLL)), win=rng.choice([1, 1, 2, 3, 5, 10, 100, 1000, 40000]), sty=rng.choice(["full", "small", "dup", "full"]))
            n = min(n, rng.choice([40, 300, 3000, 40000]))
        elif k == "ema":
            c = rng.choice([1, 1, 2, 3, 4, 7])
            op.update(d=[rng.choice(ALL + ["f8"]) for _ in range(c)], f=rng.choice(sorted(EMA)), key=rng.choice(SINTS), u=rng.choice([1, 2, 5, 20, 100]), t=rng.choice(["i4", "i8", "u4", "u8", "f4", "f8"]),
                      inc=rng.choice([None, None, .5, .9, 0.0]), rst=rng.choice([None, None, .1, .5]), bad=rng.choice([0, 0, .1, .5]), p=rng.choice([0.0, .01, .5, 1.0, 3.0]),
                      sty=rng.choice(["full", "small", "dup", "pos"]), tord=rng.choice(["up", "up", "any"]))
            n = min(n, rng.choice([20, 200, 600, 600 if c > 2 else 2000]))
        elif k == "interp":
            op.update(d=rng.choice(FLTS), m=rng.choice([2, 2, 3, 5, 20]), two=rng.random() < .5, clip=rng.choice([0, 1]))
        elif k == "rec":
            op.update(f=[rng.choice(ALL + ["S1", "S3", "S5", "S8", "S9", "S17", "U2", "U5", "c16"]) for _ in range(rng.randint(1, 6))], al=rng.random() < .3)
            n = rng.choice([n, 16384, 16385, 16383, 32768, 32769, 40000])
        op["n"] = n
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def lay(a, op, g):
    """One array argument, sometimes strided or unaligned."""
    return strided(a, op["st"], g) if op["st"] and g.random() < .6 else a


def edges(g, d, nb, of=None):
    """nb strictly increasing edges of dtype d, about the values of `of` when given."""
    t = np.dtype(D[d])
    for _ in range(60):
        if of is not None and len(of) and g.random() < .7:
            v = g.choice(of, size=nb * 2 + 4).astype("f8")
            v = v[np.isfinite(v)]
            if g.random() < .5:
                v = v + g.choice([0, .5, -.25, 1], size=len(v))
            v = np.concatenate([v, g.normal(size=nb + 2) * 100])
        else:
            v = g.normal(size=nb * 2 + 4) * (100 if g.random() < .5 or t.kind == "f" else 1e5)
        if t.kind != "f":
            ii = np.iinfo(t)
            v = np.clip(np.floor(v), max(ii.min, -2 ** 52), min(ii.max, 2 ** 52))
        u = np.unique(v.astype(t))
        if len(u) >= nb:
            i = np.sort(g.choice(len(u), nb, replace=False))
            return u[i]
        nb = max(1, nb // 2)
    return np.zeros(1, t)


def values(g, d, n, sty):
    if sty == "edge":
        return arr(g, d, n, "small" if g.random() < .5 else "full")
    return arr(g, d, n, sty)


def outtype(nb):
    return np.int8 if nb <= 100 else np.int16 if nb <= 30000 else np.int32


def check(what, got, want, tol=0.0, cls="wrong-result"):
    if got is None:
        violate("no-result", what + " was not computed")
    if got.dtype != want.dtype:
        violate("wrong-type", "%s has dtype %s instead of %s" % (what, got.dtype, want.dtype))
    if not ops.same(got, want, tol):
        violate(cls, "%s: %s" % (what, where_diff(got, want)))


def cmp_types(a, b):
    """Both sides in a type which holds them."""
    k = a.dtype.kind + b.dtype.kind
    if "f" in k and k != "ff":
        return a.astype("f8"), b.astype("f8")
    if k in ("iu", "ui", "bu", "ub") and 8 in (a.dtype.itemsize, b.dtype.itemsize):
        return a.astype("f8"), b.astype("f8")
    t = np.promote_types(a.dtype, b.dtype)
    return a.astype(t), b.astype(t)


def _bins(rc, g, op, what):
    v = values(g, op["d"], op["n"], op["sty"])
    b = edges(g, op["b"], op["nb"], v)
    v, bb = lay(v, op, g), lay(b, op, g) if op["st"] != 9 else b
    fr = ops.frozen(v, bb)
    r = rc.BinsToCutsBSearch(v, bb, op["mode"])
    ops.check_frozen(fr, what, violate)
    x, y = cmp_types(np.ascontiguousarray(v), b)
    if op["mode"] == 0:
        bad = isinv(np.ascontiguousarray(v)) | (~np.isfinite(v.astype("f8")))
        with np.errstate(invalid="ignore"):
            out = bad | (x < y[0]) | (x > y[-1])
        e = np.searchsorted(y, x, "left")
        e[(x == y[0])] = 1
        e[out] = 0
    else:
        e = np.searchsorted(y, x, "left" if op["mode"] == 1 else "right")
    op["n"] >= PAR and probe("split")
    check("%s BinsToCutsBSearch mode %d of %d %s values over %d %s bins" % (what, op["mode"], op["n"], op["d"], len(b), op["b"]), r, e.astype(outtype(len(b))))


def _strs(rc, g, op, what):
    v = arr(g, "S%d" % op["w"], op["n"], "small" if g.random() < .5 else "dup")
    v[g.random(len(v)) < .05] = b""
    b = np.unique(np.concatenate([arr(g, "S%d" % op["bw"], op["nb"], "small"), g.choice(v, size=op["nb"]).astype("S%d" % op["bw"])]))
    b = b[b != b""]
    if not len(b):
        return
    b = b[np.sort(g.choice(len(b), min(len(b), op["nb"]), replace=False))]
    if op["u"]:
        try:
            r = rc.BinsToCutsBSearch(v.astype("U"), b.astype("U"), 0)
        except ValueError:
            return
        if r is None:
            return
        v, b = v.astype("U"), b.astype("U")
    else:
        v = lay(v, op, g)
        r = rc.BinsToCutsBSearch(v, b, 0)
    c = np.ascontiguousarray(v)
    e = np.searchsorted(b, c, "left")
    e[c == b[0]] = 1
    e[(c == c.dtype.type()) | (c < b[0]) | (c > b[-1])] = 0
    op["n"] >= PAR and probe("split-strings")
    check("%s BinsToCutsBSearch of %d %s strings over %d %s bins" % (what, op["n"], v.dtype, len(b), b.dtype), r, e.astype(outtype(len(b))))


def _sorted(rc, g, op, what):
    v = values(g, op["d"], op["n"], op["sty"])
    b = edges(g, "f8", op["nb"], v)
    ix = np.argsort(v, kind="stable").astype(D[op["x"]])
    c = rc.NanInfCountFromSort(v, ix)
    if v.dtype.kind == "f":
        want = (int(np.isnan(v).sum()), int((v == np.inf).sum()), int((v == -np.inf).sum()))
    elif v.dtype.kind == "b":
        want = (0, 0, 0)
    else:
        s = int(isinv(v).sum())
        want = (0, s, 0) if v.dtype.kind == "u" else (0, 0, s)
    if tuple(c) != want:
        violate("wrong-result", "%s NanInfCountFromSort of %d %s gave %r instead of %r" % (what, op["n"], op["d"], c, want))
    vv, xx = lay(v, op, g), lay(ix, op, g)
    r = rc.BinsToCutsSorted(vv, b, xx, want, op["mode"])
    x = v.astype("f8")
    with np.errstate(invalid="ignore"):
        e = np.searchsorted(b, x, "left") + 1
        if len(b) > 1:
            e[x == b[0]] = 2
        e[(x < b[0]) | (x > b[-1])] = 1
        e[isinv(v) | ~np.isfinite(x)] = 0
    check("%s BinsToCutsSorted of %d %s values over %d bins" % (what, op["n"], op["d"], len(b)), r, e.astype(outtype(len(b))))


def _tw(rc, g, op, what):
    n = op["n"]
    x = arr(g, op["d"], n, "full" if op["f"] == 0 else "small")
    t = np.cumsum(g.integers(0, op["tg"] + 1, n)).astype("i8") - 50
    if n > 4 and g.random() < .3:     # a gap
        t[n // 2:] += 10 ** 12
    if x.dtype.kind in "bi":
        acc = np.dtype("i8")
    elif x.dtype.kind == "u":
        acc = np.dtype("u8")
    else:
        acc = x.dtype
    xs, ts = lay(x, op, g), lay(t, op, g)
    fr = ops.frozen(xs, ts)
    r = rc.TimeWindow(xs, ts, op["f"], op["delta"])
    ops.check_frozen(fr, what, violate)
    # the sequential order of the module: newest first, stopping at the first time out of the window
    e = x.astype(acc)
    live = np.ones(n, bool)
    with np.errstate(all="ignore"):
        for k in range(1, n):
            live[:k] = False
            live[k:] &= (t[k:] - t[:-k]) <= op["delta"]
            if not live.any():
                break
            prev = np.zeros(n, acc)
            prev[k:] = x[:-k].astype(acc)
            e = np.where(live, e * prev if op["f"] else e + prev, e)
    n >= PAR and probe("split-window")
    check("%s TimeWindow %s of %d %s delta %d" % (what, "prod" if op["f"] else "sum", n, op["d"], op["delta"]), r, e, 1e-12 if acc.kind == "f" else 0)


def window(a, w):
    """Rolling windows as (window sums, counts) helper input."""
    c = np.concatenate([[0], np.cumsum(a)])
    i = np.arange(1, len(a) + 1)
    return c[i] - c[np.maximum(i - w, 0)]


def _roll(rc, g, op, what):
    n, f, w = op["n"], op["f"], op["win"]
    x = arr(g, op["d"], n, op["sty"])
    nan = f.startswith("nan")
    if x.dtype.kind == "f":
        x[~np.isfinite(x)] = np.nan
        if not nan and f != "quantile":
            x[np.isnan(x)] = 1
    xs = lay(x, op, g)
    if f == "quantile":
        q = float(g.choice([0, .25, .5, .9, 1]))
        if x.dtype.kind == "b" or n > 4000:
            return
        r = rc.Rolling(xs, ROLL[f], int(q * 1e9) + w * (10 ** 9 + 1))
        return quantile(r, x, w, q, "%s Rolling quantile %g of %d %s window %d" % (what, q, n, op["d"], w))
    r = rc.Rolling(xs, ROLL[f], w)
    what = "%s Rolling %s of %d %s window %d style %s" % (what, f, n, op["d"], w, op["sty"])
    ok = ~np.isnan(x) if x.dtype.kind == "f" else np.ones(n, bool)
    if f in ("sum", "nansum"):
        if x.dtype.kind != "f":
            y = x.astype("i8")
            if f == "nansum":
                y[isinv(x) if x.dtype.kind != "b" else (x.view("i1") == -128)] = 0
            with np.errstate(all="ignore"):
                return check(what, r, window(y, w))
        y = np.where(ok, x, 0).astype("f8")
        return near(what, r, window(y, w), np.cumsum(np.abs(y)), x.dtype)
    out = x.dtype if x.dtype.kind == "f" else np.dtype("f8")
    y = np.where(ok, x, 0).astype("g")
    cnt = window(ok.astype("i8"), w)
    with np.errstate(all="ignore"):
        m = window(y, w) / cnt
        tol = np.cumsum(np.abs(y))
        if f in ("mean", "nanmean"):
            return near(what, r, np.asarray(m, "f8"), np.asarray(tol, "f8") / np.maximum(cnt, 1), out)
        # deviations: direct over each window for a sample of rows
        rows = np.arange(n) if n * min(w, n) < 300000 else np.unique(np.concatenate([np.arange(min(n, 50)), g.integers(0, n, 100), [n - 1]]))
        scale = float(np.abs(y).max()) if n else 0
        eps = np.finfo(out).eps
        for i in rows:
            lo = max(0, i - w + 1)
            z = y[lo:i + 1][ok[lo:i + 1]]
            if not ok[i] and i < w:
                continue        # a missing value while the window fills: the value is not specified
            ddof = 1 if (i < w and not nan) else 0
            if len(z) == 0 or len(z) <= ddof:
                continue
            v = float(((z - z.mean()) ** 2).sum() / (len(z) - ddof))
            # incremental update: error grows with the number of steps and the squared magnitude
            t = eps * 64 * (i + 10) * scale * scale + 1e-300
            got = float(r[i])
            if f.endswith("std"):
                bad = got != got or not (math.sqrt(max(v - t, 0)) * (1 - 1e-6) - 1e-12 <= got <= math.sqrt(v + t) * (1 + 1e-6))
                if v <= t and not nan and got != got:
                    bad = False       # the square root of a rounding error below zero
            else:
                bad = not abs(got - v) <= t + 1e-9 * v
            if bad:
                violate("wrong-result", "%s: row %d is %r instead of %r" % (what, i, got, math.sqrt(v) if f.endswith("std") else v))
    if r.dtype != out:
        violate("wrong-type", "%s has dtype %s" % (what, r.dtype))


def near(what, r, e, scale, t):
    if r.dtype != t:
        violate("wrong-type", "%s has dtype %s instead of %s" % (what, r.dtype, t))
    i = np.arange(1, len(e) + 1)
    with np.errstate(all="ignore"):
        d = np.abs(r.astype("f8") - e)
        bad = ~((d <= np.finfo(t).eps * 8 * (i + 4) * scale.max(initial=1) + 1e-300) | (np.isnan(r) & np.isnan(e)))
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        violate("wrong-result", "%s: row %d is %r instead of %r" % (what, k, r[k], e[k]))


def quantile(r, x, w, q, what):
    bad = isinv(x)
    for i in range(len(x)):
        lo = max(0, i - w + 1)
        z = np.sort(x[lo:i + 1][~bad[lo:i + 1]])
        got = float(r[i])
        if w == 1 or not len(z):
            want = [np.nan] if not len(z) else [float(x[i])]
        else:
            # between the two order statistics which enclose the exact position
            k = (len(z) - 1) * q
            a, b = int(math.floor(k + 1e-6)), int(math.ceil(k - 1e-6))
            a, b = min(a, len(z) - 1), min(b, len(z) - 1)
            lo_, hi_ = float(z[a]), float(z[b])
            if lo_ - 1e-6 * abs(lo_) <= got <= hi_ + 1e-6 * abs(hi_):
                continue
            want = [lo_, hi_]
        if not any(got == v or (got != got and v != v) for v in want):
            violate("wrong-result", "%s: row %d is %r, expected within %r" % (what, i, got, want))


def reference(f, x, key, t, inc, rst, p, u):
    """Row-order evaluation of one column."""
    n = len(x)
    k = x.dtype.kind
    if f == "findnth":
        out = np.zeros(n, "i4")
        c = [0] * (u + 1)
        for i in range(n):
            if key[i] > 0 and (inc is None or inc[i]):
                c[key[i]] += 1
                out[i] = c[key[i]]
        return out
    if f in ("cumsum", "cumprod"):
        ot = np.dtype("i8") if k in "bi" else np.dtype("u8") if k == "u" else x.dtype
        one = 1 if f == "cumprod" else 0
        out = np.full(n, invalid(ot), ot)
        if k == "f":
            last = [ot.type(one)] * (u + 1)
            xs = list(x)
        else:
            last = [one] * (u + 1)
            xs = [int(v) for v in x]
        mask = (1 << 64) - 1
        for i in range(n):
            b = key[i]
            if b <= 0:
                continue
            if inc is None or inc[i]:
                if rst is not None and rst[i]:
                    last[b] = ot.type(one) if k == "f" else one
                last[b] = last[b] * xs[i] if one else last[b] + xs[i]
                if k != "f":
                    last[b] &= mask
            v = last[b]
            if k != "f" and ot.kind == "i" and v >= 1 << 63:
                v -= 1 << 64
            out[i] = v
        return out
    if f.startswith("cum"):
        # the kernels see a bool column as int8, whose invalid is -128
        y = x.view("i1") if k == "b" else x
        inv = invalid(y.dtype)
        bad = isinv(y)
        nanaware = "nan" in f
        better = (lambda a, b: a > b) if f.endswith("max") else (lambda a, b: a < b)
        out = np.full(n, inv, y.dtype)
        last = [inv] * (u + 1)
        lbad = [True] * (u + 1)
        seen = [False] * (u + 1)
        for i in range(n):
            b = key[i]
            if b <= 0:
                continue
            if inc is None or inc[i]:
                v = y[i]
                if (rst is not None and rst[i]) or (not nanaware and not seen[b]):
                    take = True
                elif nanaware:
                    take = (not bad[i]) and (lbad[b] or better(v, last[b]))
                else:
                    take = bad[i] or (not lbad[b] and better(v, last[b]))
                if take:
                    last[b], lbad[b] = v, bool(bad[i])
                seen[b] = True
            out[i] = last[b]
        return out
    # exponential averages
    out = np.full(n, np.nan)
    last = [0.0] * (u + 1)
    lastv = [0.0] * (u + 1)
    first = [True] * (u + 1)     # no time recorded yet: an infinitely old one
    lastt = [t.dtype.type(0) if t is not None else 0] * (u + 1)
    xf = [float(v) for v in x]
    if f in ("normal", "weighted"):
        for i in range(n - 1, -1, -1):
            last[key[i]] = xf[i]

    def dt(i, b):
        d = t[i] - lastt[b]
        return float(d)

    def ex(a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf
    for i in range(n):
        b = key[i]
        if b <= 0:
            continue
        if inc is not None and not inc[i]:
            if rst is not None and f != "weighted":
                out[i] = last[b]
                continue
            v = lastv[b] if f == "normal" else 0.0
        else:
            v = xf[i]
            if rst is not None and rst[i]:
                last[b] = 0.0
                lastt[b] = t.dtype.type(0) if t is not None else 0
                first[b] = False
        if f == "weighted":
            last[b] = v * (1 - p) + last[b] * p
        elif f == "decay":
            last[b] = v + last[b] * ex(-p * dt(i, b))
        else:
            if first[b]:
                wgt = 0.0
            else:
                d = dt(i, b)
                wgt = 0.0 if d < 0 else ex(-p * d)
            last[b] = v * (1 - wgt) + last[b] * wgt
            lastv[b] = v
        if t is not None:
            lastt[b] = t[i]
        first[b] = False
        out[i] = last[b]
    return out


def _ema(rc, g, op, what):
    n, f, u = op["n"], op["f"], op["u"]
    cols = []
    for d in op["d"]:
        x = arr(g, d, n, op["sty"])
        if x.dtype.kind == "f" and f in ("cumsum", "cumprod", "normal", "weighted", "decay"):
            x[np.isinf(x)] = 2
            if f in ("normal", "weighted", "decay"):
                x[np.isnan(x)] = 3
        cols.append(x)
    key = g.integers(1, u + 1, n)
    key[g.random(n) < op["bad"]] = 0
    kt = D[op["key"]]
    t = None
    if f in ("normal", "weighted", "decay"):
        t = np.cumsum(g.integers(0, 4, n)) if op["tord"] == "up" else g.integers(0, 50, n)
        t = t.astype(D[op["t"]])
        if f == "normal" and op["p"] == 0.0 and t.dtype.kind != "i":
            op = dict(op, p=.5)     # the never seen time of unsigned and float times relies on a decay
    inc = None if op["inc"] is None else g.random(n) < op["inc"]
    rst = None if op["rst"] is None else g.random(n) < op["rst"]
    if f == "decay" and op["tord"] == "any" and (t.dtype.kind == "u"):
        t = np.sort(t)          # a wrapped unsigned difference is not specified
    if f == "normal" and op["tord"] == "any" and t.dtype.kind == "u":
        t = np.sort(t)
    if f == "normal" and t.dtype.kind == "u" and rst is not None:
        pass
    cs = [lay(c, op, g) for c in cols]
    kk = lay(key.astype(kt), op, g)
    tt = None if t is None else lay(t, op, g)
    ii = None if inc is None else lay(inc, op, g)
    rr = None if rst is None else lay(rst, op, g)
    fr = ops.frozen(*[a for a in cs + [kk, tt, ii, rr] if a is not None])
    r = rc.EmaAll32(cs, kk, u, EMA[f], (op["p"], tt, ii, rr))
    ops.check_frozen(fr, what, violate)
    what = "%s EmaAll32 %s of %d rows, %d groups, %s key, %s time, include %s reset %s p %s" % (what, f, n, u, op["key"], op["t"], op["inc"], op["rst"], op["p"])
    if len(r) != len(cs):
        violate("wrong-result", "%s returned %d columns" % (what, len(r)))
    len(cs) > 1 and probe("columns")
    kl = key.tolist()
    for j, c in enumerate(cols):
        w = "%s, column %d (%s)" % (what, j, op["d"][j])
        with np.errstate(all="ignore"):
            e = reference(f, c, kl, t, inc, rst, op["p"], u)
        got = r[j]
        if c.dtype.kind == "b" and f in ("cummax", "cummin", "cumnanmax", "cumnanmin") and got is not None:
            # rows without a value are int8 invalids in a bool array
            got = got.view("i1")
        if e.dtype.kind == "f" and f in ("normal", "weighted", "decay"):
            if got is None or got.dtype != e.dtype:
                violate("wrong-type", "%s returned %s" % (w, None if got is None else got.dtype))
            with np.errstate(all="ignore"):
                big = np.nanmax(np.abs(e[np.isfinite(e)]), initial=1)
                bad = ~((got == e) | (np.isnan(got) & np.isnan(e)) | (np.abs(got - e) <= 1e-9 * (np.abs(e) + float(np.abs(c.astype("f8")).max(initial=1)))))
                bad &= ~(np.abs(e) > 1e290)
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                violate("wrong-result", "%s: row %d is %r instead of %r" % (w, k, got[k], e[k]))
        else:
            check(w, got, e)


def _interp(rc, g, op, what):
    n, m = op["n"], op["m"]
    t = np.dtype(D[op["d"]])
    if op["two"]:
        n = min(n, 40000 if m < 6 else 20000)
    rows = n if op["two"] else 1
    xp = np.cumsum(g.random((rows, m)) + .25, axis=1).astype(t)
    fp = (g.normal(size=(rows, m)) * 10).astype(t)
    x = (g.random(n) * (m + 2) * .9 - .5).astype(t)
    x[g.random(n) < .02] = np.nan
    pick = g.random(n) < .1
    x[pick] = xp[np.arange(n)[pick] if op["two"] else np.zeros(int(pick.sum()), int), g.integers(0, m, int(pick.sum()))]
    xs = lay(x, op, g)
    a = (xs, xp, fp) if op["two"] else (xs, xp[0].copy(), fp[0].copy())
    fr = ops.frozen(*a)
    r = rc.InterpExtrap2d(*a, op["clip"])
    ops.check_frozen(fr, what, violate)
    X, P, F = x.astype("f8"), xp.astype("f8"), fp.astype("f8")
    with np.errstate(all="ignore"):
        j = np.clip((X[:, None] > P).sum(1), 1, m - 1)
        ri = np.arange(n) if op["two"] else np.zeros(n, int)
        x0, x1, y0, y1 = P[ri, j - 1], P[ri, j], F[ri, j - 1], F[ri, j]
        e = y0 + (y1 - y0) * (X - x0) / (x1 - x0)
        if op["clip"]:
            e = np.where(X <= P[ri, 0], F[ri, 0], np.where(X > P[ri, -1], F[ri, -1], e))
        e[np.isnan(X)] = np.nan
        bad = ~((np.isnan(e) & np.isnan(r)) | (np.abs(r - e) <= (1e-9 if t.itemsize == 8 else 2e-4) * (np.abs(e) + 100)))
    n >= PAR and probe("split-interp")
    if r.dtype != t or bad.any():
        k = int(np.flatnonzero(bad)[0]) if bad.any() else -1
        violate("wrong-result", "%s InterpExtrap2d of %d %s, %d points, 2d %s clip %d: dtype %s, row %d is %r instead of %r" % (what, n, op["d"], m, op["two"], op["clip"], r.dtype, k, r[k], e[k]))


def _rec(rc, g, op, what):
    n = op["n"]
    dt = np.dtype([("f%d" % i, np.dtype(D[d]) if d in D else np.dtype(d)) for i, d in enumerate(op["f"])], align=op["al"])
    a = np.frombuffer(g.bytes(dt.itemsize * n), dtype=dt).copy()
    offs, outs = [], np.empty(len(op["f"]), "O")
    for i, nm in enumerate(dt.names):
        offs.append(dt.fields[nm][1])
        outs[i] = np.zeros(n, dt.fields[nm][0])
    fr = ops.frozen(a)
    rc.RecordArrayToColMajor(a, np.asarray(offs, np.int64), outs)
    ops.check_frozen(fr, what, violate)
    n > 16384 and probe("split-records")
    for i, nm in enumerate(dt.names):
        w = a[nm].tobytes()
        if outs[i].tobytes() != w:
            s = outs[i].itemsize
            k = next(q for q in range(n) if outs[i].tobytes()[q * s:q * s + s] != w[q * s:q * s + s])
            violate("wrong-result", "%s RecordArrayToColMajor of %d records, field %d of %r: row %d differs" % (what, n, i, op["f"], k))


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        globals()["_" + op["k"]](rc, rng_of(op["s"]), op, "op %d" % i)
