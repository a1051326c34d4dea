"""P07: group-by aggregation against a per-group evaluation."""
import _thread, time
import numpy as np
import common, ops, simapi
from ops import D, ALL, NUM, INTS, FLTS, arr, rng_of, isinv, invalid
from simapi import violate, probe

shrink = ops.shrink_ops
A32 = {0: "sum", 1: "mean", 2: "min", 3: "max", 4: "var", 5: "std", 50: "nansum", 51: "nanmean", 52: "nanmin", 53: "nanmax", 54: "nanvar", 55: "nanstd"}
PACK = {100: "first", 101: "nth", 102: "last", 103: "median", 104: "mode", 106: "quantile", 200: "rsum", 201: "rnansum", 202: "rdiff",
        203: "rshift", 204: "rcount", 205: "rmean", 206: "rnanmean", 207: "rquantile"}
STR = ["S1", "S3", "S8", "U2", "U5", "S17"]


def gen(rng, tier, pid):
    o = []
    intr = rng.random() < 0.3
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["all", "all", "pack", "pack"])
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng, big=0.7, cap=120000)}
        op["kd"] = rng.choice(["i1", "i2", "i4", "i8"])
        op["u"] = rng.choice([1, 2, 3, 7, 30, 100, 127 if op["kd"] == "i1" else 1000, 100 if op["kd"] == "i1" else 4000])
        op["drop"] = rng.choice([0, 0, 0.05, 0.5, 1])       # share of filtered rows
        op["skew"] = rng.choice([0, 0, 1, 2])
        op["low"] = rng.choice([1, 1, 0])
        nc = rng.choice([1, 1, 1, 2, 3, 5])
        if k == "all":
            op["c"] = [[rng.choice(list(A32)), rng.choice(ALL + FLTS), rng.choice(["full", "small", "small", "dup"])] for _ in range(nc)]
            if op["n"] < 5000 and rng.random() < 0.4:
                op["u"] = min(op["n"] * rng.choice([1, 2]), {"i1": 126}.get(op["kd"], 5000))   # more bins than rows
        else:
            op["kd"] = rng.choice(["i4", "i8"])
            if rng.random() < 0.35:
                nc, op["n"] = 1, rng.choice([65536, 65537, 65600, 70000, 98304])
            op["c"] = []
            for _ in range(nc):
                f = rng.choice(list(PACK))
                if nc == 1 and op["n"] >= 65536:
                    f = rng.choice([103, 104, 106, f])
                d = rng.choice(ALL + FLTS)
                if f in (100, 101, 102, 203) and rng.random() < 0.3:
                    d = rng.choice(STR)
                if f == 204:
                    d = op["kd"]
                if d == "b1" and f in (202, 205, 206, 207):
                    d = "f8"         # not implemented for booleans
                p = 0
                if f == 101:
                    p = rng.choice([0, 1, 2, 5, -1, -2])
                elif f == 106:
                    p = rng.choice([0, .1, .25, .5, .9, 1, 1 / 3])
                elif f in (203, 202):
                    p = rng.choice([0, 1, 1, 2, 5, -1, -3, 100])
                elif f == 204:
                    p = rng.choice([1, -1])
                elif f >= 200:
                    p = rng.choice([1, 2, 3, 10, 50])
                op["c"].append([f, d, rng.choice(["full", "small", "small", "dup"]), p, rng.choice([0, .25, .5, 1, .9]), rng.randint(0, 1)])
        o.append(op)
    cfg = common.sched(rng)
    w = {"ops": o}
    if intr:
        cfg["sigs"] = rng.choice([1, 1, 2])
        cfg["sig_after"] = rng.choice([0, 0, 5, 20, 60, 200])
        w["intr"] = rng.choice([1, 1, 1, 2])
    return {"cfg": cfg, "w": w}


def mkbins(g, op):
    n, u = op["n"], op["u"]
    if op["skew"] == 1:
        b = np.minimum(u, 1 + (g.random(n) ** 4 * u)).astype("i8")
    elif op["skew"] == 2:
        b = np.sort(g.integers(1, u + 1, n))
    else:
        b = g.integers(1, u + 1, n)
    if op["drop"]:
        b[g.random(n) < op["drop"]] = 0
    if u > 2 and g.random() < .5:
        b[b == 1 + int(g.integers(0, u))] = u       # an empty group
    return b


def segs(b, u):
    o = np.argsort(b, kind="stable")
    cnt = np.bincount(b, minlength=u + 1)
    st = np.concatenate([[0], np.cumsum(cnt)])
    return o, cnt, st


def outtype(f, t):
    nm = A32[f].replace("nan", "")
    if nm == "sum":
        return np.dtype(t) if t.kind == "f" else np.dtype("u8" if t.kind == "u" else "i8")
    if nm in ("min", "max"):
        return t
    return t if t.kind == "f" else np.dtype("f8")


def red(f, x, ot, empty_inv=True):
    """One group's value and the scale of the allowed rounding."""
    nm = A32[f]
    inv = invalid(ot)
    bad = isinv(x)
    if nm.startswith("nan"):
        x = x[~bad]
        nm = nm[3:]
    elif bad.any():
        return inv, 0
    n = len(x)
    if nm == "sum":
        if x.dtype.kind == "f":
            v = x.astype("f8")
            return v.sum(), np.abs(v).sum()
        return x.astype(ot).sum(dtype=ot), 0
    if not n:
        return inv, 0
    if nm == "min":
        return x.min(), 0
    if nm == "max":
        return x.max(), 0
    v = x.astype("f8")
    if nm == "mean":
        return v.mean(), np.abs(v).mean()
    if n < 2:
        return inv, 0
    s = v.var(ddof=1)
    m2 = (v * v).mean()
    if nm == "var":
        return s, m2
    r = np.sqrt(s)
    return r, np.sqrt(m2)


def mkcol(g, d, n, style, f):
    t = np.dtype(D[d]) if d in D else np.dtype(d)
    if t.kind in "SU":
        return arr(g, d, n, style)
    a = arr(g, d, n, style)
    if t.kind == "f" and f in (0, 1, 4, 5, 50, 51, 54, 55) and style == "full":
        # keep infinities rare enough for some groups to stay finite
        m = g.random(n) < .99
        a[np.isinf(a) & m] = 1
        if f not in (0, 1, 50, 51):
            a[np.isinf(a)] = 2
    if t.kind == "f" and f == 101 or f == 202:
        pass
    return a


def close(r, e, sc, t):
    with np.errstate(all="ignore"):
        if t.kind != "f":
            return r == e
        eps = 3e-7 if t.itemsize == 4 else 1e-9
        ok = (r == e) | ((r != r) & (e != e))
        d = np.abs(r.astype("f8") - e.astype("f8"))
        return ok | (d <= eps * sc + (2e-6 if t.itemsize == 4 else 1e-9) * np.abs(e))


def attempt(fn, what, w):
    """The result, or None after a reported interrupt."""
    if not w.get("intr"):
        return fn()
    h, errs = [], []
    if w["intr"] == 2:
        # the call runs in another Python thread; the main thread waits for it
        go, done = [], []

        def body(fn=fn):
            while not go:
                time.sleep(1e-4)
            try:
                h.append(fn())
            except BaseException as e:
                errs.append(e)
            done.append(1)

        _thread.start_new_thread(body, ())

        def fn():
            go.append(1)
            while not done:
                time.sleep(1e-4)
    try:
        try:
            simapi.lib.sim_arm(4)
            if w["intr"] == 2:
                fn()
            else:
                h.append(fn())
            simapi.lib.sim_disarm(4)
            for _ in range(50):
                pass
        finally:
            simapi.lib.sim_disarm(4)
            for _ in range(50):
                pass
    except KeyboardInterrupt as e:
        simapi.lib.sim_disarm(4)
        while e is not None:
            if isinstance(e, SystemError):
                violate("interrupt-error", "%s: the interrupted call raised %r instead of KeyboardInterrupt" % (what, e))
            e = e.__context__
        probe("interrupted" if not h else "interrupted-after")
    simapi.lib.sim_disarm(4)
    if w["intr"] == 2:
        fn()
        for e in errs:
            if not isinstance(e, KeyboardInterrupt):
                violate("interrupt-error", "%s: the interrupted call in a second thread raised %r instead of KeyboardInterrupt" % (what, e))
        probe("thread-interrupted" if errs else "thread")
    return h[0] if h else None


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        what = "op %d %s" % (i, op)
        f = {"all": _all, "pack": _pack}[op["k"]]
        r = f(rc, rng_of(op["s"]), op, what, w)
        if w.get("intr"):
            f(rc, rng_of(op["s"]), op, what + " repeated after a possible interrupt", dict(w, intr=0))
        probe("parallel" if op["n"] >= ops.PAR else "serial")


def compare(got, exp, sc, lo, hi, what, field):
    if got.shape != exp.shape:
        violate("mismatch", "%s: %s: shape %s instead of %s" % (what, field, got.shape, exp.shape))
    ok = close(got[lo:hi], exp[lo:hi], sc[lo:hi], got.dtype)
    if not ok.all():
        j = np.flatnonzero(~ok)
        violate("mismatch", "%s: %s: %d of %d bins differ, first bin %d: %r instead of %r" % (what, field, len(j), hi - lo, j[0] + lo, got[j[0] + lo], exp[j[0] + lo]))


def _all(rc, g, op, what, w):
    n, u = op["n"], op["u"]
    b = mkbins(g, op)
    k = b.astype(D[op["kd"]])
    cols = [mkcol(g, d, n, st, f) for f, d, st in op["c"]]
    cols = [c if g.random() > .15 else np.concatenate([c[:1], c])[1:] for c in cols]
    fr = ops.frozen(k, *cols)
    o, cnt, st = segs(b, u)
    lo = op["low"]
    r = attempt(lambda: rc.GroupByAll32(cols, k, u, [c[0] for c in op["c"]], [lo] * len(cols), [u + 1] * len(cols), 0), what, w)
    ops.check_frozen(fr, what, violate)
    if r is None:
        return None
    for (f, d, sty), c, x in zip(op["c"], cols, r):
        ot = outtype(f, c.dtype)
        fld = "%s of %s" % (A32[f], d)
        if x.dtype != ot:
            violate("mismatch", "%s: %s: dtype %s instead of %s" % (what, fld, x.dtype, ot))
        e = np.zeros(u + 1, ot)
        sc = np.zeros(u + 1)
        sorted_ = c[o]
        with np.errstate(all="ignore"):
            for i in range(lo, u + 1):
                v, s = red(f, sorted_[st[i]:st[i + 1]], ot)
                e[i], sc[i] = v, s
            if A32[f].endswith(("var", "std")):
                sc = sc * 10
        if A32[f].endswith("std"):
            # the rounding of a variance near 0 is amplified by the root
            m = (sc > 0) & (e < 1e-3 * sc)
            x = x.copy()
            x[m & (np.abs(x) < 1e-3 * sc)] = e[m & (np.abs(x) < 1e-3 * sc)]
        if c.dtype.kind == "b" and f in (2, 3, 52, 53):
            # booleans have no invalid marker: the result of an empty group is unspecified
            m = cnt == 0
            x = x.copy()
            x[m], e[m] = False, False
        compare(x, e, sc, lo, u + 1, what, fld)
        probe(A32[f])
    if len(cols) == 1 and (u + 1) * 10 < n:
        probe("scatter-gather")
    if u >= n:
        probe("more-bins-than-rows")
    return r


def trim_window(x, i, w):
    return x[max(0, i - w + 1): i + 1]


def half(a, b, t, ot):
    return None


def quant(x, q, t, ot):
    """Midpoint quantile of valid values."""
    s = np.sort(x)
    fi = (len(s) - 1) * q
    hi, lo = int(np.ceil(fi)), int(np.floor(fi))
    return s[lo], s[hi]


def _pack(rc, g, op, what, w):
    n, u = op["n"], op["u"]
    b = mkbins(g, op)
    it = D[op["kd"]]
    k = b.astype(it)
    o, cnt, st = segs(b, u)
    ig, fi, nc = o.astype(it), st[:-1].astype(it), cnt.astype(it)
    cols = [mkcol(g, d, n, sty, f) for f, d, sty, *_ in op["c"]]
    fr = ops.frozen(k, ig, fi, nc, *cols)
    lo = op["low"]
    res = []
    # one parameter serves the whole call, so calls are split by parameter
    groups = {}
    for j, (f, d, sty, p, q, nanv) in enumerate(op["c"]):
        if f == 106:
            par = int(round(q * 1e9)) + (10 ** 9 + 1 if nanv else 0)
        elif f == 207:
            par = int(round(q * 1e9)) + p * (10 ** 9 + 1)
        else:
            par = p
        groups.setdefault(par, []).append(j)
    for par, js in groups.items():
        r = attempt(lambda: rc.GroupByAllPack32([cols[j] for j in js], k, ig, fi, nc, u, [op["c"][j][0] for j in js], [lo] * len(js),
                                                [u + 1] * len(js), par), what, w)
        ops.check_frozen(fr, what, violate)
        if r is None:
            return None
        for j, x in zip(js, r):
            f, d, sty, p, q, nanv = op["c"][j]
            fld = "%s(%s) of %s" % (PACK[f], par, d)
            check_pack(f, cols[j], x, p, int(round(q * 1e9)) / 1e9, nanv, o, st, u, lo, b, what, fld)
            probe(PACK[f])
            if len(js) == 1 and n > 65536 and f in (103, 104, 106):
                probe("banded")
    return True


def check_pack(f, c, x, p, q, nanv, o, st, u, lo, b, what, fld):
    n = len(c)
    t = c.dtype
    if f < 200:
        ot = np.dtype("f8") if f == 106 and t.kind != "f" else t
        if x.dtype != ot:
            if f == 106:
                ot = x.dtype
            else:
                violate("mismatch", "%s: %s: dtype %s instead of %s" % (what, fld, x.dtype, ot))
        inv = invalid(ot)
        e = np.zeros(u + 1, ot)
        sc = np.zeros(u + 1)
        s = c[o]
        for i in range(lo, u + 1):
            y = s[st[i]:st[i + 1]]
            if f in (100, 101, 102):
                pos = {100: 0, 102: len(y) - 1, 101: p if p >= 0 else len(y) + p}[f]
                e[i] = y[pos] if 0 <= pos < len(y) else inv
                continue
            if t.kind == "f":
                v = y[y == y]
            else:
                v = y
            if f == 106:
                bad = isinv(y)
                if bad.any() and not nanv:
                    e[i] = inv
                    continue
                v = y[~bad]
            if not len(v):
                e[i] = inv
            elif f == 104:
                vals, ct = np.unique(v, return_counts=True)
                e[i] = vals[np.argmax(ct)]
            elif f == 103:
                v = np.sort(v)
                m = len(v)
                if m & 1:
                    e[i] = v[m // 2]
                else:
                    e[i], sc[i] = mid(v[m // 2 - 1], v[m // 2], t)
            else:
                a, z = quant(v, q, t, ot)
                if a == z:
                    e[i] = a
                else:
                    with np.errstate(all="ignore"):
                        e[i] = (float(a) + float(z)) / 2
                        sc[i] = abs(float(a)) + abs(float(z))
        if f == 103 and t.kind != "f":
            ok = (np.abs(x[lo:].astype("O") - e[lo:].astype("O")) <= sc[lo:].astype("O")) if t.kind != "b" else ((x[lo:] == e[lo:]) | (sc[lo:] > 0))
            ok = np.asarray(ok, bool)
            if not ok.all():
                j = int(np.flatnonzero(~ok)[0]) + lo
                violate("mismatch", "%s: %s: bin %d: %r instead of %r" % (what, fld, j, x[j], e[j]))
            return
        if t.kind in "SU":
            if x.shape != e.shape or not (x[lo:] == e[lo:]).all():
                violate("mismatch", "%s: %s: %s" % (what, fld, ops.where_diff(x[lo:], e[lo:])))
            return
        compare(x, e, sc, lo, u + 1, what, fld)
        return
    # rolling forms: full length
    nm = PACK[f]
    if nm == "rcount":
        ot = np.dtype("i4")
    elif nm in ("rdiff", "rshift"):
        ot = t
    elif nm in ("rsum", "rnansum"):
        ot = t if t.kind == "f" else np.dtype("i8")
    else:
        ot = np.dtype("f8")
    if x is None:
        if t.kind == "b":
            return
        violate("mismatch", "%s: %s: no result" % (what, fld))
    if x.dtype != ot:
        violate("mismatch", "%s: %s: dtype %s instead of %s" % (what, fld, x.dtype, ot))
    if x.shape != (n,):
        violate("mismatch", "%s: %s: shape %s" % (what, fld, x.shape))
    inv = invalid(ot)
    e = np.zeros(n, ot)
    sc = np.zeros(n)
    lowrows = o[: st[1]]
    # position of each row within its group, in sorted order
    cnt = np.diff(st)
    start = np.repeat(st[:-1], cnt)
    idx = np.arange(n)
    pos = idx - start
    s = c[o]
    es = np.zeros(n, ot)
    scs = np.zeros(n)
    with np.errstate(all="ignore"):
        if nm == "rcount":
            es[:] = pos if p >= 0 else np.repeat(cnt, cnt) - 1 - pos
        elif nm in ("rshift", "rdiff"):
            src = idx - p
            ok = (pos - p >= 0) & (pos - p < np.repeat(cnt, cnt))
            es[:] = inv
            if nm == "rshift":
                es[ok] = s[src[ok]]
            else:
                es[ok] = s[ok] - s[src[ok]] if t.kind != "b" else 0
                scs[ok] = np.abs(s[ok].astype("f8"))
                scs[~np.isfinite(scs)] = 0
        else:
            # window sums through padded gathers
            bad = isinv(s)
            v = s.astype("i8") if t.kind in "biu" and nm in ("rsum", "rnansum") else s.astype("f8")
            if nm in ("rnansum", "rnanmean"):
                v = np.where(bad, 0, v)
            if nm == "rquantile":
                rolling_quantile(s, bad, start, cnt, st, p, q, es, scs, inv)
            else:
                tot = np.zeros(n, v.dtype)
                mag = np.zeros(n)
                num = np.zeros(n, "i8")
                for d in range(p):
                    m = pos >= d
                    tot[m] += v[idx[m] - d]
                    num[m] += (~bad)[idx[m] - d] if nm == "rnanmean" else 1
                # a running sum accumulates rounding from the whole group
                mag = np.repeat(np.add.reduceat(np.append(np.abs(np.where(np.isfinite(v.astype("f8")), v, 0).astype("f8")), 0), np.minimum(st[:-1], n)) * (cnt > 0), cnt)
                if nm in ("rmean", "rnanmean"):
                    es[:] = np.where(num > 0, tot / np.maximum(num, 1), inv)
                else:
                    es[:] = tot.astype(ot)
                scs[:] = mag
                if t.kind == "f" and nm in ("rsum", "rmean", "rnansum", "rnanmean"):
                    # once a NaN or infinity enters a running sum, it stays for the rest of the group
                    nf = ~np.isfinite(v)
                    if nf.any():
                        seen = np.cumsum(nf) - np.repeat(np.concatenate([[0], np.cumsum(nf)])[st[:-1]], cnt)
                        keep = seen == 0
                        scs[~keep] = np.inf
                        hit = ~keep & np.isfinite(x[o])
                        if hit.any() and False:
                            violate("mismatch", "")
    e[o] = es
    sc[o] = scs
    if lo == 1:
        keep = b > 0
    else:
        keep = np.ones(n, bool)
        e[lowrows] = inv
        sc[lowrows] = 0
    if t.kind in "SU":
        if not (x[keep] == e[keep]).all():
            violate("mismatch", "%s: %s: %s" % (what, fld, ops.where_diff(x[keep], e[keep])))
        return
    with np.errstate(all="ignore"):
        ok = close(x, e, np.where(np.isinf(sc), 0, sc), t if t.kind == "f" else ot) | np.isinf(sc) | ~keep
    if not ok.all():
        j = np.flatnonzero(~ok)
        violate("mismatch", "%s: %s: %d rows differ, first row %d (bin %d): %r instead of %r" % (what, fld, len(j), j[0], b[j[0]], x[j[0]], e[j[0]]))


def mid(a, z, t):
    """Midpoint and its allowed error."""
    if t.kind == "b":
        return a, 1 if a != z else 0
    if t.kind == "f":
        with np.errstate(all="ignore"):
            r = (float(a) + float(z)) / 2
            return r, abs(float(a)) + abs(float(z))
    m = (int(a) + int(z)) // 2
    return m, 1


def rolling_quantile(s, bad, start, cnt, st, p, q, es, scs, inv):
    n = len(s)
    v = np.where(bad, np.nan, s.astype("f8"))
    m = np.full((n, p), np.nan)
    pos = np.arange(n) - start
    for d in range(p):
        k = np.flatnonzero(pos >= d)
        m[k, d] = v[k - d]
    m.sort(axis=1)
    num = (m == m).sum(axis=1)
    fi = np.maximum(num - 1, 0) * q
    # exact products are computed in extended precision by the module: snap values next to integers
    near = np.rint(fi)
    fi = np.where(np.abs(fi - near) < 1e-8, near, fi)
    r = np.arange(n)
    lo, hi = m[r, np.floor(fi).astype("i8")], m[r, np.ceil(fi).astype("i8")]
    es[:] = np.where(lo == hi, lo, (lo + hi) / 2)
    scs[:] = np.where(lo == hi, 0, np.abs(lo) + np.abs(hi))
    es[num == 0] = inv
    scs[~np.isfinite(scs)] = 0
