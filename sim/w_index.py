"""P09: indexing, masking, stacking, conversion."""
import numpy as np
import common, ops, simapi
from ops import D, ALL, NUM, arr, rng_of
from simapi import violate, probe
from w_math import strided

shrink = ops.shrink_ops
STRS = ["S1", "S2", "S3", "S5", "S8", "S11", "S16", "S24", "S33", "U1", "U2", "U3", "U5", "U9"]
IDX = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
KINDS = ["get"] * 4 + ["bidx"] * 3 + ["fancy"] * 2 + ["bsum", "reg", "set", "set", "put", "put", "hst", "hst", "hss", "shift", "hom",
                       "rei", "conv", "conv", "conv2", "cf", "rts", "bits"]
DENS = [0.0, 0.01, .3, .5, .97, 1.0, "runs", "edge"]


def lay(g, a, st):
    return strided(a, st, g) if st else a


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(KINDS)
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng, big=0.7, cap=120000)}
        op["d"] = rng.choice(ALL + ALL + STRS)
        op["st"] = rng.choice([0, 0, 0, 2, -1, 9])
        op["st2"] = rng.choice([0, 0, 0, 2, -1, 9])
        op["st3"] = rng.choice([0, 0, 0, 2, -1])
        if op["d"] in ("S16",):
            op["st"] = rng.choice([0, 2, -1])     # sixteen byte items are moved with aligned instructions
        op["dens"] = rng.choice(DENS)
        if k == "get":
            op["m"] = rng.choice([1, 2, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000])
            op["i"] = rng.choice(IDX)
            op["rng"] = rng.choice(["in", "in", "neg", "out", "any"])
            op["def"] = rng.choice([0, 0, 1])
        elif k in ("put", "conv", "conv2"):
            op["d"], op["d2"] = rng.choice(ALL), rng.choice(ALL)
            op["safe"] = rng.randint(0, 1)
            if k == "put" and rng.random() < .7:
                op["st"] = op["st2"] = op["st3"] = 0
        elif k == "set":
            op["len"] = rng.choice(["match", "match", "match", "one", "wrong"])
            if rng.random() < .7:
                op["st"] = op["st2"] = op["st3"] = 0
        elif k in ("hst", "hom"):
            op["ds"] = [[rng.choice(rng.choice([ALL, ["i4", "i4", "b1", "i8"], ["f4", "f8", "i2"]])), ops.length(rng, .5, 60000) if rng.random() > .1 else 0, rng.choice([0, 0, 0, 2, -1, 9])]
                        for _ in range(rng.randint(1, 6))]
            op["dt"] = rng.choice([0, 0, 0, 1])
        elif k == "hss":
            c = rng.choice("SU")
            op["ds"] = [[c + str(rng.randint(1, 12)), ops.length(rng, .5, 40000), rng.choice([0, 0, 0, 2, -1, 9])] for _ in range(rng.randint(1, 6))]
        elif k == "shift":
            op["ds"] = [[rng.choice(ALL + STRS), rng.choice([0, 0, 0, 0, 2, -1]), rng.choice([1, 1, 1, 2])] for _ in range(rng.randint(1, 6))]
            op["by"] = rng.choice([0, 1, -1, 5, -7, 1000, -1000, "n", "-n", "n-1", "2n"])
        elif k == "reg":
            op["i"] = rng.choice(["i1", "i2", "i4", "i8"])
            op["parts"] = rng.choice([1, 2, 3, 8, 20])
        elif k == "rei":
            op["i"] = rng.choice(["i4", "i8", "u4", "u8"])
        elif k == "cf":
            op["i"] = rng.choice(["i1", "i2", "i4", "i8"])
        elif k == "rts":
            op["d"] = rng.choice(STRS)
        elif k == "bits":
            op["d"] = rng.choice(ops.INTS + ["b1"])
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        globals()["_" + op["k"]](rc, rng_of(op["s"]), op, "op %d %s" % (i, op))
        probe("parallel" if op["n"] >= ops.PAR else "serial")


def mask(g, n, dens):
    if dens == "runs":
        m = np.zeros(n, bool)
        p, v = 0, bool(g.integers(0, 2))
        while p < n:
            k = int(g.choice([1, 7, 8, 9, 64, 1000, ops.BLK, ops.BLK + 1]))
            m[p:p + k] = v
            p, v = p + k, not v
        return m
    if dens == "edge":
        m = np.zeros(n, bool)
        for b in range(0, n + 1, ops.BLK):
            for x in (b - 1, b):
                if 0 <= x < n:
                    m[x] = True
        return m
    return g.random(n) < dens


def raw(a):
    """Comparable bytes of each element."""
    a = np.ascontiguousarray(a)
    if a.itemsize == 0:
        return a
    return a.view(np.uint8).reshape(a.shape + (a.itemsize,)) if a.dtype.kind in "SUV" else a


def same(what, got, want, cls, bitwise=True):
    if not isinstance(got, np.ndarray):
        violate(cls + "-type", "%s: result %r" % (what, type(got)))
    if got.dtype != want.dtype:
        violate(cls + "-dtype", "%s: result has type %s, expected %s" % (what, got.dtype, want.dtype))
    if got.shape != want.shape:
        violate(cls + "-shape", "%s: result has shape %s, expected %s" % (what, got.shape, want.shape))
    if got.dtype.kind == "f":
        bad = ~((got == want) | ((got != got) & (want != want)))
    else:
        bad = got != want
    if np.any(bad):
        j = int(np.flatnonzero(bad.ravel())[0])
        violate(cls, "%s: element %d is %r, expected %r (%d of %d differ)" % (what, j, got.ravel()[j], want.ravel()[j], int(np.sum(bad)), bad.size))


def _get(rc, g, op, what):
    m, n, t = op["m"], op["n"], np.dtype(D[op["i"]])
    v = lay(g, arr(g, op["d"], m), op["st"])
    ii = np.iinfo(t)
    lo, hi = {"in": (0, m - 1), "neg": (-m, m - 1), "out": (-m - 50, m + 50), "any": (ii.min, ii.max)}[op["rng"]]
    lo, hi = max(lo, ii.min), min(hi, ii.max)
    i = g.integers(lo, hi, n, dtype=t, endpoint=True)
    if op["rng"] == "any":
        x = g.random(n) < .5
        i[x] = g.integers(0, min(m - 1, ii.max), int(x.sum()), dtype=t, endpoint=True)
    if op["rng"] in ("any", "out"):
        for c in (m, m - 1, -m, -m - 1, ii.min, ii.max):
            if ii.min <= c <= ii.max:
                i[g.integers(0, n, 3)] = c
    i = lay(g, i, op["st2"])
    fr = ops.frozen(v, i)
    dv = ops.invalid(v.dtype)
    if op["def"]:
        dv = np.array(v)[int(g.integers(0, m))]
        if v.dtype.kind in "SU":
            dv = dv[: int(g.integers(0, len(dv) + 1))]
            dv = bytes(dv) if v.dtype.kind == "S" else str(dv)
        elif v.dtype.kind == "f":
            dv = float(dv)
        elif v.dtype.kind == "b":
            dv = bool(dv)
        elif g.integers(0, 2):
            dv = int(dv)
        r = rc.MBGet(v, i, dv)
    else:
        r = rc.MBGet(v, i)
    ops.check_frozen(fr, what, violate)
    want = np.empty(n, v.dtype)
    if t.kind == "i":
        w = np.array(i).astype(np.int64)
        ok = (w >= -m) & (w < m)
        w = np.where(w < 0, w + m, w)
    else:
        w = np.array(i).astype(np.uint64)
        ok = w < np.uint64(m)
        w = np.where(ok, w, np.uint64(0)).astype(np.int64)
    want[:] = dv
    want[ok] = np.array(v)[w[ok]]
    same(what, r, want, "mbget")
    probe("get." + op["i"])


def _bidx(rc, g, op, what):
    n = op["n"]
    v = lay(g, arr(g, op["d"], n), op["st"])
    m = lay(g, mask(g, n, op["dens"]), op["st2"])
    fr = ops.frozen(v, m)
    r = rc.BooleanIndex(v, m) if g.integers(0, 2) else rc.MBGet(v, m)
    ops.check_frozen(fr, what, violate)
    same(what, r, np.array(v)[np.array(m)], "boolindex")


def _bsum(rc, g, op, what):
    m = lay(g, mask(g, op["n"], op["dens"]), op["st"])
    r = rc.BooleanSum(m)
    if r != int(np.count_nonzero(np.array(m))):
        violate("boolsum", "%s: %d true values counted, expected %d" % (what, r, int(np.count_nonzero(np.array(m)))))


def _fancy(rc, g, op, what):
    m = lay(g, mask(g, op["n"], op["dens"]), op["st"])
    c = np.array(m)
    r = rc.BooleanToFancy(m)
    same(what, r, np.flatnonzero(c).astype(np.int32), "fancy")
    r = rc.BooleanToFancy(m, both=True)
    same(what + " both", r[0], np.concatenate([np.flatnonzero(c), np.flatnonzero(~c)]).astype(np.int32), "fancy-both")
    if r[1] != int(c.sum()):
        violate("fancy-both", "%s: cutoff %d, expected %d" % (what, r[1], int(c.sum())))


def _reg(rc, g, op, what):
    n, t = op["n"], np.dtype(D[op["i"]])
    p = op["parts"]
    ic = np.sort(g.integers(0, n + 1, p)).astype(np.int64)
    ic[-1] = n
    usz = g.integers(0, 40 if t.itemsize == 1 else 300, p)
    uc = np.cumsum(usz).astype(np.int64)
    total = int(uc[-1])
    uk = g.integers(1, 100, total).astype(np.int32)
    key = g.integers(-1, 60, n).astype(t)
    want = key.copy()
    s = us = 0
    for a, b in zip(ic, uc):
        sl = key[s:a].astype(np.int64)
        lim = total - us
        ok = (sl > 0) & (sl <= lim)
        w = np.zeros(len(sl), t)
        w[ok] = uk[us + sl[ok] - 1].astype(t)
        want[s:a] = w
        s, us = a, b
    r = rc.ReIndexGroups(key, uk, uc, ic)
    if r is not key:
        violate("reindexgroups", what + ": result is not the given array")
    same(what, key, want, "reindexgroups")


def _set(rc, g, op, what):
    n = op["n"]
    a = lay(g, arr(g, op["d"], n), op["st"])
    c = mask(g, n, op["dens"])
    m = lay(g, c, op["st2"])
    k = {"match": int(c.sum()), "one": 1, "wrong": int(c.sum()) + 2}[op["len"]]
    v = lay(g, arr(g, op["d"], k), op["st3"]) if k else arr(g, op["d"], 0)
    before = np.array(a)
    fr = ops.frozen(m, v)
    r = rc.SetItem(a, m, v)
    ops.check_frozen(fr, what, violate)
    if r is True:
        if op["len"] == "wrong":
            violate("setitem", "%s: %d values for %d places accepted" % (what, k, int(c.sum())))
        before[c] = np.array(v)
    same(what + " done %s" % r, np.array(a), before, "setitem")
    probe("setitem.%s" % r)


def castable(g, d, d2, n, safe):
    """Values of type d that convert to d2 without overflow (and the sentinel of d)."""
    t, t2 = np.dtype(D[d]), np.dtype(D[d2])
    a = arr(g, d, n)
    if t.kind == "f":
        if t2.kind in "iu":
            ii = np.iinfo(t2)
            lo, hi = max(ii.min + 1, -2 ** 23), min(ii.max - 1, 2 ** 23)
            x = g.uniform(lo, hi, n).astype(t)
            x[g.random(n) < .3] = g.integers(max(lo, -5), 6)
            if safe:
                x[g.random(n) < .1] = np.nan
            return x
        x = (g.standard_normal(n) * 10.0 ** g.integers(-3, 20, n)).astype(t)
        x[g.random(n) < .05] = np.nan
        x[g.random(n) < .05] = np.inf
        x[g.random(n) < .05] = -0.0
        return x
    return a


def convert(a, d2, safe):
    """Reference conversion: the invalid of one type becomes the invalid of the other."""
    t, t2 = a.dtype, np.dtype(D[d2])
    if t == t2:
        return a.copy()
    if t2.kind == "b":
        return None
    with np.errstate(all="ignore"):
        if t.kind == "f" and t2.kind in "iu":
            r = np.where(np.isnan(a), 0, a).astype(t2)
        else:
            r = a.astype(t2)
    if safe and t.kind in "iuf":
        r[ops.isinv(a)] = ops.invalid(t2)
    return r


def _put(rc, g, op, what):
    n = op["n"]
    a = lay(g, arr(g, op["d2"], n), op["st"])
    c = mask(g, n, op["dens"])
    m = lay(g, c, op["st2"])
    v = lay(g, castable(g, op["d"], op["d2"], n, True), op["st3"])
    before = np.array(a)
    fr = ops.frozen(m, v)
    r = rc.PutMask(a, m, v)
    ops.check_frozen(fr, what, violate)
    if r is True:
        w = convert(np.array(v), op["d2"], True)
        if w is None:
            w = np.array(v) != 0
            nan = ops.isinv(np.array(v)) if v.dtype.kind == "f" else np.zeros(n, bool)
            w[nan] = np.array(a)[nan]
        before[c] = w[c]
    same(what + " done %s" % r, np.array(a), before, "putmask")
    probe("putmask.%s" % r)


def _conv(rc, g, op, what):
    n = op["n"]
    a = lay(g, castable(g, op["d"], op["d2"], n, op["safe"]), op["st"])
    w = convert(np.array(a), op["d2"], op["safe"])
    fr = ops.frozen(a)
    r = (rc.ConvertSafe if op["safe"] else rc.ConvertUnsafe)(a, np.dtype(D[op["d2"]]).num)
    ops.check_frozen(fr, what, violate)
    if w is None:
        c = np.array(a)
        w = c != 0
        odd = ops.isinv(c)
        w[odd] = r[odd]
    same(what, r, w, "convert")


def _conv2(rc, g, op, what):
    """Two and three dimensional arrays, any order and stride."""
    n = op["n"]
    shape = [int(g.integers(1, 12)) for _ in range(int(g.integers(1, 3)))]
    k = int(np.prod(shape))
    shape.insert(int(g.integers(0, len(shape) + 1)), max(1, n // k))
    a = castable(g, op["d"], op["d2"], int(np.prod(shape)), op["safe"]).reshape(shape)
    a = a[tuple(slice(None, None, int(g.choice([1, 1, 2, -1]))) for _ in shape)].transpose([int(x) for x in g.permutation(len(shape))])
    if g.integers(0, 3) == 0:
        a = np.asfortranarray(a)
    flat = convert(np.array(a).ravel(), op["d2"], op["safe"])
    r = (rc.ConvertSafe if op["safe"] else rc.ConvertUnsafe)(a, np.dtype(D[op["d2"]]).num)
    if flat is not None:
        same(what, r, flat.reshape(a.shape), "convert2")


def parts(g, op):
    return [lay(g, arr(g, d, k), st) if k else arr(g, d, 0) for d, k, st in op["ds"]]


def upcast(rc, xs):
    """Common type; the module counts booleans as signed integers."""
    ts = [x.dtype for x in xs]
    t = np.result_type(*ts)
    if "b" in [x.kind for x in ts] and "u" in [x.kind for x in ts]:
        t = np.result_type(np.int8, *[x for x in ts if x.kind != "b"])
    return [k for k in ALL if np.dtype(D[k]) == t][0]


def _hst(rc, g, op, what):
    xs = parts(g, op)
    d2 = "f8" if op["dt"] else upcast(rc, xs)
    fr = ops.frozen(*xs)
    r = rc.HStack(xs, np.dtype(D[d2]).num) if op["dt"] else rc.HStack(xs)
    ops.check_frozen(fr, what, violate)
    same(what, r, np.concatenate([convert(np.array(x), d2, True) for x in xs]), "hstack")


def _hss(rc, g, op, what):
    xs = parts(g, op)
    fr = ops.frozen(*xs)
    r = rc.HStack(xs)
    ops.check_frozen(fr, what, violate)
    same(what, r, np.concatenate(xs), "hstack")


def _hom(rc, g, op, what):
    n = min(op["n"], 40000)
    xs = [lay(g, arr(g, d, n), st) for d, _, st in op["ds"]]
    d2 = upcast(rc, xs)
    fr = ops.frozen(*xs)
    r = rc.HomogenizeArrays(xs, -1)
    ops.check_frozen(fr, what, violate)
    if len(r) != len(xs):
        violate("homogenize", "%s: %d arrays, expected %d" % (what, len(r), len(xs)))
    for x, y in zip(xs, r):
        same(what, np.array(y), convert(np.array(x), d2, True), "homogenize")


def _shift(rc, g, op, what):
    n = op["n"]
    by = {"n": n, "-n": -n, "n-1": n - 1, "2n": 2 * n}.get(op["by"], op["by"])
    xs, want = [], []
    for d, st, dim in op["ds"]:
        if dim == 2:
            a = np.asfortranarray(arr(g, d, n * 3).reshape(n, 3)) if n > 1 else arr(g, d, n)
        else:
            a = lay(g, arr(g, d, n), st)
        w = np.array(a)
        if by >= 0 and by < n:
            w[: n - by] = np.array(a)[by:]
        elif by < 0 and -by < n:
            w[-by:] = np.array(a)[: n + by]
        xs.append(a)
        want.append(w)
    rc.ShiftArrays(xs, by)
    for a, w in zip(xs, want):
        same(what, np.array(a), w, "shift")


def _rei(rc, g, op, what):
    n = op["n"]
    v = lay(g, arr(g, op["d"], n), op["st"])
    i = lay(g, g.integers(0, n, n).astype(D[op["i"]]), op["st2"])
    fr = ops.frozen(v, i)
    r = rc.ReIndex(i, v)
    ops.check_frozen(fr, what, violate)
    same(what, r, np.array(v)[np.array(i)], "reindex")


def _cf(rc, g, op, what):
    n = op["n"]
    k = lay(g, arr(g, op["i"], n), op["st"])
    c = mask(g, n, op["dens"])
    m = lay(g, c, op["st2"])
    r = rc.CombineFilter(k, m)
    same(what, r, np.where(c, np.array(k), 0).astype(k.dtype), "combinefilter")


def _rts(rc, g, op, what):
    n = min(op["n"], 40000)
    a = arr(g, op["d"], n)
    w = a.dtype.itemsize // (1 if a.dtype.kind == "S" else 4)
    for _ in range(3):
        c = g.random(n) < .3
        k = int(g.integers(0, w + 1))
        x = np.array([(s[:k] if k else s[:0]).ljust(w, b" " if a.dtype.kind == "S" else " ") for s in a[c]], dtype=a.dtype)
        if len(x):
            a[c] = x
    sp = b" " if a.dtype.kind == "S" else " "
    want = np.array([s.rstrip(sp) for s in a.tolist()], dtype=a.dtype)
    r = rc.RemoveTrailingSpaces(a)
    if r is None or r is False:
        violate("trailing", what + ": not done")
    same(what, np.array(r), want, "trailing")


def _bits(rc, g, op, what):
    a = lay(g, arr(g, op["d"], op["n"]), op["st"])
    r = rc.BitCount(a)
    c = np.array(a)
    w = np.unpackbits(np.ascontiguousarray(c).view(np.uint8).reshape(len(c), c.itemsize), axis=1).sum(axis=1).astype(r.dtype)
    same(what, np.array(r), w, "bitcount")
