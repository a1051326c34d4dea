"""Shared helpers of the array workloads (simulated side and orchestrator side)."""
import numpy as np

D = dict(b1=np.bool_, i1=np.int8, u1=np.uint8, i2=np.int16, u2=np.uint16, i4=np.int32, u4=np.uint32, i8=np.int64, u8=np.uint64,
         f4=np.float32, f8=np.float64)
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
SINTS = ["i1", "i2", "i4", "i8"]
FLTS = ["f4", "f8"]
NUM = INTS + FLTS
ALL = ["b1"] + NUM
PAR = 0x8000     # length from which work is split
BLK = 0x4000     # block length


def length(rng, big=0.75, cap=110000):
    """Array lengths: mostly long enough to be split, often at block boundaries."""
    if rng.random() > big:
        return rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 1000, BLK - 1, BLK, BLK + 1, PAR - 1])
    r = rng.random()
    if r < 0.5:
        n = BLK * rng.choice([2, 2, 2, 3, 3, 4, 5, 6]) + rng.choice([0, 0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, -1, 100, BLK - 1])
        return max(PAR, min(n, cap))
    return rng.randint(PAR, min(cap, PAR + (20000 if r < 0.8 else 60000)))


def invalid(dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return False
    if dt.kind == "i":
        return np.iinfo(dt).min
    if dt.kind == "u":
        return np.iinfo(dt).max
    if dt.kind == "f":
        return np.nan
    return b"" if dt.kind == "S" else ""


def isinv(a):
    if a.dtype.kind == "f":
        return np.isnan(a)
    if a.dtype.kind in "iu":
        return a == invalid(a.dtype)
    return np.zeros(len(a), bool)


def arr(g, d, n, style="full", nan=0.05):
    """style: full (all values), small (no invalids, small range), dup (few distinct), pos (positive, small)."""
    t = np.dtype(D[d]) if d in D else np.dtype(d)
    if t.kind == "b":
        return g.integers(0, 2, n).astype(bool)
    if t.kind in "SU":
        w = t.itemsize // (1 if t.kind == "S" else 4)
        k = {"dup": 7, "small": 300}.get(style, 10 ** 9)
        v = g.integers(0, k, n)
        al = np.array(list("abcdefghij"))
        out = np.zeros((n, w), dtype="S1" if t.kind == "S" else "U1")
        for i in range(w):
            out[:, i] = al[(v // 10 ** i) % 10] if i < 9 else "z"
        cut = g.integers(0, 20, n)
        if w > 2:
            out[cut == 0, w // 2:] = ""
        return np.ascontiguousarray(out).view(t).reshape(n)
    if t.kind in "iu":
        ii = np.iinfo(t)
        if style == "full":
            a = g.integers(ii.min, ii.max, n, dtype=t, endpoint=True)
            b = g.integers(0 if t.kind == "u" else -9, 10, n).astype(t)
            m = g.random(n)
            out = np.where(m < .5, a, b)
            out[m > .95] = invalid(t)
            return out
        if style == "dup":
            return g.integers(0, 7, n).astype(t)
        if style == "pos":
            return g.integers(1, 100, n).astype(t)
        return g.integers(0 if t.kind == "u" else -100, 100, n).astype(t)
    if style == "dup":
        return g.integers(0, 7, n).astype(t) / 2
    if style == "pos":
        return (g.random(n) * 99 + 1).astype(t)
    a = (g.normal(size=n) * 100).astype(t)
    m = g.random(n)
    a[m > .9] = 0
    if style == "full":
        a[m < nan] = np.nan
        a[(m > .08) & (m < .10)] = np.inf
        a[(m > .10) & (m < .12)] = -np.inf
    return a


def rng_of(seed):
    return np.random.Generator(np.random.PCG64(seed))


def same(r, e, tol=0.0):
    """True when equal (NaN equals NaN); tol: relative tolerance."""
    if r.shape != e.shape:
        return False
    if r.dtype.kind == "f" or e.dtype.kind == "f":
        with np.errstate(all="ignore"):
            eq = (r == e) | ((r != r) & (e != e))
            if eq.all():
                return True
            if tol:
                x, y = r.astype("f8"), e.astype("f8")
                return bool((eq | (np.abs(x - y) <= tol * (np.abs(x) + np.abs(y)))).all())
        return False
    return bool((r == e).all())


def where_diff(r, e):
    if r.shape != e.shape:
        return "shape %s instead of %s" % (r.shape, e.shape)
    with np.errstate(all="ignore"):
        bad = ~((r == e) | ((r != r) & (e != e)))
    i = np.flatnonzero(bad.ravel())
    if not len(i):
        return "none"
    return "%d of %d elements differ, first at %d: %r instead of %r, last at %d" % (len(i), r.size, i[0], r.ravel()[i[0]], e.ravel()[i[0]], i[-1])


def frozen(*arrays):
    return [(a, a.tobytes()) for a in arrays if hasattr(a, "tobytes")]


def check_frozen(fr, what, violate):
    for k, (a, b) in enumerate(fr):
        if a.tobytes() != b:
            violate("input-modified", "%s: input %d was modified" % (what, k))


def shrink_ops(w):
    """Smaller variants of a workload: lengths reduced toward the parallel threshold or below."""
    for i, o in enumerate(w["ops"]):
        n = o.get("n")
        if not n:
            continue
        for m in (10, 100, 1000, PAR, PAR + 1, 2 * BLK + BLK // 2, 3 * BLK, n // 2, (n + PAR) // 2):
            if 0 < m < n:
                y = dict(w)
                y["ops"] = list(w["ops"])
                y["ops"][i] = dict(o, n=m)
                yield y
