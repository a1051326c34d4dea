"""P04: elementwise operations."""
import numpy as np
import common, ops, simapi
from ops import D, ALL, NUM, INTS, FLTS, arr, rng_of, same, where_diff
from simapi import violate, probe

shrink = ops.shrink_ops
TWO = {1: np.add, 2: np.subtract, 3: np.multiply, 6: np.minimum, 7: np.maximum, 5: None, 10: np.floor_divide, 11: None, 101: np.true_divide,
       401: np.equal, 402: np.not_equal, 403: np.less, 404: np.greater, 405: np.less_equal, 406: np.greater_equal,
       407: np.logical_and, 409: np.logical_or, 503: np.bitwise_and, 504: np.bitwise_xor, 505: np.bitwise_or, 12: None, 506: None}
CMP = [401, 402, 403, 404, 405, 406]


def _nan(a):
    return ops.isinv(a)


def _fin(a):
    return ~ops.isinv(a) if a.dtype.kind in "iu" else np.isfinite(a)


ONE = {201: (np.abs, ["i1", "i2", "i4", "i8", "f4", "f8"]), 202: (np.negative, ["i1", "i2", "i4", "i8", "f4", "f8"]),
       204: (np.invert, ["b1"] + INTS), 205: (np.floor, FLTS), 206: (np.ceil, FLTS), 207: (np.trunc, FLTS), 208: (np.round, FLTS),
       212: (np.negative, ["i1", "i2", "i4", "i8", "f4", "f8"]), 214: (np.sign, ["i1", "i2", "i4", "i8", "f4", "f8"]),
       216: (np.exp, ["i4", "u4", "i8", "f4", "f8"]), 217: (np.exp2, ["i4", "i8", "f4", "f8"]), 301: (np.sqrt, ["i4", "u4", "i8", "f4", "f8"]),
       302: (np.log, ["i4", "u4", "i8", "f4", "f8"]), 304: (np.log10, ["i4", "u4", "i8", "f4", "f8"]), 308: (np.cbrt, ["i4", "u4", "i8"]),
       601: (np.logical_not, ALL), 603: (np.isinf, ALL), 604: (_nan, ALL), 605: (_fin, ALL), 607: (lambda a: ~np.isinf(a), ALL),
       608: (lambda a: ~_nan(a), ALL), 609: (lambda a: ~_fin(a), ALL), 611: (lambda a: _nan(a) | (a == 0), ALL), 612: (np.signbit, FLTS),
       606: (None, ALL), 610: (None, ALL), 701: (np.invert, ["b1"] + INTS)}


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["two"] * 5 + ["one"] * 3 + ["where"] * 2 + ["conv"] * 3 + ["cf", "ca", "bit"])
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng)}
        if rng.random() < 0.12:
            op["st"] = 9
        if k == "two":
            op["f"] = rng.choice(list(TWO) + CMP)
            op["a"] = rng.choice(ALL)
            op["b"] = rng.choice([op["a"]] * 3 + ALL)
            op["m"] = rng.choice(["aa", "aa", "aa", "as", "sa"])
            op["o"] = rng.choice([0, 0, 0, 1, 2])
            if rng.random() < 0.15:
                op["st"] = rng.choice([2, 3, -1])
        elif k == "one":
            op["f"] = rng.choice(list(ONE))
            op["a"] = rng.choice(ONE[op["f"]][1])
            op["u"] = rng.randint(0, 1)
            if rng.random() < 0.25:
                op["st"] = rng.choice([2, 3, -1])
        elif k == "where":
            op["a"] = rng.choice(ALL + ["S5", "U3", "S3"])
            op["m"] = rng.choice(["aa", "aa", "as", "sa", "ss"])
        elif k == "conv":
            op["a"] = rng.choice(ALL)
            op["b"] = rng.choice(ALL)
            op["u"] = rng.randint(0, 1)
            if rng.random() < 0.2:
                op["st"] = rng.choice([2, 3])
        elif k in ("cf", "ca"):
            op["a"] = rng.choice(["i1", "i2", "i4", "i8"])
            op["b"] = rng.choice(["i1", "i2", "i4", "i8"])
            op["flt"] = rng.choice([0, 1])
        elif k == "bit":
            op["a"] = rng.choice(INTS + ["b1"])
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def pieces(g, n):
    """Random cut points, every piece too short to be split over threads."""
    cuts = [0]
    while cuts[-1] < n:
        step = int(g.integers(2, ops.PAR - 2)) if g.random() < 0.7 else int(g.integers(2, 40))
        cuts.append(n if cuts[-1] + step > n - 2 else cuts[-1] + step)    # a piece of one element counts as a scalar
    return [(x, y) for x, y in zip(cuts, cuts[1:]) if y > x]


def piecewise(g, n, call):
    out = []
    for x, y in pieces(g, n):
        r = call(x, y)
        if r is None:
            return None
        out.append(r)
    return np.concatenate(out)


def verdict(what, r, e, tol=0.0):
    if not same(r, e, tol):
        violate("mismatch", "%s: %s" % (what, where_diff(r, e)))
    simapi.note(np.ascontiguousarray(r))


def strided(a, st, g):
    if st == 9:                              # contiguous, not aligned to the item
        b = np.zeros(a.nbytes + 64, "u1")
        k = int(g.integers(1, 17))
        v = b[k:k + a.nbytes].view(a.dtype)
        v[:] = a
        return v
    if st == -1:
        return np.ascontiguousarray(a[::-1])[::-1]
    b = np.empty(len(a) * st, a.dtype)
    b[:] = np.resize(a, len(b)) if len(a) else 0
    v = b[::st]
    v[:] = a
    return v


def op_two(rc, g, o):
    f, n = o["f"], o["n"]
    what = "BasicMathTwoInputs fn=%d %s,%s %s n=%d" % (f, o["a"], o["b"], o["m"], n)
    style = "full" if o["a"] == o["b"] else "small"
    if f in (11, 5, 12, 10):
        style = "small"
    a, b = arr(g, o["a"], n, style), arr(g, o["b"], n, style)
    if f in (5, 10, 12) and b.dtype.kind in "iub":
        b[b == 0] = 1
    if f in (5, 10, 12) and b.dtype.kind == "i":
        b[b == -1] = 1
    if f == 11 and b.dtype.kind != "b":
        b = (np.abs(b) % 3).astype(b.dtype)
    if f == 11:
        with np.errstate(all="ignore"):
            a = np.nan_to_num(a) if a.dtype.kind == "f" else a
            b = np.nan_to_num(b) if b.dtype.kind == "f" else b
    if o.get("st"):
        a = strided(a, o["st"], g)
    A, B = a, b
    if o["m"] == "as":
        B = b[int(g.integers(0, n))]
        b = np.full(n, B, b.dtype)
    elif o["m"] == "sa":
        A = a[int(g.integers(0, n))]
        a = np.full(n, A, a.dtype)
    fr = ops.frozen(A, B) if o["m"] == "aa" else []
    r0 = None
    out = None
    if o["o"] and o["a"] == o["b"]:
        # learn the dtype of the result from a short call, then supply the output array
        q = rc.BasicMathTwoInputs((A[:5] if np.ndim(A) else A, B[:5] if np.ndim(B) else B), f, 0)
        if isinstance(q, np.ndarray):
            out = np.zeros(n, q.dtype)
            if o["o"] == 2 and isinstance(A, np.ndarray) and A.dtype == q.dtype and not o.get("st"):
                out = A.copy()
                A, fr = out, []
    r = rc.BasicMathTwoInputs((A, B, out) if out is not None else (A, B), f, 0)
    if not isinstance(r, np.ndarray):
        probe("two-punt")
        return
    if out is not None and r is not out and not np.shares_memory(r, out):
        probe("two-out-ignored")
    if r.dtype.kind not in "biuf" or len(r) != n:
        violate("mismatch", what + ": result %s of length %d" % (r.dtype, len(r)))
    ops.check_frozen(fr, what, violate)
    probe("two")
    tol = 1e-5 if r.dtype.itemsize <= 4 and r.dtype.kind == "f" else 0.0
    with np.errstate(all="ignore"):
        nf = TWO[f]
        fl = "f" in (a.dtype.kind, b.dtype.kind)
        if f == 10 and fl:
            nf = None
        if f == 5 and not fl and "b" not in (a.dtype.kind, b.dtype.kind) and r.dtype.kind in "iu":
            nf = np.fmod
        if f == 2 and a.dtype.kind == b.dtype.kind == "b":
            nf = None
        if o["m"] != "aa" and o["a"] != o["b"]:
            nf = None          # scalar promotion rules are the module's own
        if nf is not None:
            e = nf(a, b)
            if f < 400:
                e = e.astype(r.dtype) if e.dtype != r.dtype else e
            verdict(what, r, e, tol)
            return
    probe("two-piecewise")
    A2, B2 = (a if np.ndim(A) else A), (b if np.ndim(B) else B)
    e = piecewise(g, n, lambda x, y: rc.BasicMathTwoInputs((A2[x:y] if np.ndim(A) else A, B2[x:y] if np.ndim(B) else B), f, 0))
    if e is None or not isinstance(e, np.ndarray):
        return
    verdict(what + " (piecewise)", r, e, tol or 1e-12)


def op_one(rc, g, o):
    f, n = o["f"], o["n"]
    nf, _ = ONE[f]
    what = "unary fn=%d %s n=%d" % (f, o["a"], n)
    a = arr(g, o["a"], n)
    if f in (216, 217):
        a = (a % 50).astype(a.dtype) if a.dtype.kind == "i" else arr(g, o["a"], n, "pos")
    if f in (301, 302, 304) and a.dtype.kind == "u":
        a = a >> np.array(1).astype(a.dtype)
    if o.get("st"):
        a = strided(a, o["st"], g)
    fr = ops.frozen(a)
    r = rc.BasicMathOneInput((a,), f, 0) if not o["u"] else rc.BasicMathUnaryOp(a, f)
    if not isinstance(r, np.ndarray):
        probe("one-punt")
        return
    ops.check_frozen(fr, what, violate)
    probe("one")
    with np.errstate(all="ignore"):
        if nf is not None:
            e = nf(a)
            tol = 0.0 if f > 600 or f < 216 else (1e-4 if r.dtype.itemsize == 4 else 1e-9)
            verdict(what, r, e, tol)
            return
    c = np.ascontiguousarray(a)
    e = piecewise(g, n, lambda x, y: rc.BasicMathOneInput((c[x:y],), f, 0))
    if e is not None:
        verdict(what + " (piecewise)", r, e)


def op_where(rc, g, o):
    n = o["n"]
    c = arr(g, "b1", n)
    if g.random() < .1:
        c[:] = True
    a, b = arr(g, o["a"], n), arr(g, o["a"], n)
    if o.get("st"):
        a = strided(a, 9, g)
        if g.random() < .5:
            b = strided(b, 9, g)
    A, B = a, b
    if o["m"][0] == "s":
        A = a[0]
        a = np.full(n, A, a.dtype)
    if o["m"][1] == "s":
        B = b[0]
        b = np.full(n, B, b.dtype)
    if a.dtype.kind in "SU" and o["m"] != "aa":
        A = A if o["m"][0] != "s" else A.item()
        B = B if o["m"][1] != "s" else B.item()
    fr = ops.frozen(c, a, b)
    r = rc.Where(c, (A, B), a.dtype.num, a.dtype.itemsize)
    if not isinstance(r, np.ndarray):
        probe("where-punt")
        return
    probe("where")
    ops.check_frozen(fr, "Where", violate)
    verdict("Where %s %s n=%d" % (o["a"], o["m"], n), r, np.where(c, a, b))


def op_conv(rc, g, o):
    n = o["n"]
    a = arr(g, o["a"], n)
    t = np.dtype(D[o["b"]])
    inv = ops.isinv(a)
    if a.dtype.kind in "iu" and t.kind in "iu":
        # keep to values both types hold, except the invalid marker
        ii, jj = np.iinfo(a.dtype), np.iinfo(t)
        lo, hi = max(ii.min, jj.min + (1 if t.kind == "i" else 0)), min(ii.max, jj.max - (1 if t.kind == "u" else 0))
        a = np.where(inv, a, np.clip(a, np.array(lo).astype(a.dtype), np.array(hi).astype(a.dtype)))
    elif a.dtype.kind == "f" and t.kind in "iu":
        with np.errstate(all="ignore"):
            a = np.where(np.isfinite(a), np.abs(a) % 100, a).astype(a.dtype)
        a[np.isinf(a)] = 1
    inv = ops.isinv(a)
    if o["u"] and not np.array_equal(inv, np.zeros(n, bool)) and (a.dtype.kind == "f" and t.kind != "f"):
        a[inv] = 3
        inv = ops.isinv(a)
    st = o.get("st")
    if st:
        a = strided(a, st, g)
    fr = ops.frozen(a)
    r = (rc.ConvertUnsafe if o["u"] else rc.ConvertSafe)(a, t.num)
    if not isinstance(r, np.ndarray):
        probe("conv-punt")
        return
    probe("conv")
    what = "%s %s->%s n=%d%s" % ("ConvertUnsafe" if o["u"] else "ConvertSafe", o["a"], o["b"], n, " strided" if st else "")
    ops.check_frozen(fr, what, violate)
    with np.errstate(all="ignore"):
        e = a.astype(t)
    if not o["u"] and a.dtype != t and t.kind != "b" and a.dtype.kind != "b":
        e[inv] = ops.invalid(t)
    if t.kind == "b" and a.dtype.kind != "b":
        e2 = piecewise(g, n, lambda x, y: (rc.ConvertUnsafe if o["u"] else rc.ConvertSafe)(np.ascontiguousarray(a[x:y]), t.num))
        verdict(what + " (piecewise)", r, e2)
        return
    verdict(what, r, e)


def op_cf(rc, g, o):
    n = o["n"]
    k = g.integers(0, 100, n).astype(D[o["a"]])
    f = arr(g, "b1", n)
    fr = ops.frozen(k, f)
    r = rc.CombineFilter(k, f)
    ops.check_frozen(fr, "CombineFilter", violate)
    probe("combine")
    verdict("CombineFilter %s n=%d" % (o["a"], n), r, np.where(f, k, np.array(0, k.dtype)))


def op_ca(rc, g, o):
    n = o["n"]
    ma, mb = int(g.integers(1, 90)), int(g.integers(1, 90))
    a = g.integers(0, ma + 1, n).astype(D[o["a"]])
    b = g.integers(0, mb + 1, n).astype(D[o["b"]])
    f = arr(g, "b1", n) if o["flt"] else None
    fr = ops.frozen(a, b)
    r = rc.CombineAccum2Filter(a, b, ma, mb, f)
    ops.check_frozen(fr, "CombineAccum2Filter", violate)
    probe("combine")
    ik = r[0] if isinstance(r, tuple) else r
    e = b.astype("i8") * (ma + 1) + a
    if f is not None:
        e = np.where(f, e, 0)
    if not np.array_equal(ik.astype("i8"), e):
        violate("mismatch", "CombineAccum2Filter n=%d: %s" % (n, where_diff(ik.astype("i8"), e)))
    simapi.note(ik)


def op_bit(rc, g, o):
    n = o["n"]
    a = arr(g, o["a"], n)
    r = rc.BitCount(a)
    probe("bit")
    w = a.dtype.itemsize
    u = a.view("u1").reshape(n, w)
    e = np.unpackbits(u, axis=1).sum(axis=1)
    verdict("BitCount %s n=%d" % (o["a"], n), r.astype("i8"), e.astype("i8"))


OPS = dict(two=op_two, one=op_one, where=op_where, conv=op_conv, cf=op_cf, ca=op_ca, bit=op_bit)


def run(w):
    rc = simapi.load()
    for o in w["ops"]:
        OPS[o["k"]](rc, rng_of(o["s"]), o)
