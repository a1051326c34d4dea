"""P06: grouping rows by key."""
import numpy as np
import common, ops, simapi
from ops import D, ALL, INTS, arr, rng_of
from simapi import violate, probe

shrink = ops.shrink_ops
KD = ALL + ["S1", "S2", "S4", "S5", "S8", "S11", "S16", "U1", "U2", "U5"]


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["gb"] * 7 + ["sup", "uniq", "uniq", "mkh", "roll"] + ["bin"] * 3 + ["next", "first", "acc1", "acc2"])
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng, big=0.6, cap=90000)}
        if k in ("gb", "sup", "uniq", "mkh", "roll"):
            op["ks"] = [[rng.choice(KD), rng.choice(["full", "dup", "small", "few", "few"])] for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
            op["flt"] = rng.choice(["no", "no", "half", "half", "most", "none", "all"])
            op["hint"] = rng.choice(["0", "0", "0", "exact", "n", "2n", "small"])
            op["mode"] = rng.choice([2, 2, 1])
            if op["mode"] == 1:
                op["n"] = min(op["n"], 3000)     # prime mode degenerates to long probe chains
            op["cut"] = rng.choice([0, 0, 2, 3, 7, 20]) if k == "gb" else 0
        else:
            op["kd"] = rng.choice(["i1", "i2", "i4", "i8"])
            op["u"] = rng.choice([1, 2, 5, 50, 120, 1000, 20000])
            op["flt"] = rng.choice(["no", "half", "most", "none"])
            if k == "acc2":
                op["kd2"] = rng.choice(["i1", "i2", "i4", "i8"])
                op["u"] = min(op["u"], 300)
                op["u2"] = rng.choice([1, 2, 7, 100])
            if k == "next" and rng.random() < 0.8:
                op["kd"] = rng.choice(["i4", "i8"])      # the result has the key's type: positions must fit in it
            op["sk"] = rng.random() < 0.3
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def mkfilter(g, n, kind):
    if kind == "no":
        return None
    if kind == "half":
        return g.integers(0, 2, n).astype(bool)
    if kind == "most":
        f = g.random(n) > 0.05
        f[: int(g.integers(0, 3))] = False
        return f
    return np.full(n, kind == "all")


def mkkey(g, d, n, style):
    if style == "few":
        a = arr(g, d, max(2, int(g.integers(2, 700))), "full")
        return a[g.integers(0, len(a), n)]
    return arr(g, d, n, style)


def codes(keys):
    c = None
    for a in keys:
        u, inv = np.unique(a, return_inverse=True)
        inv = inv.reshape(len(a)).astype("i8")
        c = inv if c is None else np.unique(c * (len(u) + 1) + inv, return_inverse=True)[1].reshape(len(a)).astype("i8")
    return c


def group(c, f=None):
    """Reference grouping: (1-based first-occurrence numbers with 0 for filtered rows, first rows)."""
    n = len(c)
    rows = np.arange(n) if f is None else np.flatnonzero(f)
    out = np.zeros(n, "i8")
    if not len(rows):
        return out, np.zeros(0, "i8")
    u, first, inv = np.unique(c[rows], return_index=True, return_inverse=True)
    order = np.argsort(first, kind="stable")
    rank = np.empty(len(u), "i8")
    rank[order] = np.arange(len(u))
    out[rows] = rank[inv.reshape(len(rows))] + 1
    return out, rows[first[order]]


def eq(got, exp, what, field):
    got = np.asarray(got)
    if got.shape != exp.shape or not np.array_equal(got, exp):
        violate("mismatch", "%s: %s: %s" % (what, field, ops.where_diff(got, exp)))


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        g = rng_of(op["s"])
        globals()["_" + op["k"]](rc, g, op, "op %d %s" % (i, op))
        probe("parallel" if op["n"] >= ops.PAR else "serial")


def setup(g, op, packed=False):
    n = op["n"]
    keys = [mkkey(g, d, n, st) for d, st in op["ks"]]
    f = mkfilter(g, n, op["flt"])
    c = codes(keys)
    ek, ef = group(c, f)
    nu = len(ef)
    h = {"0": 0, "exact": max(nu, 1), "n": n, "2n": 2 * n, "small": max(1, nu // 50)}[op["hint"]]
    return n, keys, f, c, ek, ef, nu, h


def small_hint(e, op, h, nu):
    """A table sized for fewer keys than there are may be refused with an error."""
    if isinstance(e, ValueError) and 0 < h < nu:
        probe("hint-too-small-refused")
        return True
    return False


def _gb(rc, g, op, what):
    n, keys, f, c, ek, ef, nu, h = setup(g, op)
    fr = ops.frozen(*keys, *([f] if f is not None else []))
    kw = {}
    if op["cut"]:
        cuts = np.sort(g.integers(0, n + 1, op["cut"])).astype("i8")
        cuts[-1] = n
        cuts = np.unique(cuts)
        cuts = cuts[cuts > 0]
        kw["cutoffs"] = cuts
        if h < nu:
            h = 0 if op["s"] % 2 else max(1, h // 4)
    try:
        r = rc.MultiKeyGroupBy32(keys, h, f, op["mode"], **kw)
    except ValueError as e:
        if not small_hint(e, op, h, nu):
            raise
        r = rc.MultiKeyGroupBy32(keys, 0, f, op["mode"], **kw)
    ops.check_frozen(fr, what, violate)
    if not op["cut"]:
        eq(r[0], ek, what, "group numbers")
        eq(r[1], ef, what, "first rows")
        if r[2] != nu:
            violate("mismatch", "%s: %d groups instead of %d" % (what, r[2], nu))
        probe("groupby.%d-keys" % len(keys))
    else:
        st = 0
        eks, efs, cum = [], [], []
        for e in cuts:
            a, b = group(c[st:e], None if f is None else f[st:e])
            eks.append(a)
            efs.append(b)
            cum.append(len(b) + (cum[-1] if cum else 0))
            st = e
        eq(r[0], np.concatenate(eks), what, "group numbers per partition")
        eq(r[1][0], np.concatenate(efs), what, "first rows per partition")
        eq(r[1][1], np.array(cum), what, "cumulative group counts")
        if r[2] != cum[-1]:
            violate("mismatch", "%s: %d groups instead of %d" % (what, r[2], cum[-1]))
        probe("groupby.cutoffs")
    simapi.note(np.asarray(r[0]))


def nexts(ek, back=False):
    n = len(ek)
    o = np.argsort(ek, kind="stable")
    out = np.full(n, -1, "i8")
    same = ek[o][1:] == ek[o][:-1]
    if back:
        out[o[1:][same]] = o[:-1][same]
    else:
        out[o[:-1][same]] = o[1:][same]
    out[ek == 0] = -1
    return out


def _sup(rc, g, op, what):
    n, keys, f, c, ek, ef, nu, h = setup(g, op)
    fr = ops.frozen(*keys)
    try:
        r = rc.MultiKeyGroupBy32Super(keys, h, f, op["mode"])
    except ValueError as e:
        if not small_hint(e, op, h, nu):
            raise
        r = rc.MultiKeyGroupBy32Super(keys, 0, f, op["mode"])
    ops.check_frozen(fr, what, violate)
    eq(r[0], ek, what, "group numbers")
    eq(r[2], ef, what, "first rows")
    m = ek > 0
    eq(np.asarray(r[1])[m], nexts(ek)[m], what, "next rows")
    eq(r[3], np.bincount(ek[m], minlength=nu + 1)[1:], what, "counts")
    probe("groupby-super")


def _uniq(rc, g, op, what):
    n, keys, f, c, ek, ef, nu, h = setup(g, op)
    fr = ops.frozen(*keys)
    try:
        r = rc.MultiKeyUnique32(keys, h, f)
    except ValueError as e:
        if not small_hint(e, op, h, nu):
            raise
        r = rc.MultiKeyUnique32(keys, 0, f)
    ops.check_frozen(fr, what, violate)
    eq(r[0], ef, what, "first rows")
    eq(r[1], np.bincount(ek[ek > 0], minlength=nu + 1)[1:], what, "counts")
    probe("unique")


def _mkh(rc, g, op, what):
    op = dict(op, flt="no")
    n, keys, f, c, ek, ef, nu, h = setup(g, op)
    r = rc.MultiKeyHash(keys)
    eq(r[0], ek, what, "group numbers")
    o = np.argsort(ek, kind="stable")
    cnt = np.bincount(ek, minlength=nu + 1)
    start = np.cumsum(cnt) - cnt
    nth = np.empty(n, "i8")
    nth[o] = np.arange(n) - start[ek[o]] + 1
    last = np.zeros(nu + 1, "i8")
    last[ek] = np.arange(n)
    eq(r[1], nth, what, "occurrence numbers")
    eq(r[2], cnt[ek], what, "group sizes")
    eq(r[3], nexts(ek, True), what, "previous rows")
    eq(r[4], nexts(ek), what, "next rows")
    eq(r[5], ef[ek - 1], what, "first rows")
    eq(r[6], last[ek], what, "last rows")
    probe("multikeyhash")


def _roll(rc, g, op, what):
    op = dict(op, flt="no", n=min(op["n"], 40000))
    n, keys, f, c, ek, ef, nu, h = setup(g, op)
    parts = 1 + int(g.integers(0, 4))
    cuts = [0] + sorted(int(x) for x in g.integers(1, n, parts - 1)) + [n] if n > 1 else [0, n]
    ptr = None
    cnt = np.zeros(nu + 1, "i8")
    a = []
    for x, y in zip(cuts, cuts[1:]):
        if y <= x:
            continue
        kk = tuple(k[x:y].copy() for k in keys)
        if sum(k.itemsize for k in keys) > 16:
            try:
                rc.MultiKeyRolling(kk, 16)
            except ValueError:
                probe("rolling-too-wide-refused")
                return
            violate("mismatch", "%s: keys wider than 16 bytes accepted" % what)
        if ptr is None and nu > 70000:
            try:
                rc.MultiKeyRolling(tuple(keys), 1)
                violate("mismatch", "%s: %d groups fit a table of one" % (what, nu))
            except ValueError:
                probe("rolling-full-refused")
        if ptr is None:
            r = rc.MultiKeyRolling(kk, max(2 * nu, 16))
        else:
            r = rc.MultiKeyRolling(kk, 0, ptr)
        if ptr is not None and r[3] != ptr:
            violate("mismatch", "%s: the kept hash changed" % what)
        ptr = r[3]
        e = ek[x:y]
        o = np.argsort(e, kind="stable")
        c0 = np.bincount(e, minlength=nu + 1)
        start = np.cumsum(c0) - c0
        nth = np.empty(y - x, "i8")
        nth[o] = np.arange(y - x) - start[e[o]] + 1
        eq(r[0], e - 1, what, "bins")
        eq(r[1], nth + cnt[e], what, "running counts")
        cnt += c0
        if r[2] != int(e.max() if not a else max(e.max(), a[-1])):
            violate("mismatch", "%s: %d groups so far instead of %d" % (what, r[2], e.max()))
        a.append(r[2])
        if g.integers(0, 2):
            z = g.integers(0, 5, 50)
            eq(rc.MultiKeyGroupBy32([z], 0, None, 2)[0], group(z)[0], what, "grouping between rolling calls")
    rc.MultiKeyRolling((keys[0],), -1, ptr)
    probe("rolling-hash")


def mkbins(g, op, name="kd", un="u", base=0):
    n = op["n"]
    d = op[name]
    u = min(op[un], np.iinfo(D[d]).max - 2)
    if op.get("sk"):
        k = np.minimum((g.random(n) ** 6 * (u + 1)).astype("i8"), u)
    else:
        k = g.integers(0, u + 1, n)
    return u, k.astype(D[d])


def _bin(rc, g, op, what):
    n = op["n"]
    u, k = mkbins(g, op)
    e = np.bincount(k, minlength=u + 1)
    fr = ops.frozen(k)
    c = rc.BinCount(k, u + 1)
    eq(c, e, what, "BinCount")
    eg = np.argsort(k, kind="stable")
    es = np.cumsum(e) - e
    p = rc.BinCount(k, u + 1, pack=True)
    eq(p[0], e, what, "BinCount(pack) counts")
    eq(p[1], eg, what, "BinCount(pack) igroup")
    eq(p[2], es, what, "BinCount(pack) ifirstgroup")
    q = rc.GroupFromBinCount(k, c)
    eq(q[0], eg, what, "GroupFromBinCount igroup")
    eq(q[1], es, what, "GroupFromBinCount ifirstgroup")
    ops.check_frozen(fr, what, violate)
    probe("bincount")
    simapi.note(np.asarray(p[1]))


def _next(rc, g, op, what):
    op = dict(op, n=min(op["n"], np.iinfo(D[op["kd"]]).max))
    u, k = mkbins(g, op)
    for mode in (0, 1):
        r = np.asarray(rc.MakeiNext(k, u + 1, mode))
        o = np.argsort(k, kind="stable")
        e = np.full(len(k), ops.invalid(r.dtype), "i8")
        s = k[o][1:] == k[o][:-1]
        if mode:
            e[o[1:][s]] = o[:-1][s]
        else:
            e[o[:-1][s]] = o[1:][s]
        m = (k > 0) & (e != 0 if mode else True)
        eq(r[m], e[m], what, "MakeiNext mode %d" % mode)
    probe("makeinext")


def _first(rc, g, op, what):
    n = op["n"]
    u, k = mkbins(g, op)
    f = mkfilter(g, n, op["flt"])
    kk = k.astype("i8") if f is None else np.where(f, k, 0)
    for mode in (0, 1):
        r = np.asarray(rc.MakeiFirst(k, u, f, mode))
        e = np.full(u + 1, ops.invalid(r.dtype), "i8")
        rows = np.arange(n)
        if mode:
            e[kk] = rows
        else:
            e[kk[::-1]] = rows[::-1]
        e[0] = ops.invalid(r.dtype)
        eq(r, e, what, "MakeiFirst mode %d" % mode)
    probe("makeifirst")


def _acc1(rc, g, op, what):
    n = op["n"]
    u, k = mkbins(g, op)
    f = mkfilter(g, n, op["flt"])
    fr = ops.frozen(k)
    r = rc.CombineAccum1Filter(k, u, f)
    ops.check_frozen(fr, what, violate)
    m = k > 0 if f is None else (k > 0) & f
    ek, ef = group(k.astype("i8"), m)
    eq(r[0], ek, what, "CombineAccum1Filter keys")
    eq(r[1], ef, what, "CombineAccum1Filter first rows")
    if r[2] != len(ef):
        violate("mismatch", "%s: %d groups instead of %d" % (what, r[2], len(ef)))
    probe("combineaccum1")


def _acc2(rc, g, op, what):
    n = op["n"]
    u1, k1 = mkbins(g, op)
    u2, k2 = mkbins(g, op, "kd2", "u2")
    f = mkfilter(g, n, op["flt"])
    r = rc.CombineAccum2Filter(k1, k2, u1, u2, f)
    e = k2.astype("i8") * (u1 + 1) + k1
    if f is not None:
        e[~f] = 0
    eq(r[0], e, what, "CombineAccum2Filter keys")
    probe("combineaccum2")
