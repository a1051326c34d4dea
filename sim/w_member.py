"""P08: membership tests and alignment."""
import numpy as np
import common, ops, simapi
from ops import D, ALL, arr, rng_of
from simapi import violate, probe
from w_math import strided
from w_group import mkkey, KD

shrink = ops.shrink_ops
STRS = ["S1", "S2", "S3", "S4", "S5", "S8", "S11", "S16", "U1", "U2", "U3", "U6"]
CUTS = [1, 2, 99, 100, 101, 126, 127, 128, 129, 255, 1000, 29999, 30000, 32766, 32767, 32768, 32769, 60000]


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["im"] * 4 + ["imc", "imc", "fix", "mk", "mk", "al", "al", "mb"])
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng, big=0.65, cap=100000)}
        op["n2"] = rng.choice(CUTS) if rng.random() < .7 else rng.randint(1, 60000)
        op["st"] = rng.choice([0, 0, 0, 2, -1, 9])
        op["st2"] = rng.choice([0, 0, 0, 2, -1, 9])
        op["mode"] = 2
        if k in ("im", "imc"):
            op["d"] = rng.choice(ALL + ["f4", "f8", "i4", "i8"] + STRS)
            op["style"] = rng.choice(["full", "full", "small", "dup", "few"])
            op["d2"] = rng.choice([op["d"], rng.choice([x for x in STRS if x[0] == op["d"][0]])]) if op["d"][0] in "SU" else op["d"]
            if rng.random() < .15:
                op["mode"] = 1
                op["n"], op["n2"] = min(op["n"], 3000), min(op["n2"], 1500)
            op["hint"] = rng.choice([0, 0, 0, "n", "2n"])
            op["zero"] = rng.random() < .3
        elif k == "fix":
            op["d"], op["d2"] = rng.choice(["i1", "i2", "i4", "i8"]), rng.choice(["i1", "i2", "i4", "i8"])
            op["u"], op["u2"] = rng.choice([1, 5, 50, 120]), rng.choice([1, 5, 50, 120])
            op["b1"], op["b2"] = rng.randint(0, 1), rng.randint(0, 1)
        elif k in ("mk", "al"):
            op["ks"] = [[rng.choice(KD), rng.choice(["full", "dup", "small", "few", "few"])] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            op["hint"] = rng.choice([0, 0, 0, "n", "2n"])
            if k == "al":
                op["t"] = rng.choice(["i4", "i8", "u4", "u8", "f4", "f8"])
                op["fwd"], op["exact"] = rng.randint(0, 1), rng.randint(0, 1)
                op["tk"] = rng.choice([3, 100, 10000])
        else:
            op["d"] = rng.choice(["i4", "i8"])
            op["t"] = rng.choice(["i4", "i8", "f4", "f8"])
            op["u"] = rng.choice([1, 3, 50, 1000])
            op["tk"] = rng.choice([3, 100, 10000])
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        globals()["_" + op["k"]](rc, rng_of(op["s"]), op, "op %d %s" % (i, op))
        probe("parallel" if op["n"] >= ops.PAR else "serial")


def lay(g, a, st):
    return strided(a, st, g) if st else a


def positions(ca, cb):
    """First position of each element of ca in cb, or -1."""
    u, first = np.unique(cb, return_index=True)
    j = np.searchsorted(u, ca)
    j[j == len(u)] = 0
    return np.where(u[j] == ca, first[j], -1) if len(u) else np.full(len(ca), -1)


def bits(a):
    if a.dtype.kind == "f":
        a = a + 0.0      # one zero
        return a
    return a


def one_key(g, op):
    """Two arrays of the same kind with partly common values."""
    d, d2 = op["d"], op["d2"]
    n, m = op["n"], op["n2"]
    b = mkkey(g, d2, m, op["style"])
    a = mkkey(g, d, n, op["style"])
    take = g.random(n) < g.choice([0.0, .3, .9, 1.0])
    src = b[g.integers(0, m, n)]
    a = np.where(take, src.astype(a.dtype), a).astype(a.dtype)
    if a.dtype.kind == "f":
        if op.get("zero"):
            for x in (a, b):
                z = g.random(len(x)) < .05
                x[z] = np.where(g.random(int(z.sum())) < .5, 0.0, -0.0)
        else:
            a, b = a + 0, b + 0
    return lay(g, a, op["st"]), lay(g, b, op["st2"])


def ref_member(a, b):
    if a.dtype.kind == "f":
        ok = b == b
        p = positions(np.where(a == a, a + 0.0, 1), b[ok] + 0.0)
        q = np.flatnonzero(ok)
        p = np.where((p >= 0) & (a == a), q[np.maximum(p, 0)] if len(q) else -1, -1)
        return p
    return positions(a, b)


def hint(op, n, m):
    return {0: 0, "n": m, "2n": 2 * m}[op["hint"]]


def _im(rc, g, op, what):
    a, b = one_key(g, op)
    fr = ops.frozen(a, b)
    r = rc.IsMember32(a, b, op["mode"], hint(op, len(a), len(b)))
    ops.check_frozen(fr, what, violate)
    verdict(what, r[0], r[1], ref_member(np.array(a), np.array(b)), np.array(a))
    probe("ismember." + op["d"][0])
    if op["st"] or op["st2"]:
        probe("layout")


def verdict(what, bo, ix, e, a=None):
    if bo.dtype != np.bool_ or bo.shape != e.shape or ix.shape != e.shape or ix.dtype.kind != "i":
        violate("mismatch", "%s: results %s%s %s%s" % (what, bo.dtype, bo.shape, ix.dtype, ix.shape))
    if not np.array_equal(bo, e >= 0):
        k = int(np.flatnonzero(bo != (e >= 0))[0])
        violate("mismatch", "%s: element %d%s reported %s, occurs first at %d" % (what, k, "" if a is None else " (%r)" % a[k], bo[k], e[k]))
    ex = np.where(e >= 0, e, np.iinfo(ix.dtype).min)
    if not np.array_equal(ix, ex):
        violate("mismatch", "%s: positions: %s" % (what, ops.where_diff(ix.astype("i8"), ex.astype("i8"))))


def _imc(rc, g, op, what):
    a, b = one_key(g, op)
    fr = ops.frozen(a, b)
    missed, ix = rc.IsMemberCategorical(a, b, op["mode"], hint(op, len(a), len(b)))
    ops.check_frozen(fr, what, violate)
    e = ref_member(np.array(a), np.array(b)) + 1
    if not np.array_equal(ix, e):
        violate("mismatch", "%s: positions: %s" % (what, ops.where_diff(ix.astype("i8"), e)))
    if bool(missed) != bool((e == 0).any()):
        violate("mismatch", "%s: missed flag %d" % (what, missed))
    probe("ismember-categorical." + op["d"][0])


def _fix(rc, g, op, what):
    u, u2 = op["u"], op["u2"]
    ua = g.permutation(200)[:u]
    ub = g.permutation(200)[:u2]
    on = positions(ua, ub)
    a = g.integers(0, u + op["b1"], op["n"]).astype(D[op["d"]])
    b = g.integers(0, u2 + op["b2"], op["n2"]).astype(D[op["d2"]])
    bad = g.random(op["n"]) < .02
    if op["b1"] == 0:
        a[bad] = np.iinfo(a.dtype).min
    bad = g.random(op["n2"]) < .02
    if op["b2"] == 0:
        b[bad] = np.iinfo(b.dtype).min
    first = np.where(on >= 0, on, np.iinfo("i4").min).astype("i4")
    fr = ops.frozen(a, b, first)
    A, B = lay(g, a, op["st"]), lay(g, b, op["st2"])
    bo, ix = rc.IsMemberCategoricalFixup(A, B, first, u2, op["b1"], op["b2"])
    ops.check_frozen(fr, what, violate)
    va = np.where(a >= op["b1"], ua[np.clip(a.astype("i8") - op["b1"], 0, u - 1)], -1)
    vb = np.where(b >= op["b2"], ub[np.clip(b.astype("i8") - op["b2"], 0, u2 - 1)], -2)
    e = positions(va, vb)
    verdict(what, bo, ix, e)
    probe("fixup")


def multi(g, op):
    """Key columns of both sides and joint integer codes."""
    n, m = op["n"], op["n2"]
    A, B = [], []
    src, take = g.integers(0, m, n), g.random(n) < g.choice([0.0, .5, .95])
    c = None
    for d, st in op["ks"]:
        b = mkkey(g, d, m, st)
        a = mkkey(g, d, n, st)
        a = np.where(take, b[src], a).astype(b.dtype)
        if a.dtype.kind == "f":
            a, b = a + 0, b + 0
            a[a != a] = np.nan
            b[b != b] = np.nan
        A.append(a)
        B.append(b)
        z = np.concatenate([a, b])
        u, inv = np.unique(z, return_inverse=True)
        inv = inv.reshape(n + m).astype("i8")
        c = inv if c is None else np.unique(c * (len(u) + 1) + inv, return_inverse=True)[1].reshape(n + m).astype("i8")
    return A, B, c[:n], c[n:]


def _mk(rc, g, op, what):
    A, B, ca, cb = multi(g, op)
    A = [lay(g, a, op["st"]) for a in A]
    B = [lay(g, a, op["st2"]) for a in B]
    fr = ops.frozen(*A, *B)
    r = rc.MultiKeyIsMember32((A,), (B,), hint(op, len(ca), len(cb)))
    ops.check_frozen(fr, what, violate)
    verdict(what, r[0], r[1], positions(ca, cb))
    probe("multikey-ismember.%d" % len(A))


def times(g, op, n):
    t = np.sort(g.integers(0, op["tk"], n)).astype(D[op["t"]])
    return t


def last_match(ca, cb, ta, tb, fwd, exact):
    """Alignment by time within equal keys."""
    n, m = len(ca), len(cb)
    out = np.full(n, -1)
    k = max(int(ca.max(initial=0)), int(cb.max(initial=0))) + 2
    # rank the times jointly
    u, inv = np.unique(np.concatenate([ta, tb]), return_inverse=True)
    inv = inv.reshape(n + m).astype("i8")
    ra, rb = inv[:n], inv[n:]
    s = len(u) + 1
    kb = cb * s + rb
    order = np.argsort(kb, kind="stable")
    sk = kb[order]
    want = ca * s + ra
    if not fwd:
        j = np.searchsorted(sk, want, side="right" if exact else "left") - 1
        ok = (j >= 0)
        jj = np.maximum(j, 0)
        ok &= cb[order[jj]] == ca
        out[ok] = order[jj[ok]]
    else:
        j = np.searchsorted(sk, want, side="left" if exact else "right")
        ok = j < m
        jj = np.minimum(j, m - 1)
        ok &= cb[order[jj]] == ca
        out[ok] = order[jj[ok]]
    return out


def _al(rc, g, op, what):
    A, B, ca, cb = multi(g, op)
    ta, tb = times(g, op, op["n"]), times(g, op, op["n2"])
    if ta.dtype.kind == "f" and g.random() < .3:
        ta[-int(g.integers(1, 5)):] = np.nan
        tb[-1:] = np.nan
    A, B = [lay(g, a, op["st"]) for a in A], [lay(g, a, op["st2"]) for a in B]
    Ta, Tb = lay(g, ta, op["st"]), lay(g, tb, op["st2"])
    fr = ops.frozen(*A, *B, Ta, Tb)
    r = rc.MultiKeyAlign32((A,), (B,), Ta, Tb, bool(op["fwd"]), bool(op["exact"]))
    ops.check_frozen(fr, what, violate)
    va, vb = ta == ta, tb == tb
    if vb.any():
        e = last_match(ca, cb[vb], np.where(va, ta, 0), tb[vb], op["fwd"], op["exact"])
        e = np.where((e >= 0) & va, np.flatnonzero(vb)[np.maximum(e, 0)], -1)
    else:
        e = np.full(len(ca), -1)
    e = np.where(e >= 0, e, np.iinfo(r.dtype).min)
    if not np.array_equal(r, e):
        violate("mismatch", "%s: %s" % (what, ops.where_diff(r.astype("i8"), e)))
    probe("align.%s" % ("forward" if op["fwd"] else "backward"))


def _mb(rc, g, op, what):
    ka = g.integers(0, op["u"], op["n"]).astype(D[op["d"]])
    kb = g.integers(0, op["u"], op["n2"]).astype(D[op["d"]])
    ta, tb = times(g, op, op["n"]), times(g, op, op["n2"])
    A, B, Ta, Tb = lay(g, ka, op["st"]), lay(g, kb, op["st2"]), lay(g, ta, op["st"]), lay(g, tb, op["st2"])
    fr = ops.frozen(A, B, Ta, Tb)
    r = rc.MergeBinnedAndSorted(A, B, Ta, Tb, op["u"])
    ops.check_frozen(fr, what, violate)
    e = last_match(ka.astype("i8"), kb.astype("i8"), ta, tb, 0, 1)
    e = np.where(e >= 0, e, np.iinfo(r.dtype).min)
    if not np.array_equal(r, e):
        violate("mismatch", "%s: %s" % (what, ops.where_diff(r.astype("i8"), e)))
    probe("merge-binned")
