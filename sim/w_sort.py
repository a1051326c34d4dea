"""P05: sorts and the group boundaries derived from them."""
import numpy as np
import common, ops, simapi
from ops import D, ALL, NUM, INTS, FLTS, arr, rng_of
from simapi import violate, probe

shrink = ops.shrink_ops
SK = ALL + ["S1", "S3", "S8", "S11", "U1", "U3", "U6"]


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["lex"] * 6 + ["sort"] * 2 + ["issorted"] * 2 + ["rev", "rev", "ind", "nan"])
        op = {"k": k, "s": rng.getrandbits(40), "n": ops.length(rng, cap=90000), "w": rng.choice([4, 4, 8])}
        if k == "lex":
            nk = rng.choice([1, 1, 1, 2, 2, 3])
            op["ks"] = [[rng.choice(SK), rng.choice(["full", "dup", "small", "small"])] for _ in range(nk)]
            op["asc"] = [rng.random() < 0.65 for _ in range(nk)]
            op["am"] = rng.choice(["none", "one", "arr"])
            r = rng.random()
            op["cut"] = rng.choice([2, 3, 5, 8, 13, 30]) if r < 0.3 else 0
            op["sub"] = rng.choice([2, 3]) if 0.3 < r < 0.45 else 0
            op["shape"] = rng.choice(["rand"] * 4 + ["sorted", "rev", "saw", "const"])
            op["grp"] = rng.random() < 0.6
            op["base"] = rng.randint(0, 1)
        elif k in ("sort",):
            op["a"] = rng.choice(ALL)
            op["style"] = rng.choice(["full", "dup", "small"])
            op["m"] = rng.choice([1, 2, 2, 3])
            op["in"] = rng.randint(0, 1)
            op["n"] = min(op["n"], 50000)
        elif k == "issorted":
            op["a"] = rng.choice(SK)
            op["style"] = rng.choice(["full", "dup", "small"])
            op["brk"] = rng.choice([0, 1, 1, 1])
        elif k == "ind":
            op["w2"] = rng.choice([4, 8])
        elif k == "nan":
            op["a"] = rng.choice(NUM)
        o.append(op)
    return {"cfg": common.sched(rng), "w": {"ops": o}}


def codes(a):
    """Rank of every element; NaN ranks last."""
    u, inv = np.unique(a, return_inverse=True)
    return inv.reshape(len(a)).astype("i8"), len(u)


def keycodes(a, asc):
    c, _ = codes(a)
    if not asc:
        m = (a != a) if a.dtype.kind == "f" else np.zeros(len(a), bool)
        c = np.where(m, len(a) + 1, -c)
    return c


def form(a, shape, g):
    n = len(a)
    if shape == "sorted":
        return np.sort(a)
    if shape == "rev":
        return np.sort(a)[::-1].copy()
    if shape == "const":
        b = np.full(n, a[0], a.dtype)
        b[int(g.integers(0, n))] = a[-1]
        return b
    if shape == "saw":
        k = max(1, int(g.integers(1, 2000)))
        s = np.sort(a[:k])
        return np.resize(s, n)
    return a


def run(w):
    rc = simapi.load()
    for i, op in enumerate(w["ops"]):
        g = rng_of(op["s"])
        globals()["_" + op["k"]](rc, g, op, "op %d %s" % (i, op))


def _lex(rc, g, op, what):
    n = op["n"]
    W = "i4" if op["w"] == 4 else "i8"
    f = rc.LexSort32 if op["w"] == 4 else rc.LexSort64
    keys = [form(arr(g, d, n, st), op["shape"] if j == len(op["ks"]) - 1 else "rand", g) for j, (d, st) in enumerate(op["ks"])]
    asc = op["asc"]
    kw = {}
    if op["am"] == "none":
        asc = [True] * len(keys)
    elif op["am"] == "one":
        asc = [asc[0]] * len(keys)
        kw["ascending"] = asc[0]
    else:
        kw["ascending"] = np.array(asc)
    cuts = None
    idx = None
    if op["cut"]:
        cuts = np.sort(g.integers(0, n + 1, op["cut"])).astype("i8")
        cuts[-1] = n
        kw["cutoffs"] = cuts
    elif op["sub"] and n > 3:
        idx = np.flatnonzero(g.integers(0, op["sub"], n) == 0).astype(W)
        if len(idx) < 2:
            idx = np.arange(2).astype(W)
        idx0 = idx.copy()
        kw["index"] = idx
    fr = ops.frozen(*keys)
    r = f(keys, **kw)
    ops.check_frozen(fr, what, violate)
    kc = [keycodes(a, s) for a, s in zip(keys, asc)]
    base = np.arange(n) if idx is None else idx0.astype("i8")
    if cuts is None:
        e = base[np.lexsort([c[base] for c in kc])]
        shift = np.zeros(len(e), "i8")
    else:
        part = np.searchsorted(cuts, np.arange(n), side="right")
        e = np.lexsort(kc + [part])
        starts = np.concatenate([[0], cuts[:-1]])
        shift = starts[part]
    if r is None or r.dtype != np.dtype(W):
        violate("mismatch", "%s: returned %r" % (what, r if r is None else r.dtype))
    rr = np.asarray(r).astype("i8") + shift
    if not np.array_equal(rr, e):
        if len(rr) != len(e) or not np.array_equal(np.sort(rr), np.sort(e)):
            violate("mismatch", "%s: not a permutation of the input" % what)
        violate("mismatch", "%s: %s" % (what, ops.where_diff(rr, e)))
    probe("parallel" if n >= ops.PAR else "serial")
    probe("lexsort.cutoffs" if cuts is not None else "lexsort")
    simapi.note(np.asarray(r))
    if not op["grp"]:
        return
    # group boundaries: the rows' whole key as one value array
    if len(keys) == 1:
        if keys[0].dtype.kind == "U" and False:
            return
        val = keys[0]
    else:
        if any(k.dtype.kind == "f" for k in keys):
            pass
        val = np.rec.fromarrays(keys)
    kw = {}
    b1 = op["base"]
    if cuts is not None:
        kw["cutoffs"] = cuts
        b1 = 1
    else:
        kw["base_index"] = b1
    gi = np.asarray(r).copy()
    q = rc.GroupFromLexSort(gi, val, **kw)
    ikey, ifirst, cnt = q[0], q[1], q[2]
    # expected from the sorted order e: boundary where any key changes (or a partition starts)
    ch = np.ones(len(e), bool)
    if len(e) > 1:
        d = np.zeros(len(e) - 1, bool)
        for k in keys:
            c, _ = codes(k)
            d |= c[e[1:]] != c[e[:-1]]
        if cuts is not None:
            d |= part[1:] != part[:-1]
        ch[1:] = d
    gid = np.cumsum(ch) - 1
    ng = int(gid[-1]) + 1
    ek = np.full(n, -5, "i8")
    ek[e] = gid + b1
    ok = np.asarray(ikey).astype("i8")
    if len(ok) != n or not np.array_equal(ok[e], ek[e]):
        violate("mismatch", "%s: GroupFromLexSort keys: %s" % (what, ops.where_diff(ok[e] if len(ok) == n else ok, ek[e])))
    if not np.array_equal(np.asarray(ifirst), e[ch]):
        violate("mismatch", "%s: GroupFromLexSort first rows: %s" % (what, ops.where_diff(np.asarray(ifirst), e[ch])))
    ec = np.bincount(gid, minlength=ng)
    oc = np.asarray(cnt)
    oc = oc[1:ng + 1] if (b1 or cuts is not None) else oc[:ng]
    if not np.array_equal(oc, ec) or (b1 and cnt[0] != 0):
        violate("mismatch", "%s: GroupFromLexSort counts: %s" % (what, ops.where_diff(oc, ec)))
    if cuts is not None:
        eu = np.array([len(np.unique(gid[part <= p])) for p in range(len(cuts))])
        if not np.array_equal(np.asarray(q[3]), eu):
            violate("mismatch", "%s: GroupFromLexSort partition counts %s instead of %s" % (what, q[3], eu))
        if not np.array_equal(gi, e):
            violate("mismatch", "%s: index not shifted to whole-array rows" % what)
    probe("group-from-sort")


def _sort(rc, g, op, what):
    a = arr(g, op["a"], op["n"], op["style"])
    e = np.sort(a)
    if op["in"]:
        r = rc.SortInPlace(a, op["m"])
        if not ops.same(a, e):
            violate("mismatch", "%s: %s" % (what, ops.where_diff(a, e)))
    else:
        fr = ops.frozen(a)
        r = rc.Sort(a, op["m"])
        ops.check_frozen(fr, what, violate)
    r = np.asarray(r)
    if r.dtype != a.dtype or not ops.same(r, e):
        violate("mismatch", "%s: %s" % (what, ops.where_diff(r, e)))
    probe("sort")


def _issorted(rc, g, op, what):
    n = op["n"]
    a = np.sort(arr(g, op["a"], n, op["style"]))
    if op["brk"] and n > 2:
        # disturb one neighbouring pair, preferably at a block boundary
        c = [x for x in (ops.BLK - 1, ops.BLK, 2 * ops.BLK - 1, n - 2, 0, int(g.integers(0, n - 1))) if x < n - 1]
        p = c[int(g.integers(0, len(c)))]
        a[p], a[p + 1] = a[p + 1].copy(), a[p].copy()
        if op["a"] not in ("b1",) and a[p] == a[p + 1] and g.random() < 0.5:
            a[p] = a[-1]
    e = bool(np.array_equal(np.argsort(codes(a)[0], kind="stable"), np.arange(n)))
    fr = ops.frozen(a)
    r = rc.IsSorted(a)
    ops.check_frozen(fr, what, violate)
    if bool(r) != e:
        violate("mismatch", "%s: IsSorted returned %r, expected %r" % (what, r, e))
    probe("issorted.%s" % e)


def _rev(rc, g, op, what):
    n = op["n"]
    p = g.permutation(n).astype("i4" if op["w"] == 4 else "i8")
    r = np.asarray(rc.ReverseShuffle(p))
    e = np.empty(n, "i8")
    e[p] = np.arange(n)
    if not np.array_equal(r, e):
        violate("mismatch", "%s: %s" % (what, ops.where_diff(r, e)))
    probe("reverseshuffle")


def _ind(rc, g, op, what):
    n = op["n"]
    m = max(1, int(g.integers(1, 2000)))
    sw = 8 if op["w"] == 8 else op["w2"]
    k = g.integers(0, m, n).astype("i%d" % op["w"])
    s = g.permutation(m).astype("i%d" % sw)
    inv = np.empty(m, "i8")
    inv[s] = np.arange(m)
    e = inv[k]
    rc.SortInPlaceIndirect(k, s)
    if not np.array_equal(k, e):
        violate("mismatch", "%s: %s" % (what, ops.where_diff(k, e)))
    probe("sortinplaceindirect")


def _nan(rc, g, op, what):
    a = arr(g, op["a"], op["n"], "full")
    s = (rc.LexSort32 if op["w"] == 4 else rc.LexSort64)([a])
    r = rc.NanInfCountFromSort(a, s)
    if a.dtype.kind == "f":
        e = (int(np.isnan(a).sum()), int((a == np.inf).sum()), int((a == -np.inf).sum()))
    else:
        return
    if tuple(int(x) for x in r) != e:
        violate("mismatch", "%s: NanInfCountFromSort %r instead of %r" % (what, r, e))
    probe("naninfcount")
