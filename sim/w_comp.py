"""P19: compression of arrays and byte strings in memory."""
import numpy as np
import common, ops, simapi
from ops import rng_of
from simapi import violate, probe
from w_sds import data, expect, same_array

DT = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "b1", "S1", "S3", "S17", "U1", "U4", "c8", "c16", "g", "V5", "rec"]
HOW = ["flip", "flip", "byte", "byte", "cut", "cut", "grow", "zero", "noise", "head", "head"]
HEADER = 56


def gen(rng, tier, pid):
    o = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["arrays", "arrays", "arrays", "string"])
        n = rng.choice([0, 1, 2, 3, 10, 100, 1000, 20000, rng.randrange(60000)])
        op = {"k": k, "s": rng.getrandbits(40), "n": n, "lev": rng.choice([-3, 0, 1, 1, 3, 3, 5, 9, 15, 19, 22, 30] if n < 5000 else [0, 1, 1, 3, 5]), "crc": rng.random() < .7,
              "dm": [[rng.choice(HOW), rng.getrandbits(40)] for _ in range(rng.choice([0, 2, 6]))], "c": rng.choice(["same", "rand", "mix", "raw"])}
        if k == "arrays":
            op["d"] = [rng.choice(DT + ["none"]) for _ in range(rng.choice([0, 1, 2, 5, 9, 20] if n < 5000 else [1, 2, 4]))]
            op["st"] = rng.choice([0, 0, 0, 2, -1])
            op["cont"] = rng.choice(["list", "list", "tuple", "one"])
        o.append(op)
    cfg = common.sched(rng)
    cfg.update(p_alloc=rng.choice([0, 0, 20000, 100000, 400000]), al_max=rng.choice([1, 2, 5, 1000]))
    return {"cfg": cfg, "w": {"ops": o}}


def shrink(w):
    import copy
    yield from ops.shrink_ops(w)
    for i, op in enumerate(w["ops"]):
        for key in ("d", "dm"):
            for j in range(len(op.get(key, []))):
                y = copy.deepcopy(w); del y["ops"][i][key][j]; yield y
        for n in (1, 3, 100):
            if n < op["n"]:
                y = copy.deepcopy(w); y["ops"][i]["n"] = n; yield y


def run(w):
    rc = simapi.load()
    for n, op in enumerate(w["ops"]):
        rc.SetZstdChecksumming(op["crc"])
        globals()["_" + op["k"]](rc, op, "op %d (%s)" % (n, op["k"]))


def attempt(f, *a):
    """(result, error, whether an allocation failed meanwhile)"""
    n = simapi.faults()
    simapi.lib.sim_arm(simapi.ALLOC)
    try:
        r, e = f(*a), None
    except (ValueError, MemoryError, OverflowError) as x:
        r, e = None, x
    finally:
        simapi.lib.sim_disarm(simapi.ALLOC)
    return r, e, simapi.faults() != n


def damaged(b, how, seed):
    g = rng_of(seed)
    b = bytearray(b)
    if not b:
        return bytes(b)
    p = int(g.integers(0, len(b)))
    if how == "flip":
        for _ in range(int(g.integers(1, 4))):
            b[int(g.integers(0, len(b)))] ^= 1 << int(g.integers(0, 8))
    elif how == "byte":
        b[p] = int(g.integers(0, 256))
    elif how == "cut":
        b = b[:p] if g.random() < .5 else b[:-int(g.integers(1, min(9, len(b)) + 1))]
    elif how == "grow":
        b += bytes(g.integers(0, 256, int(g.integers(1, 20)), dtype=np.uint8))
    elif how == "zero":
        b[p:p + int(g.integers(1, 20))] = b""
        b += bytes(int(g.integers(0, 20)))
    elif how == "noise":
        m = min(int(g.integers(1, 30)), len(b) - p)
        b[p:p + m] = bytes(g.integers(0, 256, m, dtype=np.uint8))
    elif how == "head":
        # a field of the header or the start of the frame
        p = int(g.choice([0, 1, 2, 3, 4, 8, 16, 24, 32, 40, 48, 56, 60, 61, 62]))
        v = int(g.choice([0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x7fffffff, -1, -2, -2 ** 31, 1 << 40, -2 ** 63, 2 ** 63 - 1]))
        m = int(g.choice([1, 4, 8]))
        b[p:p + m] = (v & ((1 << (8 * m)) - 1)).to_bytes(m, "little")[:max(0, len(b) - p)]
    return bytes(b)


def _string(rc, op, what):
    g = rng_of(op["s"])
    src = data(g, "u1", op["n"], op["c"]).tobytes() if op["c"] != "raw" else bytes(g.integers(0, 4, op["n"], dtype=np.uint8))
    c, err, faulty = attempt(rc.CompressString, src, op["lev"])
    if err is not None:
        if not faulty:
            violate("refused", "%s: compressing %d bytes raised %s" % (what, len(src), err))
        probe("compress-refused")
        c = rc.CompressString(src, op["lev"])
    if type(c) is not bytes:
        violate("wrong-type", "%s: %r" % (what, type(c)))
    r, err, faulty = attempt(rc.DecompressString, c)
    if err is not None:
        if not faulty:
            violate("refused", "%s: decompressing raised %s" % (what, err))
        probe("decompress-refused")
    elif r != src:
        violate("wrong-data", "%s: other bytes came back" % what)
    r = rc.DecompressString(c)
    if r != src:
        violate("wrong-data", "%s: other bytes came back" % what)
    probe("string")
    for how, seed in op["dm"]:
        b = damaged(c, how, seed)
        r, err, _ = attempt(rc.DecompressString, b)
        if err is None and r != src and op["crc"]:
            # a valid frame of its own is no damage
            if not (b and len(b) < len(c) and len(r) == 0):
                violate("wrong-data", "%s: damaged (%s %d) bytes gave %d other bytes" % (what, how, seed, len(r)))
        probe("damage-refused" if err else "damage-read")
    for bad in (b"", b"abc", src[:1000]):
        r, err, _ = attempt(rc.DecompressString, bad)
        if err is None and bad != c:
            violate("not-refused", "%s: %d bytes which are no frame gave %d bytes" % (what, len(bad), len(r)))


def _arrays(rc, op, what):
    g = rng_of(op["s"])
    src = []
    for d in op["d"]:
        if d == "none":
            src.append(None)
            continue
        st = op["st"] if g.random() < .5 else 0
        a = data(g, d, op["n"] * max(1, abs(st)), op["c"])
        src.append(a[::st] if st else a)
    # rows must agree, and a missing array has none
    if None in [None if x is None else 1 for x in src] and any(x is not None and len(x) for x in src):
        src = [x for x in src if x is not None]
    one = op["cont"] == "one" and len(src) == 1 and src[0] is not None
    arg = src[0] if one else tuple(src) if op["cont"] == "tuple" else src
    before = [None if x is None else x.tobytes() for x in src]
    c, err, faulty = attempt(rc.CompressDecompressArrays, arg, 0, op["lev"])
    if err is not None:
        if not faulty:
            violate("refused", "%s: compressing raised %s" % (what, err))
        probe("compress-refused")
        c = rc.CompressDecompressArrays(arg, 0, op["lev"])
        faulty = False
    if before != [None if x is None else x.tobytes() for x in src]:
        violate("changed", "%s: compressing changed its input" % what)
    if type(c) is not tuple or len(c) != len(src):
        violate("wrong-count", "%s: %d arrays became %r" % (what, len(src), c))
    lost = 0
    for x, y in zip(src, c):
        if y is None and x is not None:
            lost += 1
        if y is not None and (x is None or y.dtype != np.uint8 or y.ndim != 1):
            violate("wrong-type", "%s: %r" % (what, y))
    if lost:
        if not faulty:
            violate("refused", "%s: %d of %d arrays were not compressed" % (what, lost, len(c)))
        probe("not-compressed")
    kept = list(c)
    for tries in range(2):
        if tries:
            kept = [k if k is not None or x is None else rc.CompressDecompressArrays([x], 0, op["lev"])[0] for k, x in zip(kept, src)]
        f = (lambda a: rc.CompressDecompressArrays(a, 1)) if tries else None
        if tries:
            r = rc.CompressDecompressArrays(tuple(kept) if op["cont"] == "tuple" else kept, 1)
            err = None
        else:
            r, err, faulty = attempt(rc.CompressDecompressArrays, kept, 1)
            if err is not None:
                if not faulty:
                    violate("refused", "%s: decompressing raised %s" % (what, err))
                probe("decompress-refused")
                continue
        if type(r) is not tuple or len(r) != len(src):
            violate("wrong-count", "%s: %d arrays came back as %r" % (what, len(src), r))
        for i, (k, x, y) in enumerate(zip(kept, src, r)):
            if k is None:
                if y is not None:
                    violate("wrong-data", "%s, array %d: %r for a missing array" % (what, i, y))
            elif y is None:
                violate("refused", "%s, array %d was not decompressed" % (what, i))
            else:
                same_array(y, x, "%s, array %d" % (what, i))
    probe("arrays")
    kept = [k for k in kept if k is not None]
    ref = [x for x in src if x is not None]
    if not kept:
        return
    for how, seed in op["dm"]:
        j = seed % len(kept)
        b = np.frombuffer(damaged(kept[j].tobytes(), how, seed), np.uint8)
        r, err, _ = attempt(rc.CompressDecompressArrays, kept[:j] + [b] + kept[j + 1:], 1)
        probe("damage-refused" if err else "damage-read")
        if err is not None:
            continue
        for i, y in enumerate(r):
            if i != j:
                same_array(y, ref[i], "%s, array %d beside a damaged one" % (what, i))
            else:
                # the header is not checksummed, the contents are
                raw = y.tobytes()
                if op["crc"] and raw != ref[j].tobytes():
                    violate("wrong-data", "%s: a damaged (%s %d) array gave %d other bytes" % (what, how, seed, len(raw)))
    for bad in ([np.zeros(10, np.uint8)], [np.zeros(200, np.uint8)], [np.arange(9.)], [kept[0].reshape(-1, 1)], [kept[0][:HEADER]], [kept[0][:-1]]):
        r, err, _ = attempt(rc.CompressDecompressArrays, bad, 1)
        if err is None:
            violate("not-refused", "%s: %r is no compressed array but gave %r" % (what, bad[0][:4], r))
    for mode in (2, 3, 7, -1):
        r, err, _ = attempt(rc.CompressDecompressArrays, src, mode)
        if err is None:
            violate("not-refused", "%s: mode %d gave %r" % (what, mode, r))
