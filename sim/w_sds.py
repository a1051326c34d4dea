"""P12-P18: SDS files on the simulated file system and in simulated shared memory."""
import os, sys
import numpy as np
import common, simapi
from ops import ALL, D, arr, rng_of
from simapi import violate, probe

EIO, ENOSPC, SHORT, EINTR, OPENFAIL, ZERO, CLOSE, FLIP = range(1, 9)
FILE = "/simfs/a.sds"
DT = ALL + ["S1", "S3", "S8", "S20", "U1", "U4", "c8", "c16", "g", "V5", "rec"]
FTYPES = [0, 1, 2, 2, 2, 3, 4]


VERBOSE = os.environ.get("SIM_VERBOSE") == "2"


def kinds(*ks):
    return sum(1 << k for k in ks)


# ------------------------------------------------------------------ generation (orchestrator side)
def gen_section(rng, rows=None, big=True):
    n = rng.choice([0, 1, 1, 2, 3, 3, 5, 8, 17, 33])
    cols = []
    same = rng.choice([0, 1, 5, 200, 4096, 9999, 10000, 10001, 25000, 30000]) if rows is None else rows
    for _ in range(n):
        d = rng.choice(DT)
        sh = rng.choice(["rows", "rows", "rows", "len", "2d", "2df", "nd", "strided", "none", "zero"])
        cols.append({"d": d, "sh": sh, "n": same if rng.random() < .6 else rng.choice([0, 1, 2, 100, 1000, 5000, 20001 if big else 300]),
                     "c": rng.choice(["rand", "rand", "same", "mix"]), "nl": rng.choice([1, 1, 3, 8, 30, 200]), "f": rng.choice([0, 1, 1, 1, 2, 3, 5, 9, 17, 255])})
    return {"cols": cols, "meta": rng.choice([0, 1, 10, 100, 600, 5000, 70000]), "ms": rng.choice(["rand", "same"]), "comp": rng.choice([0, 1, 1, 1]),
            "lev": rng.choice([-3, 1, 1, 3, 3, 7]), "ft": rng.choice(FTYPES), "band": rng.choice([0, 0, 0, 1, 10000, 10001, 12345, 100000]), "s": rng.getrandbits(40)}


def gen(rng, tier, pid):
    cfg = common.sched(rng)
    return globals()["gen_" + pid](rng, cfg)


def gen_P12(rng, cfg):
    cfg.update(io_kinds=kinds(SHORT, EINTR), p_io=rng.choice([0, 0, 5000, 100000, 400000]))
    secs = []
    for i in range(rng.choice([1, 1, 1, 2, 3, 5])):
        s = gen_section(rng)
        s["name"] = rng.choice(NAMES + ["s%d" % i])
        secs.append(s)
    return {"cfg": cfg, "w": {"ops": [{"k": "trip", "secs": secs, "first": rng.random() < .5}]}}


NAMES = ["", "a", "b", "sec", "0", "x" * 62, "two words", "y" * 63, "long section name with spaces"]


def gen_history(rng, many=True):
    """A history of saves: section None starts a new file, a name appends (or starts one)."""
    secs = []
    for i in range(rng.choice([1, 2, 2, 3, 4] if many else [1, 1, 2, 3])):
        s = gen_section(rng, big=rng.random() < .3)
        s["name"] = rng.choice(NAMES + ["s%d" % i]) if rng.random() < .7 else None
        secs.append(s)
    return secs


def gen_P13(rng, cfg):
    ks = [EIO, ENOSPC, SHORT, EINTR, OPENFAIL, CLOSE]
    if rng.random() < .5:
        ks = rng.sample(ks, rng.choice([1, 2, 3]))
    cfg.update(io_kinds=kinds(*ks), p_io=rng.choice([0, 20000, 50000, 150000, 400000]), io_max=rng.choice([1, 1, 2, 5, 1000]))
    o = {"k": "wfault", "secs": gen_history(rng), "cap": rng.choice([-1, -1, -1, 0, 300, 1000, 4096, 20000, 100000, 500000]), "arm": rng.choice([0, 0, 1, 2])}
    if o["cap"] < 0 and not cfg["p_io"]:
        cfg["p_io"] = 50000
    return {"cfg": cfg, "w": {"ops": [o]}}


READS = ["one", "multi", "info", "minfo", "stack", "twice", "incl", "possibly", "mask"]


def gen_P14(rng, cfg):
    ks = [EIO, SHORT, EINTR, OPENFAIL, ZERO]
    if rng.random() < .5:
        ks = rng.sample(ks, rng.choice([1, 2, 3]))
    cfg.update(io_kinds=kinds(*ks), p_io=rng.choice([0, 0, 10000, 30000, 100000, 400000]), io_max=rng.choice([1, 1, 2, 5, 1000]))
    cut = rng.random() < .5 or not cfg["p_io"]
    ops = [{"k": "rfault", "secs": gen_history(rng, False), "reads": [rng.choice(READS) for _ in range(rng.choice([1, 2, 4]))],
            "cut": [rng.random() for _ in range(rng.choice([1, 3, 6]))] if cut else [], "end": rng.random() < .3, "s": rng.getrandbits(32)}]
    return {"cfg": cfg, "w": {"ops": ops}}


def gen_P15(rng, cfg):
    cfg.update(p_io=rng.choice([0, 0, 0, 50000]), io_kinds=kinds(SHORT, EINTR))
    return {"cfg": cfg, "w": {"ops": [{"k": "crash", "secs": gen_history(rng), "at": [[rng.random(), rng.choice([0, 0, rng.random()])] for _ in range(rng.choice([2, 5, 10]))],
                                       "more": rng.random() < .5, "s": rng.getrandbits(32)}]}}


DAMAGE = ["bits", "bits", "byte", "zero", "ones", "copy", "field", "field", "field", "blk", "blk", "blk", "noise", "trunc"]


def gen_P18(rng, cfg):
    cfg.update(io_kinds=kinds(EIO, SHORT, EINTR, OPENFAIL, ZERO), p_io=rng.choice([0, 0, 2000, 20000]), p_shm=rng.choice([0, 0, 100000, 400000]))
    if rng.random() < .2:
        cfg["shm_limit"] = rng.choice([0, 512, 1000, 5000, 50000, 300000])
    ops = []
    for i in range(rng.choice([1, 1, 2])):
        secs = []
        for j in range(rng.choice([1, 2, 3])):
            s = gen_section(rng, big=rng.random() < .3)
            s["name"] = rng.choice(["a", "b", None]) if j else None
            secs.append(s)
        steps = [[rng.choice(["load"] * 6 + ["store", "store", "info", "mask", "plain", "drop", "drop", "incomplete", "limit", "resave", "lose"]),
                  rng.choice(["x", "x", "x", "y", "n" * 130, "n" * 600] if rng.random() < .2 else ["x", "x", "y"]), rng.randrange(3)] for _ in range(rng.choice([2, 4, 8, 12]))]
        ops.append({"k": "share", "secs": secs, "steps": steps, "quiet": rng.random() < .3, "s": rng.getrandbits(40)})
    return {"cfg": cfg, "w": {"ops": ops}}


def gen_P17(rng, cfg):
    cfg.update(p_io=0)
    secs = gen_history(rng, False)
    for s in secs:
        if rng.random() < .6:
            s["cols"] = s["cols"][:rng.choice([1, 2, 4])]
    return {"cfg": cfg, "w": {"ops": [{"k": "damage", "secs": secs, "crc": rng.random() < .5, "s": rng.getrandbits(32),
                                       "dm": [[[rng.choice(DAMAGE), rng.getrandbits(48)] for _ in range(rng.choice([1, 1, 1, 2, 4]))] for _ in range(rng.choice([4, 10, 20]))]}]}}


def shrink(w):
    """Smaller workloads: fewer operations, sections, columns, rows; plainer columns."""
    import copy
    for i, o in enumerate(w["ops"]):
        for j in range(len(o.get("dm", []))):
            if len(o["dm"]) > 1:
                y = copy.deepcopy(w); y["ops"][i]["dm"] = [o["dm"][j]]; yield y
            elif len(o["dm"][0]) > 1:
                for k in range(len(o["dm"][0])):
                    y = copy.deepcopy(w); del y["ops"][i]["dm"][0][k]; yield y
        if o["k"] == "select":
            yield from shrink_select(w, i)
        secs = o.get("secs")
        if len(w["ops"]) > 1:
            y = copy.deepcopy(w); del y["ops"][i]; yield y
        if not secs:
            continue
        for j in range(len(secs)):
            if len(secs) > 1:
                y = copy.deepcopy(w); del y["ops"][i]["secs"][j]; yield y
            c = secs[j]["cols"]
            for a, b in ((0, len(c) // 2), (len(c) // 2, len(c))):
                if 0 < b - a < len(c):
                    y = copy.deepcopy(w); y["ops"][i]["secs"][j]["cols"] = c[a:b]; yield y
            if len(c) < 6:
                for k in range(len(c)):
                    y = copy.deepcopy(w); del y["ops"][i]["secs"][j]["cols"][k]; yield y
                    for n in (0, 1, 3, 100):
                        if n < c[k]["n"]:
                            y = copy.deepcopy(w); y["ops"][i]["secs"][j]["cols"][k]["n"] = n; yield y
                    for key, v in (("d", "i4"), ("sh", "len"), ("nl", 1), ("c", "same"), ("f", 1)):
                        if c[k][key] != v:
                            y = copy.deepcopy(w); y["ops"][i]["secs"][j]["cols"][k][key] = v; yield y
            for key, v in (("meta", 1), ("band", 0), ("comp", 1), ("ft", 2), ("name", "a")):
                if key in secs[j] and secs[j][key] != v:
                    y = copy.deepcopy(w); y["ops"][i]["secs"][j][key] = v; yield y


def shrink_select(w, i):
    import copy
    o = w["ops"][i]
    for j in range(len(o["reads"])):
        if len(o["reads"]) > 1:
            y = copy.deepcopy(w); del y["ops"][i]["reads"][j]; yield y
        for k in ("inc", "reserve", "must", "fancy"):
            if o["reads"][j].get(k) is not None:
                y = copy.deepcopy(w); del y["ops"][i]["reads"][j][k]; yield y
        if len(o["reads"][j]["fs"]) > 1:
            for k in range(len(o["reads"][j]["fs"])):
                y = copy.deepcopy(w); del y["ops"][i]["reads"][j]["fs"][k]; yield y
    used = {x for r in o["reads"] for x in r["fs"]}
    for j, f in enumerate(o["files"]):
        if j not in used and f:
            y = copy.deepcopy(w); y["ops"][i]["files"][j] = []; yield y
        for k in range(len(f)):
            if len(f) > 1:
                y = copy.deepcopy(w); del y["ops"][i]["files"][j][k]; yield y
            for m in range(len(f[k]["cols"])):
                y = copy.deepcopy(w); del y["ops"][i]["files"][j][k]["cols"][m]; yield y
            for key, v in (("meta", 0), ("band", 0), ("comp", 0)):
                if f[k][key] != v:
                    y = copy.deepcopy(w); y["ops"][i]["files"][j][k][key] = v; yield y
    for nm in {c["n"] for f in o["files"] for s in f for c in s["cols"]}:
        y = copy.deepcopy(w)
        for f in y["ops"][i]["files"]:
            for s in f:
                s["cols"] = [c for c in s["cols"] if c["n"] != nm]
        yield y


# ------------------------------------------------------------------ building arrays (simulated side)
class Sec:
    pass


def data(g, d, n, c):
    if d == "rec":
        t = np.dtype([("a", "i4"), ("b", "S3"), ("c", "f8")])
    elif d in ("c8", "c16", "g", "V5"):
        t = np.dtype(d)
    else:
        t = np.dtype(D.get(d, d))
    if c == "same":
        return np.zeros(n, t)
    if c == "rand" and t.kind in "iufcbSU":
        if t.kind == "c":
            return (g.normal(size=n) + 1j * g.normal(size=n)).astype(t)
        if d == "g":
            return g.normal(size=n).astype(t)
        return arr(g, d, n)
    if d == "g":
        return (np.arange(n) // 7).astype(t)
    raw = g.integers(0, 256, n * t.itemsize, dtype=np.uint8)
    if t.kind == "b":
        return (raw & 1).astype(bool)
    if t.kind == "U":
        return arr(g, d, n)
    if c == "mix":
        raw[len(raw) // 2:] = 7
    if t.kind == "f":
        raw = (raw & 63)
    return raw.view(np.uint8)[:n * t.itemsize].tobytes() and np.frombuffer(raw.tobytes(), dtype=t) if n else np.zeros(0, t)


def column(g, c):
    if c["sh"] == "none":
        return None
    n = c["n"]
    if c["sh"] in ("rows", "len"):
        return data(g, c["d"], n, c["c"])
    if c["sh"] == "zero":
        return data(g, c["d"], 1, c["c"]).reshape(())
    if c["sh"] == "strided":
        return data(g, c["d"], 2 * n, c["c"])[::int(g.choice([2, -2]))]
    if c["sh"] in ("2d", "2df"):
        m = int(g.choice([0, 1, 2, 5]))
        a = data(g, c["d"], n * m, c["c"]).reshape(n, m)
        return a if c["sh"] == "2d" else np.asfortranarray(a)
    dims = [int(x) for x in g.integers(0 if g.random() < .2 else 1, 4, int(g.integers(3, 6)))]
    a = data(g, c["d"], int(np.prod(dims)) * max(1, min(n, 500)), c["c"]).reshape([max(1, min(n, 500))] + dims[1:] if len(dims) < 6 else dims) if 0 else \
        data(g, c["d"], int(np.prod(dims)), c["c"]).reshape(dims)
    return np.asfortranarray(a) if g.random() < .3 else a


def name(g, i, nl):
    al = b"abcXYZ09 _-!./\xc3\xa9"
    return (b"%d" % i + bytes(al[int(x)] for x in g.integers(0, len(al), max(0, nl - 1))))[:max(nl, 2)]


def build(spec):
    g = rng_of(spec["s"])
    s = Sec()
    s.spec = spec
    s.arrays = [column(g, c) for c in spec["cols"]]
    s.names = [name(g, i, c["nl"]) for i, c in enumerate(spec["cols"])]
    s.flags = [c["f"] for c in spec["cols"]]
    m = spec["meta"]
    s.meta = bytes(g.integers(0, 256, m, dtype=np.uint8)) if spec["ms"] == "rand" else b"ab" * (m // 2)
    return s


def expect(a):
    """What a stored array reads back as: contiguous, without field names."""
    if a is None:
        return None
    if a.dtype.names:
        a = a.view("V%d" % a.dtype.itemsize)
    return a


def save(rc, s, path=FILE, section=None, folders=None, share=None, **k):
    p = s.spec
    if section is not None:
        k["section"] = section
    if folders:
        k["folders"] = folders
    if p["band"]:
        k["bandsize"] = p["band"]
    a = [path.encode(), s.meta, list(s.arrays), list(zip(s.names, s.flags)), p["comp"], p["lev"], p["ft"]]
    if share:
        a.append(share)
    return rc.CompressFile(*a, **k)


def raw(a):
    return a.tobytes("A") if a.flags.c_contiguous or a.flags.f_contiguous else a.tobytes()


def same_array(got, want, what):
    want = expect(want)
    if want is None:
        if got is not None:
            violate("wrong-array", "%s: %r for an entry saved as None" % (what, got))
        return
    if not isinstance(got, np.ndarray):
        violate("wrong-array", "%s: %r instead of an array" % (what, got))
    if got.dtype != want.dtype or got.shape != want.shape:
        violate("wrong-array", "%s: %s%s instead of %s%s" % (what, got.dtype, got.shape, want.dtype, want.shape))
    if want.ndim > 1 and want.size and not (want.flags.c_contiguous and want.flags.f_contiguous) and want.flags.f_contiguous != got.flags.f_contiguous:
        violate("wrong-array", "%s: memory order changed" % what)
    if got.tobytes() != want.tobytes():
        x = np.frombuffer(got.tobytes(), np.uint8) != np.frombuffer(want.tobytes(), np.uint8)
        i = np.flatnonzero(x)
        violate("wrong-array", "%s: %d of %d bytes differ, first at byte %d (%s%s)" % (what, len(i), len(x), i[0], want.dtype, want.shape))


def check_names(items, s, what):
    got = [(i.itemname, i.flags) for i in items]
    want = list(zip(s.names, s.flags))
    if got != want:
        violate("wrong-names", "%s: names and flags %r instead of %r" % (what, got[:4], want[:4]))


def check_header(h, s, what):
    p = s.spec
    for k, v in (("CompType", p["comp"]), ("FileType", p["ft"]), ("ArraysWritten", len(s.arrays)), ("NameBlockCount", len(s.names)), ("CompLevel", p["lev"])):
        if h[k] != v:
            violate("wrong-header", "%s: %s is %r instead of %r" % (what, k, h[k], v))


def check_file(f, s, what):
    """One SDSFileInfo against the section it was saved from."""
    if f is None:
        violate("missing", "%s: nothing was returned" % what)
    if f.column_metadata != s.meta:
        violate("wrong-meta", "%s: meta data of %d bytes instead of %d, or other bytes" % (what, len(f.column_metadata), len(s.meta)))
    check_names(f.container_items, s, what)
    check_header(f.file_header, s, what)
    if len(f.columns) != len(s.arrays):
        violate("wrong-count", "%s: %d arrays instead of %d" % (what, len(f.columns), len(s.arrays)))
    for i, (got, want) in enumerate(zip(f.columns, s.arrays)):
        same_array(got, want, "%s, array %d" % (what, i))


def check_info(f, s, what):
    if f.column_metadata != s.meta:
        violate("wrong-meta", "%s: meta data differs" % what)
    check_names(f.container_items, s, what)
    check_header(f.file_header, s, what)
    if len(f.columns) != len(s.arrays):
        violate("wrong-count", "%s: %d arrays instead of %d" % (what, len(f.columns), len(s.arrays)))
    for i, (got, want) in enumerate(zip(f.columns, s.arrays)):
        want = expect(want)
        if want is None:
            continue
        if tuple(got.shape) != want.shape or got.itemsize != want.itemsize or np.dtype(np.sctypeDict.get(got.dtype, "V")).kind != want.dtype.kind:
            violate("wrong-info", "%s, array %d: shape %r, type number %d, item size %d instead of %r %s" % (what, i, got.shape, got.dtype, got.itemsize, want.shape, want.dtype))


def fds(what):
    n = simapi.lib.sim_fs_openfds()
    if n:
        violate("open-file", "%s: %d files left open" % (what, n))


def run(w):
    rc = simapi.load()
    for n, op in enumerate(w["ops"]):
        globals()["_" + op["k"]](rc, op, "op %d" % n)


# ------------------------------------------------------------------ P12
def _trip(rc, op, what):
    secs = [build(s) for s in op["secs"]]
    names = []
    simapi.lib.sim_arm(simapi.IO)
    for i, s in enumerate(secs):
        sec = None
        if len(secs) > 1 or op["first"]:
            sec = s.spec["name"]
        before = [None if a is None else (a, a.tobytes()) for a in s.arrays]
        r = save(rc, s, section=sec)
        names.append(sec)
        if r is not None:
            violate("wrong-result", "CompressFile returned %r" % (r,))
        for b in before:
            if b is not None and b[0].tobytes() != b[1]:
                violate("input-modified", "CompressFile changed its input")
        fds("after CompressFile")
    secs2, names2 = live(secs, names)
    f = rc.DecompressFile(FILE.encode(), 3)
    check_file(f[0], secs2[0], "%s: DecompressFile" % what)
    f = rc.MultiDecompressFiles([FILE.encode()], 3)
    if len(f) != len(secs2):
        violate("wrong-count", "%s: %d sections instead of %d" % (what, len(f), len(secs2)))
    for i, (x, s) in enumerate(zip(f, secs2)):
        check_file(x, s, "%s: section %d" % (what, i))
    if len(secs2) > 1:
        got = f[0].file_header.get("Sections")
        if got != [x for x in names2]:
            violate("wrong-sections", "%s: sections %r instead of %r" % (what, got, names2))
        probe("sections")
    f = rc.DecompressFile(FILE.encode(), 5)
    check_info(f[0], secs2[0], "%s: information" % what)
    fds("after reading")
    if any(s.spec["band"] and any(a is not None and a.size > max(s.spec["band"], 10000) for a in s.arrays) for s in secs2):
        probe("banded")
    if sum(len(s.arrays) for s in secs2) > 1:
        probe("several-arrays")


def live(secs, names):
    """The sections a file holds after saving these in turn: the first always starts a new file."""
    out, on = [], []
    for s, n in zip(secs, names):
        if n is None:
            out, on = [s], ["0"]
        elif not out:
            out, on = [s], [n]
        else:
            out, on = out + [s], on + [n]
    return out, on


def step(hist, s):
    """The sections of the file after saving s with its section name."""
    n = s.spec["name"]
    if n is None or not hist:
        return [(s, n)]
    return hist + [(s, n)]


def read_all(rc, path=FILE):
    return rc.MultiDecompressFiles([path.encode()], 3)


def is_file(f, hist, what):
    """Raises Violation unless the list of SDSFileInfo is exactly this history."""
    if len(f) != len(hist):
        violate("wrong-count", "%s: %d sections instead of %d" % (what, len(f), len(hist)))
    for i, (x, (s, n)) in enumerate(zip(f, hist)):
        check_file(x, s, "%s: section %d" % (what, i))
    if len(hist) > 1:
        got, want = f[0].file_header.get("Sections"), ["0" if n is None else n for s, n in hist]
        if got != want:
            violate("wrong-sections", "%s: sections %r instead of %r" % (what, got, want))


def which(f, cands, what):
    """Index of the history these contents are; a violation if none."""
    first = None
    for i, h in enumerate(cands):
        try:
            is_file(f, h, what)
            return i
        except simapi.Violation as e:
            first = first or e
    raise first


# ------------------------------------------------------------------ P13
def _wfault(rc, op, what):
    hist = []          # what the file certainly holds, or None after a failed save
    for i, spec in enumerate(op["secs"]):
        s = build(spec)
        arm = i >= op["arm"]
        if arm:
            simapi.lib.sim_arm(simapi.IO)
            simapi.lib.sim_fs_capacity(op["cap"])
        err = None
        try:
            save(rc, s, section=spec["name"])
        except (ValueError, OSError, MemoryError, RuntimeError) as e:
            err = e
        simapi.lib.sim_disarm(simapi.IO)
        simapi.lib.sim_fs_capacity(-1)
        fds("after CompressFile")
        if err is None:
            # after a failed append the file may or may not hold the section that failed
            cands = [step(h, s) for h in (hist if isinstance(hist, tuple) else (hist,))]
            try:
                f = read_all(rc)
            except (ValueError, OSError) as e:
                violate("save-lost", "%s: save %d reported success but reading it back fails: %s" % (what, i, e))
            hist = cands[which(f, cands, "%s: save %d reported success" % (what, i))]
            if simapi.faults():
                probe("saved-after-fault")
        else:
            if not simapi.faults() and op["cap"] < 0 and not isinstance(hist, tuple):
                violate("save-failed", "%s: save %d failed without a fault: %s" % (what, i, err))
            probe("save-refused")
            h = hist if isinstance(hist, tuple) else (hist,)
            hist = tuple(h) + tuple(step(x, s) for x in h)
            if spec["name"] is None:
                hist = hist + ([],)
    # a save on a healthy disk afterwards works
    s = build(op["secs"][0])
    try:
        save(rc, s)
    except ValueError as e:
        violate("save-failed", "%s: a save after the faults stopped fails: %s" % (what, e))
    is_file(read_all(rc), [(s, None)], "%s: save after the faults stopped" % what)


# ------------------------------------------------------------------ P14
def do_read(rc, kind, hist, g, what, path=FILE, certain=True):
    """One read; returns False if it raised. Contents must be those of hist."""
    b = path.encode()
    s0 = hist[0][0]
    try:
        if kind == "one":
            check_file(rc.DecompressFile(b, 3)[0], s0, what)
        elif kind == "info":
            check_info(rc.DecompressFile(b, 5)[0], s0, what)
        elif kind == "minfo":
            f = rc.MultiDecompressFiles([b], 5)
            if len(f) != len(hist):
                violate("wrong-count", "%s: %d sections instead of %d" % (what, len(f), len(hist)))
            for x, (s, n) in zip(f, hist):
                check_info(x, s, what)
        elif kind in ("multi", "mask"):
            is_file(rc.MultiDecompressFiles([b], 3), hist, what)
        elif kind == "twice":
            f = rc.MultiDecompressFiles([b, b], 3)
            is_file(f[:len(hist)], hist, what)
            h = len(hist)
            if len(f) != 2 * h:
                violate("wrong-count", "%s: %d sections instead of %d" % (what, len(f), 2 * h))
            for x, (s, n) in zip(f[h:], hist):
                check_file(x, s, what)
        elif kind == "incl":
            names = [n.decode("latin1") for n in s0.names if n.isascii() and b"/" not in n]
            pick = [n for n in names if g.random() < .5] or names[:1]
            if not pick:
                return True
            f = rc.MultiDecompressFiles([b], 3, include=[p.encode("latin1") for p in pick])
            for x, (s, n) in zip(f, hist):
                for got, want, nm in zip(x.columns, s.arrays, s.names):
                    if nm.decode("latin1") in pick:
                        same_array(got, want, what + " with include")
        elif kind in ("stack", "possibly"):
            if kind == "possibly" and s0.spec["ft"] not in (2, 3, 4):
                return True
            fn = rc.MultiStackFiles if kind == "stack" else rc.MultiPossiblyStackFiles
            if len(hist) > 1:
                return True
            f = fn([b, b] if kind == "stack" else [b], 3, mustexist=True)
            if f is None:
                if s0.arrays:
                    violate("missing", "%s: nothing was returned" % what)
                return True
            if kind == "possibly" and isinstance(f, list):
                is_file(f, hist, what)
                return True
            names = [i.itemname for i in f.array_infos]
            for n, a in zip(names, f.arrays):
                want = expect(s0.arrays[s0.names.index(n)])
                if want is None or want.ndim == 0:
                    continue
                if want.dtype.kind == "V" and kind == "stack":
                    continue
                w = np.concatenate([want, want]) if kind == "stack" else want
                if want.ndim == 1 and want.size:
                    same_array(a, w, what + " stacked " + repr(n))
        return True
    except (ValueError, OSError, MemoryError, RuntimeError) as e:
        if certain:
            violate("read-failed", "%s: %s: %s" % (what, kind, e))
        return False


def _rfault(rc, op, what):
    g = rng_of(op["s"])
    hist = []
    for spec in op["secs"]:
        s = build(spec)
        save(rc, s, section=spec["name"])
        hist = step(hist, s)
    good = simapi.fs_get(FILE)
    # stacking refuses some shapes and entries
    can = {k: do_read(rc, k, hist, g, "%s: %s without faults" % (what, k), certain=k not in ("stack", "possibly")) for k in sorted(set(op["reads"]) | {"multi"})}
    cuts = [None] + [int(c * len(good)) for c in op["cut"]] if op["cut"] else [None]
    for c in cuts:
        if c is not None:
            if op["end"]:
                c = max(0, len(good) - 1 - c % 700)
            if c >= len(good):
                continue
            simapi.fs_put(FILE, good[:c])
        for k in op["reads"]:
            simapi.lib.sim_arm(simapi.IO)
            n = simapi.faults()
            ok = do_read(rc, k, hist, g, "%s: %s%s" % (what, k, "" if c is None else " of %d of %d bytes" % (c, len(good))), certain=False)
            simapi.lib.sim_disarm(simapi.IO)
            fds("after reading")
            if not ok:
                probe("read-refused")
                if c is None and n == simapi.faults() and can[k]:
                    violate("read-failed", "%s: reading failed without a fault" % what)
            elif c is not None:
                probe("cut-but-complete")
            elif n != simapi.faults():
                probe("read-despite-fault")
    # good files still read
    simapi.fs_put(FILE, good)
    for k in sorted(set(op["reads"]) | {"multi"}):
        do_read(rc, k, hist, g, "%s: after the faults stopped" % what, certain=can[k])
    # a missing file
    simapi.fs_put(FILE, None)
    for fn, a in ((rc.DecompressFile, FILE.encode()), (rc.MultiDecompressFiles, [FILE.encode()])):
        try:
            r = fn(a, 3)
        except (ValueError, OSError):
            continue
        violate("missing-file", "%s: reading a missing file returned %r" % (what, r))


# ------------------------------------------------------------------ P15
def _crash(rc, op, what):
    g = rng_of(op["s"])
    simapi.lib.sim_arm(simapi.IO)
    hist = []
    for i, spec in enumerate(op["secs"][:-1]):
        s = build(spec)
        save(rc, s, section=spec["name"])
        hist = step(hist, s)
    spec = op["secs"][-1]
    s = build(spec)
    simapi.lib.sim_fs_mark()
    save(rc, s, section=spec["name"])
    new = step(hist, s)
    append = bool(hist) and spec["name"] is not None
    total = simapi.lib.sim_fs_nops()
    points = sorted({(int(a * (total + 1)), t) for a, t in op["at"]}, reverse=True)
    for n, t in points:
        n = min(n, total)
        # a torn write stops at a page boundary of the file
        torn = 0
        if t:
            torn = int(t * simapi.lib.sim_fs_oplen(n)) // 4096 * 4096
        simapi.lib.sim_fs_restore(n, torn)
        at = "%s: crash after %d of %d file operations%s" % (what, n, total, " and %d bytes" % torn if torn else "")
        try:
            f = read_all(rc)
        except (ValueError, OSError) as e:
            if append:
                violate("sections-lost", "%s of an append: the file cannot be read any more: %s" % (at, e))
            probe("refused")
            now = None
        else:
            now = (hist, new)[which(f, ([hist] if hist else []) + [new], at) if hist else 1]
            probe("old" if now is hist else "new")
        fds("after reading")
        for k in ("one", "info"):
            try:
                f = rc.DecompressFile(FILE.encode(), 3 if k == "one" else 5)
            except (ValueError, OSError) as e:
                if append:
                    violate("sections-lost", "%s of an append: the first section cannot be read any more: %s" % (at, e))
                continue
            first = [h[0][0] for h in ((hist, new) if hist else (new,))]
            bad = None
            for x in first:
                try:
                    (check_file if k == "one" else check_info)(f[0], x, at)
                    bad = None
                    break
                except simapi.Violation as e:
                    bad = e
            if bad:
                raise bad
    # life goes on: another save after the crash
    if op["more"]:
        s2 = build(dict(op["secs"][0], name="after"))
        kw = "after" if g.random() < .6 else None
        try:
            save(rc, s2, section=kw)
        except (ValueError, OSError) as e:
            if kw is None or now is not None:
                violate("save-failed", "%s: a save after a crash fails: %s" % (what, e))
            return
        want = [(s2, kw)] if kw is None or now is None else now + [(s2, kw)]
        is_file(read_all(rc), want, "%s: save after a crash" % what)
        probe("resumed")


# ------------------------------------------------------------------ P17
HDR = [(0, 4), (4, 2), (6, 2), (8, 2), (10, 2), (12, 2), (16, 8), (24, 8), (32, 8), (40, 2), (42, 2), (44, 4)] + [(x, 8) for x in range(48, 208, 8)]
BLK = [(0, 2), (2, 2), (4, 1), (5, 1), (6, 1), (7, 1), (8, 4), (12, 4)] + [(x, 8) for x in range(16, 120, 8)] + [(120, 4), (124, 4)]


def layout(b, at=0):
    """Header offsets and array block offsets of the section whose header starts at byte at."""
    u = lambda o, n=8: int.from_bytes(b[at + o:at + o + n], "little", signed=True)
    return {"hdr": at, "name": (u(24), u(16)), "meta": (u(56), u(48), u(64), u(72)), "blocks": (u(88), u(96)), "sect": (u(168), u(160), u(176))}


def packed(b, at):
    """Byte ranges holding compressed data with its own checksum."""
    L = layout(b, at)
    out = []
    mo, ms, mc, mu = L["meta"]
    if mc < mu and mc:
        out.append((mo, mc))
    bo, n = L["blocks"]
    for i in range(n):
        q = b[bo + 128 * i:bo + 128 * i + 128]
        off, cs, us = (int.from_bytes(q[o:o + 8], "little") for o in (96, 104, 112))
        if cs < us and not int.from_bytes(q[120:124], "little"):
            out.append((off, cs))
    return out


def hurt(g, b, kind, regions):
    """One change of the bytes."""
    n = len(b)
    lo, ln = regions[int(g.integers(0, len(regions)))] if regions and g.random() < .7 else (0, n)
    if not ln or lo >= n:
        lo, ln = 0, n
    ln = min(ln, n - lo)
    p = lo + int(g.integers(0, ln))
    if kind == "bits":
        for _ in range(int(g.choice([1, 1, 2, 5]))):
            q = min(n - 1, lo + int(g.integers(0, ln)))
            b[q] ^= 1 << int(g.integers(0, 8))
    elif kind == "byte":
        b[p] = int(g.choice([0, 1, 255, 127, 128]))
    elif kind in ("zero", "ones", "noise"):
        m = min(n - p, int(g.choice([1, 4, 8, 64, 512, 4096])))
        b[p:p + m] = bytes(m) if kind == "zero" else b"\xff" * m if kind == "ones" else bytes(g.integers(0, 256, m, dtype=np.uint8))
    elif kind == "copy":
        m = min(n - p, int(g.choice([8, 128, 512, 4096])))
        q = int(g.integers(0, n - m + 1))
        b[p:p + m] = b[q:q + m]
    elif kind == "trunc":
        del b[max(1, p):]


def value(g, old, n, size):
    v = [0, 1, -1, 2, old + 1, old - 1, old * 2, old // 2, old + 8, old - 512, size, size - 1, size - 512, size + 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, -(1 << 63), 1 << 40, 1 << 62,
         5, 6, 127, -128, 1 << 15, 255, 65535, int(g.integers(-1 << 62, 1 << 62)), int(g.integers(0, 1 << 20))]
    return int(v[int(g.integers(0, len(v)))]) & ((1 << 8 * n) - 1)


def _damage(rc, op, what):
    import resource
    vm = int(open("/proc/self/statm").read().split()[0]) * 4096 + (400 << 20)
    resource.setrlimit(resource.RLIMIT_AS, (vm, vm))
    g = rng_of(op["s"])
    rc.SetZstdChecksumming(op["crc"])
    hist = []
    starts = []
    for spec in op["secs"]:
        s = build(spec)
        b = simapi.fs_get(FILE)
        new = spec["name"] is None or not hist
        starts = [0] if new else starts + [(len(b) + 511) // 512 * 512]
        save(rc, s, section=spec["name"])
        hist = step(hist, s)
    good = simapi.fs_get(FILE)
    is_file(read_all(rc), hist, what + ": undamaged")
    regions, hdrs, blks, comp = [], [], [], []
    for at in starts:
        L = layout(good, at)
        hdrs.append(at)
        regions += [(at, 208), (at, 512), L["name"], L["blocks"] and (L["blocks"][0], 128 * L["blocks"][1]), L["meta"][:2], L["sect"][:2]]
        blks += [L["blocks"][0] + 128 * i for i in range(L["blocks"][1])]
        comp += packed(good, at)
    regions = [r for r in regions if r[1] > 0]
    for n, dm in enumerate(op["dm"]):
        b = bytearray(good)
        at = "%s: damage %d" % (what, n)
        for kind, sd in dm:
            h = rng_of(sd)
            if kind in ("field", "blk"):
                base = blks if kind == "blk" else hdrs
                if not base:
                    continue
                o, w = (BLK if kind == "blk" else HDR)[int(h.integers(0, len(BLK if kind == "blk" else HDR)))]
                o += base[int(h.integers(0, len(base)))]
                v = value(h, int.from_bytes(good[o:o + w], "little", signed=True), w, len(good))
                b[o:o + w] = v.to_bytes(w, "little")
            else:
                hurt(h, b, kind, regions)
        simapi.fs_put(FILE, bytes(b))
        if VERBOSE:
            x = np.frombuffer(bytes(b[:len(good)]), np.uint8) != np.frombuffer(good[:len(b)], np.uint8)
            sys.stderr.write("%s: %r at %r blocks %r\n" % (at, dm, np.flatnonzero(x)[:20], [layout(good, a) for a in starts]))
        look(rc, g, at, hist)
    for o, size in comp[:8] if op["crc"] else []:
        b = bytearray(good)
        for _ in range(int(g.choice([1, 1, 2, 8]))):
            b[o + int(g.integers(0, size))] ^= int(g.integers(1, 256))
        if b == good:
            continue
        simapi.fs_put(FILE, bytes(b))
        try:
            f = read_all(rc)
        except (ValueError, OSError, MemoryError):
            probe("checksum-refused")
            continue
        try:
            is_file(f, hist, what)
        except simapi.Violation as e:
            violate("undetected-damage", "%s: damaged compressed data with a checksum was read as other data: %s" % (what, e))


def touch(x, depth=0):
    """Use everything a read returned."""
    if isinstance(x, np.ndarray):
        try:
            x.tobytes()
        except MemoryError:  # the address space is limited; adding up needs no copy
            x.view(np.uint8).sum() if x.flags.c_contiguous else None
        return 1
    if isinstance(x, (tuple, list)):
        return sum(touch(y, depth + 1) for y in x) if depth < 6 else 0
    if isinstance(x, dict):
        return sum(touch(k, depth + 1) + touch(v, depth + 1) for k, v in x.items())
    repr(x)
    return 0


def look(rc, g, what, hist):
    """Every way of reading a damaged file must raise or return something that can be used."""
    b = FILE.encode()
    s0 = hist[0][0]
    names = [n.decode("latin1") for n in s0.names]
    rows = max([0] + [a.shape[0] for a in s0.arrays if a is not None and a.ndim])
    m = g.random(rows) < g.choice([0, .1, .5, 1])
    pick = g.permutation(8)[:3]
    for k in pick:
        if VERBOSE:
            sys.stderr.write("%s read %d\n" % (what, k))
        try:
            if k == 0:
                r = rc.DecompressFile(b, 3)
            elif k == 1:
                r = rc.MultiDecompressFiles([b], 3)
            elif k == 2:
                r = rc.DecompressFile(b, 5)
            elif k == 3:
                r = rc.MultiDecompressFiles([b, b], int(g.choice([3, 5])))
            elif k == 4:
                r = rc.MultiStackFiles([b, b], 3, mustexist=bool(g.random() < .5))
            elif k == 5:
                r = rc.MultiStackFiles([b], 3, mask=m)
            elif k == 6:
                r = rc.DecompressFile(b, 3, mask=m)
            else:
                r = rc.MultiDecompressFiles([b], 3, include=[n.encode("latin1") for n in names[:2]], mask=m)
        except (ValueError, OSError, MemoryError, RuntimeError) as e:
            probe("refused")
        else:
            if touch(r):
                probe("arrays")
        fds(what + ": after reading")


# ------------------------------------------------------------------ P16: filtered, stacked and concatenated reads
FAMS = [["i1", "i2", "i4", "i8"], ["u1", "u2", "u4", "u8"], ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"], ["f4", "f8", "g"], ["b1"], ["S1", "S3", "S8", "S20"],
        ["U1", "U4"], ["S1", "S3", "S8", "U1", "U4"], ["c8"], ["c16"], ["V5"], ["i4"], ["f8"], ["i1", "i4", "i8", "u2", "u4", "f4", "f8", "b1"], ["S3", "i4", "V5", "c8"]]


def gen_P16(rng, cfg):
    cfg.update(io_kinds=kinds(SHORT, EINTR), p_io=rng.choice([0, 0, 0, 5000, 100000]))
    pool = []
    for i in range(rng.choice([1, 2, 2, 3, 5, 8])):
        cat = rng.random() < .15
        pool.append({"n": ("k%d!0" if cat else rng.choice(["c%d", "C%d", "col %d", "v%d"])) % i, "fam": rng.choice(FAMS), "f": 2 if cat else rng.choice([1] * 9 + [0, 3, 5, 9, 17]),
                     "sh": rng.choice(["1", "1", "1", "1", "2c", "2f", "3c", "3f"]), "in": [rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([1, 2, 3])]})
    files = []
    big = rng.random() < .3
    ftype = rng.choice([2, 2, 2, 2, 3, 3, 1, 4])
    for i in range(rng.choice([1, 2, 2, 3, 4, 6])):
        secs = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 5, 100, 1000, 9999, 10001, 25000] if big else [0, 1, 1, 2, 5, 17, 300])
            cols = []
            for c in pool:
                if rng.random() < .15:
                    continue
                odd = rng.random() < .01
                rows = n if ftype in (2, 3) and c["f"] & 1 and rng.random() < .99 else rng.choice([0, 1, 3, 50, n])
                cols.append({"n": c["n"], "d": rng.choice(rng.choice(FAMS) if odd else c["fam"]), "rows": rows, "sh": c["sh"] if rng.random() < .99 else rng.choice(["1", "2c", "2f"]),
                             "in": c["in"], "f": c["f"], "c": rng.choice(["rand", "rand", "rand", "same"])})
            rng.random() < .2 and rng.shuffle(cols)
            secs.append({"cols": cols, "meta": rng.choice([0, 1, 100]), "comp": rng.choice([0, 1, 1]), "lev": 1, "ft": ftype if rng.random() < .98 else rng.choice([1, 2, 3, 4]),
                         "band": rng.choice([0, 0, 10000, 10001]), "s": rng.getrandbits(40)})
        files.append(secs)
    ops = []
    for i in range(rng.choice([1, 2, 4])):
        r = {"k": rng.choice(["stack", "stack", "stack", "multi", "one", "concat", "possibly"]), "fs": [rng.randrange(len(files)) if rng.random() < .2 else j for j in range(len(files))],
             "s": rng.getrandbits(32)}
        if rng.random() < .15:
            r["fs"].insert(rng.randrange(len(r["fs"]) + 1), -1)
        if rng.random() < .4:
            r["inc"] = [c["n"] if rng.random() < .7 or "!" not in c["n"] else c["n"].split("!")[0] for c in pool if rng.random() < .6] + ["nothing"] * rng.choice([0, 1])
        if rng.random() < .5:
            r["mask"] = [rng.choice([0, .01, .1, .5, .9, 1]), rng.choice([0, 0, 0, 0, -1, 1, -10, 50, -1000000]), rng.choice(["rand", "rand", "runs"])]
            r["fancy"] = rng.choice([None, None, None, True, False])
        if rng.random() < .15:
            r["reserve"] = rng.choice([.1, .5, 1.0, 3.0])
        if rng.random() < .2:
            r["must"] = True
        ops.append(r)
    return {"cfg": cfg, "w": {"ops": [{"k": "select", "files": files, "reads": ops}]}}


NUM = {"b1": 0, "i1": 1, "u1": 2, "i2": 3, "u2": 4, "i4": 5, "u4": 6, "i8": 9, "u8": 10, "f4": 11, "f8": 12, "f16": 13, "c8": 14, "c16": 15}
INV = {v: k for k, v in NUM.items()}


def num(t):
    return {"S": 18, "U": 19, "V": 20}.get(t.kind) or NUM[t.kind + str(t.itemsize)]


def cls(n):
    return "i" if n in (0, 1, 3, 5, 9) else "u" if n in (2, 4, 6, 10) else "f" if n in (11, 12, 13) else "s" if n in (18, 19) else "x"


def promote(m, o):
    """The dtype of a stacked column after another file with dtype o, or None when they do not go together."""
    a, b = num(m), num(o)
    if a == b:
        return (m if m.itemsize >= o.itemsize else o) if cls(a) == "s" else m if m.itemsize == o.itemsize else None
    x, y = cls(a), cls(b)
    if x == y == "s":
        chars = max(m.itemsize // (4 if a == 19 else 1), o.itemsize // (4 if b == 19 else 1))
        return np.dtype("U%d" % chars)
    if "x" in (x, y) or "s" in (x, y):
        return None
    if x == y:
        return np.dtype(INV[max(a, b)])
    lo, hi = min(a, b), max(a, b)
    if "f" in (x, y):
        return np.dtype("f8") if lo >= 5 and hi < 12 else np.dtype(INV[hi])
    if (lo, hi) == (9, 10):
        return m
    n = min(9, hi | 1)
    return np.dtype(INV[9 if n == 7 else n])


def invalid(t):
    return np.iinfo(t).min if t.kind == "i" else np.iinfo(t).max if t.kind == "u" else np.nan if t.kind == "f" else False if t.kind == "b" else np.zeros(1, t)[0]


def convert(a, t):
    a = expect(a)
    if a.dtype == t:
        return a
    if t.kind == "U" and a.dtype.kind == "S":
        w = a.dtype.itemsize
        r = np.zeros(a.shape, t)
        if a.size:
            v = r.reshape(-1).view("u4").reshape(-1, t.itemsize // 4)
            v[:, :w] = np.frombuffer(a.tobytes(), np.uint8).reshape(-1, w)
            r = v.reshape(-1).view(t).reshape(a.shape)
        return r
    if t.kind in "SU":
        return a.astype(t)
    with np.errstate(all="ignore"):
        r = a.astype(t)
        bad = np.isnan(a) if a.dtype.kind == "f" else a == invalid(a.dtype) if a.dtype.kind in "iu" else np.zeros(a.shape, bool)
    r = np.ascontiguousarray(r)
    r[bad] = invalid(t)
    return r


def included(n, ft, inc):
    if inc is None:
        return True
    return n in inc or ("!" in n and n.split("!")[0] in inc)


class Refused(Exception):
    pass


def stack_model(secs, inc, mask, fancy, reserve):
    kings, lens = {}, [0] * len(secs)
    for v, s in enumerate(secs):
        for nm, fl, a in zip(s.names, s.flags, s.arrays):
            nm = nm.decode()
            if not included(nm, s.ft, inc):
                continue
            if mask is not None and s.ft not in (2, 3):
                raise Refused("filter on a file which is not a dataset")
            e = expect(a)
            k = kings.get(nm)
            fl3 = (e.flags.c_contiguous, e.flags.f_contiguous)
            if k is None:
                kings[nm] = k = {"dt": e.dtype, "fl": fl, "nd": e.ndim, "in": e.shape[1:], "ord": fl3, "by": {}}
            else:
                t = promote(k["dt"], e.dtype)
                if t is None or k["nd"] != e.ndim or k["in"] != e.shape[1:]:
                    raise Refused("%s: %s%s with %s%s" % (nm, k["dt"], k["in"], e.dtype, e.shape))
                k["dt"] = t
                if e.ndim > 1 and fl3 != (True, True):
                    if k["ord"] not in ((True, True), fl3):
                        raise Refused("memory order")
                    k["ord"] = fl3
            k["by"][v] = a
            if s.ft in (2, 3) and fl & 1:
                lens[v] = a.shape[0]
    total = sum(lens)
    if mask is not None and kings and fancy is not None and (len(mask) > total or (not fancy and len(mask) < total)):
        raise Refused("filter length")
    rows, count = None, None
    out = []
    for nm, k in kings.items():
        use = mask is not None and secs[0].ft in (2, 3, 4) and k["fl"] & 1 and not k["fl"] & (4 | 8 | 16)
        parts, sizes, off = [], [], 0
        first = rows is None
        if use and first:
            rows, count = {}, {}
        for v in range(len(secs)):
            a = k["by"].get(v)
            if a is not None and a.shape[0] == 0:
                a = None
            n = lens[v] if a is None else a.shape[0]
            if use:
                m = mask[off:off + n]
                m = np.concatenate([m, np.zeros(n - len(m), bool)])
                off += n
                if first:
                    rows[v], count[v] = n, int(m.sum())
                elif rows[v] != n:
                    raise Refused("columns of unequal length")
            elif rows is not None and count[v] == 0:
                n = 0
                a = None
                m = None
            else:
                m = None
            if a is None:
                p = np.full((n,) + k["in"], invalid(k["dt"]), k["dt"])
            else:
                p = convert(a, k["dt"])
            p = p[m] if use else p
            parts.append((p, a is None))
            sizes.append(p.shape[0])
        size = sum(sizes)
        cut = np.cumsum(sizes)
        if reserve and not use and len(cut):
            cut[-1] += int(size * min(reserve, 1.0))
        out.append((nm, k["fl"], k["dt"], k["in"], parts, cut))
    return out


def check_stack(r, secs, inc, mask, fancy, reserve, paths, what):
    want = stack_model(secs, inc, mask, fancy, reserve)
    if r is None:
        if want:
            violate("missing", "%s: nothing was returned" % what)
        return
    got = [(i.itemname, i.flags) for i in r.array_infos]
    if got != [(w[0].encode(), w[1]) for w in want]:
        violate("wrong-columns", "%s: columns %r instead of %r" % (what, got, [w[:2] for w in want]))
    if list(r.file_metadata) != [s.meta for s in secs]:
        violate("wrong-meta", "%s: meta data of the files differs" % what)
    if list(r.filenames) != [p.encode() for p in paths]:
        violate("wrong-files", "%s: file names %r instead of %r" % (what, r.filenames, paths))
    for i, (nm, fl, dt, inner, parts, cut) in enumerate(want):
        a, c = r.arrays[i], r.array_cutoffs[i]
        w = "%s: column %s" % (what, nm)
        if list(c) != list(cut):
            violate("wrong-cutoffs", "%s: cutoffs %r instead of %r" % (w, list(c), list(cut)))
        if a.dtype != dt or a.shape != (int(cut[-1]) if len(cut) else 0,) + inner:
            violate("wrong-array", "%s: %s%s instead of %s%s" % (w, a.dtype, a.shape, dt, ((int(cut[-1]) if len(cut) else 0),) + inner))
        at = 0
        for v, (p, gap) in enumerate(parts):
            x = np.ascontiguousarray(a[at:at + p.shape[0]])
            at += p.shape[0]
            if gap and dt.kind in "cV":
                continue
            p = np.ascontiguousarray(p)
            if dt.kind == "f":
                bad = ~((x == p) | ((x != x) & (p != p)))
            else:
                bad = (x.reshape(-1).view(np.uint8) != p.reshape(-1).view(np.uint8)) if p.size else np.zeros(0, bool)
            if bad.any():
                j = np.flatnonzero(bad.reshape(-1))
                violate("wrong-values", "%s: file %d (%s): %d differences, first at %d: got %r, want %r (%s, %s)" %
                        (w, v, "missing" if gap else "saved", len(j), j[0], x.reshape(-1)[:3], p.reshape(-1)[:3], dt, p.shape))


def build_cols(spec):
    g = rng_of(spec["s"])
    s = Sec()
    s.spec, s.ft = spec, spec["ft"]
    s.arrays = []
    for c in spec["cols"]:
        n = c["rows"]
        inner = [] if c["sh"] == "1" else c["in"][:int(c["sh"][0]) - 1]
        a = data(g, c["d"], n * int(np.prod(inner, dtype=int)), c["c"]).reshape([n] + inner)
        s.arrays.append(np.asfortranarray(a) if c["sh"].endswith("f") else a)
    s.names = [c["n"].encode() for c in spec["cols"]]
    s.flags = [c["f"] for c in spec["cols"]]
    s.meta = bytes(g.integers(0, 256, spec["meta"], dtype=np.uint8))
    return s


def _select(rc, op, what):
    simapi.lib.sim_arm(simapi.IO)
    files = []
    for i, secs in enumerate(op["files"]):
        built = [build_cols(x) for x in secs]
        path = "/simfs/f%d.sds" % i
        if not built:
            files.append((path, None))
        for j, s in enumerate(built):
            save(rc, s, path, section="s%d" % j if len(built) > 1 else None)
        if built:
            files.append((path, built))
    for n, r in enumerate(op["reads"]):
        at = "%s: read %d (%s)" % (what, n, r["k"])
        g = rng_of(r["s"])
        fs = [files[i] if i >= 0 else ("/simfs/missing.sds", None) for i in r["fs"]]
        paths = [p for p, b in fs]
        secs = [s for p, b in fs if b for s in b]
        spaths = [p for p, b in fs if b for s in b]
        kw = {}
        inc = r.get("inc")
        if inc is not None:
            kw["include"] = [x.encode() for x in inc]
            if not inc:
                inc = None  # an empty list includes everything
        if "mask" in r:
            dens, extra, style = r["mask"]
            if r["k"] in ("one", "multi"):
                base = secs[0].arrays[0].shape[0] if secs and secs[0].arrays else 0
            else:
                base = sum(max([0] + [a.shape[0] for a, f in zip(s.arrays, s.flags) if f & 1]) for s in secs)
            ln = max(0, base + extra)
            m = g.random(ln) < dens
            if style == "runs":
                m = np.repeat(g.random(ln // 100 + 1) < dens, 100)[:ln]
            kw["mask"] = m
            if r.get("fancy") is not None:
                kw["fancy"] = r["fancy"]
        mask, fancy = kw.get("mask"), kw.get("fancy")
        missing = any(b is None for p, b in fs)
        must = r.get("must", False)
        b = [p.encode() for p in paths]
        err, res = None, None
        try:
            if r["k"] in ("stack", "possibly"):
                fn = rc.MultiStackFiles if r["k"] == "stack" else rc.MultiPossiblyStackFiles
                if r.get("reserve"):
                    kw["reserve"] = r["reserve"]
                res = fn(b, 3, mustexist=must, **kw)
            elif r["k"] == "multi":
                res = rc.MultiDecompressFiles(b, 3, mustexist=must, **kw)
            elif r["k"] == "one":
                kw = {k: v for k, v in kw.items() if k == "mask"}
                fancy = None
                inc = None
                res = rc.DecompressFile(b[0], 3, **kw)
            else:
                simapi.fs_put(FILE, None)
                rc.MultiConcatFiles(b, 3, output=FILE)
                res = rc.MultiDecompressFiles([FILE.encode()], 3)
        except ValueError as e:
            err = e
        fds(at)
        why = None
        k = r["k"]
        try:
            if k == "possibly":
                if fs[0][1] is None:
                    raise Refused("first file missing")
                k = "multi"
            if k == "concat":
                if missing:
                    raise Refused("missing file")
                if err is None:
                    check_list(res, secs, None, None, at)
                    probe("concat")
            elif must and missing and k != "one":
                raise Refused("missing file")
            elif k == "stack":
                if not secs:
                    raise Refused("no file")
                if err is None:
                    check_stack(res, secs, inc, mask, fancy, r.get("reserve"), spaths, at)
                    probe("stacked" if mask is None else "stacked-filtered")
                else:
                    stack_model(secs, inc, mask, fancy, r.get("reserve"))
            elif k == "multi":
                if missing and len(fs) == 1:
                    raise Refused("no file")
                for s in secs:
                    if mask is not None and fancy is not None and s.arrays:
                        d = s.arrays[0].shape[0]
                        if d < len(mask) or (not fancy and d != len(mask)):
                            raise Refused("filter length")
                if err is None:
                    # a missing file is one empty entry
                    want = [x for p, b in fs for x in (b or [None])]
                    if len(res) != len(want):
                        violate("wrong-count", "%s: %d entries for %d sections" % (at, len(res), len(want)))
                    for x, s in zip(res, want):
                        if s is None and x is not None and (x.columns or x.container_items or x.file_header):
                            violate("not-missing", "%s: a missing file gave %r" % (at, x))
                    check_list([x for x, s in zip(res, want) if s], secs, inc, mask, at)
                    probe("multi" if mask is None else "multi-filtered")
            else:
                if fs[0][1] is None:
                    raise Refused("missing file")
                if err is None:
                    check_list(res[:1], fs[0][1][:1], None, mask, at)
                    probe("one" if mask is None else "one-filtered")
        except Refused as e:
            why = e
        if why is not None and err is None:
            violate("not-refused", "%s: was not refused although: %s" % (at, why))
        if why is None and err is not None:
            violate("refused", "%s: raised %s" % (at, err))
        if why is not None:
            probe("refused")


def check_list(f, secs, inc, mask, what):
    if len(f) != len(secs):
        violate("wrong-count", "%s: %d sections instead of %d" % (what, len(f), len(secs)))
    for i, (x, s) in enumerate(zip(f, secs)):
        w = "%s: section %d" % (what, i)
        if x.column_metadata != s.meta:
            violate("wrong-meta", "%s: meta data differs" % w)
        pick = [included(nm.decode(), s.ft, inc) for nm in s.names]
        check_names(x.container_items, s, w)
        if len(x.columns) != len(s.arrays):
            violate("wrong-count", "%s: %d arrays instead of %d" % (w, len(x.columns), len(s.arrays)))
        for nm, got, a, fl, p in zip(s.names, x.columns, s.arrays, s.flags, pick):
            a = expect(a)
            if not p:
                if got is not None:
                    violate("wrong-columns", "%s: %s was read although it is not included" % (w, nm))
                continue
            if mask is not None and fl & 1 and not fl & (4 | 8 | 16) and s.ft in (2, 3, 4):
                n = min(len(mask), len(a))
                a = a[:n][mask[:n]]
            if got is None or got.dtype != a.dtype or got.shape != a.shape or got.tobytes() != a.tobytes():
                violate("wrong-array", "%s: %s: %s instead of %s %s" % (w, nm, None if got is None else "%s%s" % (got.dtype, got.shape), a.dtype, a.shape))


# ------------------------------------------------------------------ P18
def shm_name(share):
    return ("Global_%s!%s" % (share, FILE.rsplit("/", 1)[1])).encode()


def shm_read(share):
    """The bytes behind a share name, or None."""
    fd = simapi.lib.shm_open(shm_name(share), os.O_RDWR, 0)
    if fd < 0:
        return None
    b = os.pread(fd, os.fstat(fd).st_size, 0)
    os.close(fd)
    return b


def shm_write(share, b):
    fd = simapi.lib.shm_open(shm_name(share), os.O_RDWR, 0)
    os.ftruncate(fd, 0)
    os.pwrite(fd, b, 0)
    os.close(fd)


def check_share(f, cand, what, file):
    """What a load returned (f from shared memory is an SDSFileInfo, a plain load gives a list); cand: the sections it may be."""
    if isinstance(f, list):
        if not file:
            violate("not-refused", "%s: a list was returned although there is no file" % what)
        check_file(f[0], file, what)
        probe("plain")
        return
    if not cand:
        violate("not-refused", "%s: %r was returned although there is nothing to load" % (what, f))
    s = [c for c in cand if c.meta == f.column_metadata and len(c.arrays) == len(f.columns)] or cand
    s = s[0]
    if f.column_metadata != s.meta:
        violate("wrong-meta", "%s: meta data of %d bytes instead of %d, or other bytes" % (what, len(f.column_metadata), len(s.meta)))
    check_names(f.container_items, s, what)
    if len(f.columns) != len(s.arrays):
        violate("wrong-count", "%s: %d arrays instead of %d" % (what, len(f.columns), len(s.arrays)))
    for i, (got, want) in enumerate(zip(f.columns, s.arrays)):
        same_array(got, want, "%s, array %d" % (what, i))
    probe("shared")
    return s


def _share(rc, op, what):
    g = rng_of(op["s"])
    ARM = simapi.IO | simapi.SHM
    built = [build(x) for x in op["secs"]]
    file = None

    def write(secs):
        simapi.fs_put(FILE, None)
        for s, x in secs:
            save(rc, s, section=x["name"])

    # the file is one section, then the others appended with a name
    first = [(built[0], op["secs"][0])] + [(s, x) for s, x in zip(built[1:], op["secs"][1:]) if x["name"]]
    write(first)
    file = built[0]
    held = {}
    state = {}
    spoilt = set()
    keep = []
    for n, (k, share, a) in enumerate(op["steps"]):
        at = "%s: step %d (%s %s)" % (what, n, k, share[:3])
        s = built[a % len(built)]
        have = shm_read(share) if len(share) < 200 else None
        # what the name may hold: sections, or None for nothing that can be used
        was = state.get(share, [None])
        if have is None:
            was = [None]
        elif all(c is None for c in was) and share not in spoilt:
            violate("leftover", "%s: shared memory was left behind" % at)
        if k == "drop":
            simapi.lib.shm_unlink(shm_name(share))
            continue
        if k == "incomplete":
            if have is not None:
                # another process is still filling it, or died while filling it
                w = g.integers(0, 3)
                b = bytearray(have)
                if w == 0:
                    b[:] = bytes(len(b))
                elif w == 1:
                    b = b[:int(g.integers(0, min(len(b), 512)))]
                else:
                    # the magic number is written last
                    b[:2] = b"\0\0"
                    p = int(g.integers(512, max(513, len(b))))
                    b[p:] = bytes(max(0, len(b) - p))
                # existing mappings of the old object stay as they are
                simapi.lib.shm_unlink(shm_name(share))
                fd = simapi.lib.shm_open(shm_name(share), os.O_RDWR | os.O_CREAT, 0o666)
                os.pwrite(fd, bytes(b), 0)
                os.close(fd)
                state[share] = [None]
                spoilt.add(share)
            continue
        if k == "limit":
            simapi.lib.sim_shm_limit(int(g.choice([-1, 0, 512, 4096, 30000, 200000])))
            continue
        if k == "resave":
            write([(s, op["secs"][a % len(built)])])
            file = s
            # later loads of the old name keep the old contents
            continue
        if k == "lose":
            simapi.fs_put(FILE, None)
            file = None
            continue
        lim = simapi.faults("shm_full") + simapi.faults("shm_full_sigbus")
        faults = simapi.faults()
        if not op["quiet"]:
            simapi.lib.sim_arm(ARM)
        err, r = None, None
        kw = {}
        try:
            if k == "store":
                r = save(rc, s, share=share.encode())
            elif k == "plain":
                r = rc.DecompressFile(FILE.encode(), 3)
            elif k == "info":
                r = rc.DecompressFile(FILE.encode(), 5, share.encode())
            elif k == "mask":
                r = rc.DecompressFile(FILE.encode(), 3, share.encode(), mask=np.ones(0, bool) if a == 0 else g.random(2000) < .5)
            else:
                r = rc.DecompressFile(FILE.encode(), 3, share.encode())
        except (ValueError, OSError, MemoryError, RuntimeError) as e:
            err = e
        simapi.lib.sim_disarm(ARM)
        fds(at)
        faulty = simapi.faults() != faults or simapi.faults("shm_full") + simapi.faults("shm_full_sigbus") != lim
        now = shm_read(share) if len(share) < 200 else None
        full = [c for c in was if c]
        if k == "store":
            if err is None:
                state[share] = [s]
                spoilt.discard(share)
                if now is None:
                    violate("lost", "%s: nothing is stored" % at)
                probe("stored")
            else:
                if not faulty and len(share) < 200:
                    violate("refused", "%s: raised %s" % (at, err))
                # a failed store leaves the old contents or nothing
                state[share] = was if now is not None else [None]
                probe("store-refused")
            continue
        if err is not None:
            if not faulty and (file is not None or (full and k != "plain")) and k != "mask":
                violate("read-failed", "%s: raised %s" % (at, err))
            probe("load-refused")
        elif k == "load" or k == "plain":
            hit = check_share(r, full + [file] * (k == "load" and file is not None), at, file)
            if isinstance(r, list):
                if k == "load" and None not in was and not faulty:
                    violate("not-shared", "%s: the file was read although it is in shared memory" % at)
                hit = file
            elif None not in was and hit not in was and not faulty:
                violate("not-shared", "%s: the file was read although it is in shared memory" % at)
            keep.append((r, hit, at))
        elif k == "info":
            if isinstance(r, list):
                check_info(r[0], file, at)
            elif not full:
                violate("not-refused", "%s: returned %r" % (at, r))
            elif not any(r.column_metadata == c.meta and [i.itemname for i in r.container_items] == c.names for c in full):
                violate("wrong-info", "%s: other meta data or names" % at)
        if k == "load" and now is not None and file is not None:
            if err is None and not isinstance(r, list):
                state[share] = [hit]
                spoilt.discard(share)
            elif faulty and now is not None:
                state[share] = was + [file]
        if now is None and have is not None and not faulty:
            violate("lost", "%s: the shared memory is gone" % at)
    # arrays which were returned stay as they were
    simapi.lib.sim_shm_limit(-1)
    for r, s, at in keep:
        f = r[0] if isinstance(r, list) else r
        for i, (got, want) in enumerate(zip(f.columns, s.arrays)):
            same_array(got, want, "%s, array %d at the end" % (at, i))
    # and everything works again
    for share in sorted({x[1] for x in op["steps"] if len(x[1]) < 200} | {"x"}):
        st = state.get(share, [None])
        if shm_read(share) is None:
            st = [None]
        if None in st:
            simapi.lib.shm_unlink(shm_name(share))
            st = [file]
            if file is None:
                continue
        for j in range(2):
            r = rc.DecompressFile(FILE.encode(), 3, share.encode())
            if isinstance(r, list):
                violate("not-shared", "%s: %s is not used once the faults stopped" % (what, share))
            check_share(r, st, "%s: %s at the end" % (what, share), file)
        simapi.lib.shm_unlink(shm_name(share))
