"""P20: the array recycler."""
import gc, weakref
import numpy as np
import common, ops, simapi
from ops import rng_of
from simapi import violate, probe

SIZES = [1, 2, 7, 8, 9, 10, 1000, 1023, 40000]
GHZ = 3         # cycles of the simulated time stamp counter per nanosecond
KINDS = ["new", "new", "new", "new", "drop", "drop", "drop", "view", "call", "odd", "weak", "deref", "mutate", "temp", "recycle", "gc", "drain", "auto", "mode", "timeout", "time", "list"]


def gen(rng, tier, pid):
    sizes = [rng.choice(SIZES) for _ in range(rng.choice([1, 1, 2, 3]))]
    types = [rng.choice([0, 1, 5, 7, 9, 11, 12, 13, rng.randrange(14)]) for _ in range(rng.choice([1, 1, 2, 3]))]
    w = []
    bias = rng.sample(KINDS, 6)
    for _ in range(rng.choice([10, 30, 60, 120])):
        k = rng.choice(KINDS if rng.random() < .6 else bias)
        w.append({"k": k, "n": rng.choice(sizes), "t": rng.choice(types), "i": rng.randrange(1000), "v": rng.choice([0, 0, 1, 2, 5, 20, 100, 1000, 10 ** 6]), "m": rng.randrange(20)})
    return {"cfg": common.sched(rng), "w": {"ops": w, "arr": rng.random() < .3}}


shrink = ops.shrink_ops


class State:
    pass


def run(w):
    rc = simapi.load()
    rc.SetRecycleMode(0)

    class FastArray(np.ndarray):
        pass

    rc.SetFastArrayType(np.zeros(1).view(FastArray), FastArray)
    s = State()
    s.FA, s.live, s.weak, s.classes = FastArray, [], [], set()
    s.on, s.timeout, s.seed, s.born, s.lastgc = True, rc.RecycleSetGarbageCollectTimeout(100), 0, [], 0
    rc.RecycleSetGarbageCollectTimeout(s.timeout)
    probe("default timeout %d" % s.timeout)
    for n, op in enumerate(w["ops"]):
        s.what = "op %d (%s)" % (n, op["k"])
        globals()["_" + op["k"]](rc, s, op)
        verify(s, op["n"] < 2000 or n % 8 == 0)
    verify(s, True)
    s.what = "the end"
    h = held(rc, s)
    s.live.clear()
    s.weak.clear()
    _drain(rc, s, {})
    probe("held %d" % h)


def span(a):
    return np.byte_bounds(a)


def expected(seed, n):
    return rng_of(seed).integers(0, 256, n, dtype=np.uint8)


def raw(a):
    return np.frombuffer(a, dtype=np.uint8) if a.flags.c_contiguous else np.frombuffer(a.tobytes(), np.uint8)


class Live:
    """A reference the user holds; its contents must stay as they were written."""
    def __init__(self, s, a, keep=None):
        self.a, self.lo, self.hi = a, *span(a)
        self.content = a.tobytes()
        self.meta = (a.dtype, a.shape, a.strides, a.flags.writeable)
        self.group = keep        # arrays made from one another share memory
        self.extra = None


def verify(s, deep):
    for e in s.live:
        a = e.a
        if a.ndim == 1 and a.dtype.num < 14:
            s.classes.add((len(a).bit_length(), a.dtype.num))
        if (a.dtype, a.shape, a.strides, a.flags.writeable) != e.meta or span(a) != (e.lo, e.hi):
            violate("changed", "%s: a live array of %s became %s" % (s.what, e.meta, (a.dtype, a.shape, a.strides, a.flags.writeable)))
        if deep and a.tobytes() != e.content:
            violate("changed", "%s: the contents of a live array (%s) changed" % (s.what, e.meta[:2],))


def add(s, a, group=None):
    e = Live(s, a, group if group is not None else object())
    s.live.append(e)
    if type(a) is s.FA and a.base is None:
        s.born.append(weakref.ref(a))
    return e


def fresh(rc, s, a, n, t, how, fastarray=True):
    """a was just handed out by the module as a new array."""
    if not isinstance(a, np.ndarray):
        violate("not an array", "%s: %s gave %r" % (s.what, how, type(a)))
    if a.dtype.num != t or not a.dtype.isnative or a.dtype.fields or a.dtype.metadata:
        violate("wrong type", "%s: %s of type %d gave an array of %r" % (s.what, how, t, a.dtype))
    if a.shape != (n,):
        violate("wrong shape", "%s: %s of %d items gave %s" % (s.what, how, n, a.shape))
    f = a.flags
    if not (f.writeable and f.c_contiguous and f.aligned):
        violate("wrong flags", "%s: %s gave an array that is not writeable, contiguous and aligned (%s)" % (s.what, how, f))
    if fastarray and type(a) is not s.FA:
        violate("wrong class", "%s: %s gave a %s" % (s.what, how, type(a)))
    if getattr(a, "_name", None) is not None:
        violate("stale name", "%s: %s gave an array named %r" % (s.what, how, a._name))
    lo, hi = span(a)
    for e in s.live:
        if lo < e.hi and e.lo < hi:
            violate("shared memory", "%s: %s of type %d and %d items gave memory of a live array of %s %s" % (s.what, how, t, n, e.meta[0], e.meta[1]))
    for r in s.weak:
        x = r[0]()
        if x is a:
            probe("reused under a weak reference")
    s.classes.add((n.bit_length(), t))


def fill(s, a):
    s.seed += 1
    a.view(np.uint8)[:] = expected(s.seed, a.nbytes)


def counts(rc, s):
    d = rc.RecycleGarbageCollectNow(10 ** 9)       # deletes nothing
    h = d["Heads"] - d["Tails"]
    if d["TotalDeleted"]:
        violate("early release", "%s: garbage collection with an endless time limit released %d arrays" % (s.what, d["TotalDeleted"]))
    s.lastgc = simapi.lib.sim_rdtsc()
    return d, h


def held(rc, s):
    d, h = counts(rc, s)
    if not 0 <= h <= 4 * max(1, len(s.classes)):
        violate("unbounded", "%s: the recycler holds %d arrays, of %d sizes and types" % (s.what, h, len(s.classes)))
    return h


def _new(rc, s, op):
    n, t, how = op["n"], op["t"], op["m"] % 6
    hits = None
    if how <= 2:
        a = rc.Empty([n], t, 0, bool(how & 1))
        fresh(rc, s, a, n, t, "Empty")
    elif how <= 4:
        like = np.zeros(n, np.int8)
        a = rc.AllocateNumpy(like, t)
        del like
        fresh(rc, s, a, n, t, "AllocateNumpy")
    else:
        like = [np.zeros(n + 1, np.int8), np.zeros(n, np.int8)]
        a = rc.TryRecycleNumpy(t, like)
        if a is None:
            probe("nothing to recycle")
            return
        probe("recycled")
        if a.shape == (n + 1,):
            n += 1
        fresh(rc, s, a, n, t, "TryRecycleNumpy")
    fill(s, a)
    if op["m"] > 14:
        a._name = "name%d" % op["i"]
    add(s, a)


def pick(s, op):
    return s.live[op["i"] % len(s.live)] if s.live else None


def _drop(rc, s, op):
    if s.live:
        for _ in range(1 + (op["m"] % 4 == 0)):
            if s.live:
                e = s.live.pop(op["i"] % len(s.live))
                del e


def _view(rc, s, op):
    e = pick(s, op)
    if e is None:
        return
    a, m = e.a, op["m"] % 8
    probe("view %d" % m)
    extra = None
    try:
        if m == 0:
            b = a[1:] if a.ndim else a
        elif m == 1:
            b = a[::-2] if a.ndim else a
        elif m == 2:
            b = a.view(np.ndarray)
        elif m == 3:
            extra = memoryview(a)
            b = np.frombuffer(extra, np.uint8) if a.flags.c_contiguous and a.nbytes else np.asarray(a)
        elif m == 4:
            b = a.reshape(1, -1)
        elif m == 5:
            b = a.view(np.uint8)
        elif m == 6:
            b = rc.AsFastArray(a) if a.ndim == 1 else a
        else:
            b = a[:1] if a.ndim else a
    except (ValueError, TypeError, BufferError, IndexError):
        return
    if not isinstance(b, np.ndarray) or not (np.shares_memory(a, b) or not b.nbytes):
        probe("odd view")
        return
    f = add(s, b, e.group)
    f.extra = extra
    del a, b


def _list(rc, s, op):
    """Another name for the same array."""
    e = pick(s, op)
    if e is not None:
        f = add(s, e.a, e.group)


def _call(rc, s, op):
    """The result of an operation."""
    n = op["n"]
    g = rng_of(op["i"])
    x = g.integers(0, 100, n).astype(np.int64)
    y = g.integers(0, 100, n).astype(np.int64)
    if op["m"] % 2 and s.on:
        x = x.copy().view(np.ndarray)
    if n < 2:
        return
    for j in range(1 + op["m"] % 3):
        a = rc.BasicMathTwoInputs((x, y), 1, 7)     # addition of int64
        if a is None:
            probe("punted")
            return
        if a.dtype != np.int64 or a.shape != (n,) or not np.array_equal(np.asarray(a), x + y):
            violate("wrong result", "%s: the sum of two int64 arrays of %d items is wrong" % (s.what, n))
        fresh(rc, s, a, n, a.dtype.num, "an addition")
        if j == 0:
            add(s, a)
        del a


def _odd(rc, s, op):
    """Arrays of the recycling class that cannot stand for a new one."""
    n, m, FA = op["n"], op["m"] % 12, s.FA
    dt = np.dtype("f8") if op["t"] in (0, 7, 9) else np.dtype("i4")
    probe("odd %d" % m)
    if m == 0:
        a = FA((n,), dt.newbyteorder())
    elif m == 1:
        a = FA((n,), dt)
        a.setflags(write=False)
    elif m == 2:
        a = FA((2, n), dt)
    elif m == 3:
        a = FA((n,), dt, buffer=bytearray(n * dt.itemsize + 8))
    elif m == 4:
        class Sub(FA):
            pass
        a = Sub((n,), dt)
    elif m == 5:
        a = FA((n,), "M8[s]")
    elif m == 6:
        a = FA((n,), "S3")
    elif m == 7:
        a = FA((), dt)
    elif m == 8:
        a = FA((0,), dt)
    elif m == 9:
        a = FA((n,), np.dtype(dt, metadata={"a": 1}))
    elif m == 10:
        a = FA((n,), [("x", "f4"), ("y", "i2")])
    else:
        a = FA((n,), np.dtype((dt, [("lo", "i%d" % (dt.itemsize // 2)), ("hi", "i%d" % (dt.itemsize // 2))])))
    if a.flags.writeable:
        s.seed += 1
        b = np.asarray(a).reshape(-1).view(np.uint8) if a.dtype.fields is None or m == 10 else np.ndarray((a.nbytes,), np.uint8, a)
        b[:] = expected(s.seed, a.nbytes)
        del b
    if op["m"] > 11:
        a._name = "odd"
    add(s, a)


def _weak(rc, s, op):
    e = pick(s, op)
    if e is not None:
        try:
            s.weak.append([weakref.ref(e.a)])
        except TypeError:
            pass


def _deref(rc, s, op):
    """A weak reference may bring an array back; it is then as live as any other."""
    if not s.weak:
        return
    a = s.weak.pop(op["i"] % len(s.weak))[0]()
    if a is None:
        probe("dead")
        return
    for e in s.live:
        if e.a is a:
            return
    if any(np.may_share_memory(e.a, a) for e in s.live):
        # the recycler gave it out again as another user's array, which is now e.a or its base
        probe("weak reference to shared memory")
        return
    probe("revived")
    e = add(s, a)
    del a
    _mutate(rc, s, op, e)


def _mutate(rc, s, op, e=None):
    """In-place changes of a live array."""
    e = e or pick(s, op)
    if e is None or sum(1 for x in s.live if x.group is e.group) > 1:
        return
    a, m = e.a, op["m"] % 6
    try:
        if m == 0:
            a.setflags(write=not a.flags.writeable)
        elif m == 1:
            a.shape = (1, -1) if a.ndim == 1 else (-1,)
        elif m == 2:
            a.dtype = a.dtype.newbyteorder()
        elif m == 3:
            a.dtype = np.uint8
        elif m == 4 and a.flags.owndata:
            a.resize(len(a) * 2 + 1, refcheck=False)
        else:
            a._name = "changed"
    except (ValueError, TypeError, AttributeError):
        return
    probe("mutate %d" % m)
    e.a, e.lo, e.hi = a, *span(a)
    e.content, e.meta = a.tobytes(), (a.dtype, a.shape, a.strides, a.flags.writeable)


def _temp(rc, s, op):
    """RecycleNumpy of an array only the caller's tuple holds."""
    n, t = op["n"], op["t"]
    p = (rc.Empty([n], t, 0, False),)
    fresh(rc, s, p[0], n, t, "Empty")
    fill(s, p[0])
    ok = rc.RecycleNumpy(*p)
    probe("temp %s" % ok)
    e = add(s, p[0])
    del p
    if op["m"] % 3 == 0:
        _mutate(rc, s, op, e)


def _recycle(rc, s, op):
    """Recycling what is still referenced has no effect."""
    e = pick(s, op)
    if e is None:
        return
    r = rc.RecycleNumpy(e.a)
    if r:
        violate("recycled live", "%s: RecycleNumpy took an array (%s) that is still referenced" % (s.what, e.meta[:2],))


def _mode(rc, s, op):
    s.on = op["m"] % 3 != 0
    rc.SetRecycleMode(0 if s.on else 1)
    quiet(rc, s)


def _timeout(rc, s, op):
    p = rc.RecycleSetGarbageCollectTimeout(op["v"])
    if p != s.timeout:
        violate("timeout", "%s: the previous time limit is %d, not %d" % (s.what, p, s.timeout))
    s.timeout = op["v"]
    quiet(rc, s)


def quiet(rc, s):
    """While recycling is off nothing more is kept."""
    if not s.on or not s.timeout:
        d, h = counts(rc, s)
        a = s.FA((50,), np.int32)
        r = weakref.ref(a)
        del a
        if r() is not None or counts(rc, s)[1] != h:
            violate("kept", "%s: an array was kept although recycling is off (time limit %d)" % (s.what, s.timeout))
        probe("off")


def _time(rc, s, op):
    simapi.lib.sim_advance(op["v"] * 10 ** 8)


def _gc(rc, s, op):
    """Only what was unused for longer than the limit goes."""
    before = counts(rc, s)[1]
    x = op["v"] if op["m"] else 10 ** 17
    d = rc.RecycleGarbageCollectNow(x)
    n = d["TotalDeleted"]
    if n and x > 10 ** 9:
        violate("early release", "%s: garbage collection with a limit of %d released %d arrays" % (s.what, x, n))
    after = counts(rc, s)[1]
    if after != before - n:
        violate("miscount", "%s: %d arrays held, %d released, %d left" % (s.what, before, n, after))
    probe("gc %s" % ("some" if n else "none"))


def _drain(rc, s, op):
    """After the limit has passed everything goes."""
    x = 1 + op.get("v", 1) % 50
    before = held(rc, s)
    simapi.lib.sim_advance(x * 10 ** 9)
    d = rc.RecycleGarbageCollectNow(x)
    left = counts(rc, s)[1]
    if left or d["TotalDeleted"] != before:
        violate("not released", "%s: %d of %d arrays unused for longer than the limit are still held" % (s.what, left, before))
    alive(s)


def alive(s, but=0):
    """Every array that nothing refers to any more is gone."""
    live = set(id(e.a) for e in s.live)
    for e in s.live:
        b = e.a
        while isinstance(b, np.ndarray):
            live.add(id(b))
            b = b.base
            if isinstance(b, memoryview):
                b = b.obj
    born = []
    n = 0
    for r in s.born:
        a = r()
        if a is None:
            continue
        if id(a) not in live:
            n += 1
        else:
            born.append(r)
    s.born = born
    if n > but:
        violate("not released", "%s: %d arrays are kept in memory though the recycler holds none" % (s.what, n))
    probe("all released")


def _auto(rc, s, op):
    """Dropping an array releases the ones past the time limit."""
    if not s.on or not s.timeout or s.timeout > 10 ** 5:
        return
    before = held(rc, s)
    simapi.lib.sim_advance(max(s.timeout, 60) * 10 ** 9)
    a = s.FA((1 << 17,), np.int8)
    s.classes.add((18, 1))
    r = weakref.ref(a)
    del a
    h = counts(rc, s)[1]
    kept = r() is not None
    if not kept:
        violate("not recycled", "%s: a dropped array was not kept" % s.what)
    if h != 1:
        violate("not released", "%s: %d of %d arrays unused for longer than the limit are still held" % (s.what, h - 1, before))
    probe("auto")
