"""P26: calls of the module leave their input arrays and everybody's reference counts as they were."""
import copy, ctypes, gc, importlib, os, sys, zlib
import numpy as np
import common, ops, simapi
from simapi import violate, probe

MODS = {"w_math": "P04", "w_sort": "P05", "w_group": "P06", "w_gb": "P07", "w_member": "P08", "w_index": "P09", "w_reduce": "P10", "w_ema": "P11",
        "w_sds": "P12", "w_comp": "P19"}
# the arguments a call is documented to change in place
INPLACE = {"SetItem": lambda a, k: a[:1], "PutMask": lambda a, k: a[:1], "SortInPlace": lambda a, k: a[:1], "SortInPlaceIndirect": lambda a, k: a[:1],
           "RemoveTrailingSpaces": lambda a, k: a[:1], "ReIndexGroups": lambda a, k: a[:1], "GroupFromLexSort": lambda a, k: a[:1],
           "LexSort32": lambda a, k: [k.get("index")], "LexSort64": lambda a, k: [k.get("index")],
           "BasicMathTwoInputs": lambda a, k: a[0][2:3], "ShiftArrays": lambda a, k: a[0]}


def gen(rng, tier, pid):
    cfg = common.sched(rng)
    fail = rng.choice([0, 0, 1, 1, 1])
    if fail:
        cfg.update(p_alloc=rng.choice([60000, 150000, 300000, 600000, 1000000]), al_max=rng.choice([1, 1, 2]))
    o = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice(sorted(MODS))
        w = importlib.import_module(m).gen(rng, tier, MODS[m])["w"]
        op = rng.choice(w["ops"])
        if isinstance(op.get("n"), int) and rng.random() < .3:
            op["n"] = min(op["n"], 1000)
        w["ops"] = [op]
        o.append({"m": m, "w": w})
    again = 0
    if not fail and rng.random() < .5:
        # the same call again and again must not need more and more memory
        again = 1
        del o[1:]
        if isinstance(o[0]["w"]["ops"][0].get("n"), int) and rng.random() < .7:
            o[0]["w"]["ops"][0]["n"] = min(o[0]["w"]["ops"][0]["n"], rng.choice([500, 3000, 40000]))
    return {"cfg": cfg, "w": {"ops": o, "fail": fail, "np": fail and rng.random() < .5, "again": again}}


def shrink(w):
    if len(w["ops"]) > 1:
        yield from ops.shrink_ops(w)
    for k in ("np", "fail", "again"):
        if w[k]:
            y = copy.deepcopy(w); y[k] = 0
            y["np"] = y["np"] and y["fail"]; yield y
    for i, t in enumerate(w["ops"]):
        sub = importlib.import_module(t["m"])
        for s in (getattr(sub, "shrink", None) or ops.shrink_ops)(t["w"]):
            if s["ops"]:
                y = copy.deepcopy(w); y["ops"][i]["w"] = s; yield y


class Refused(BaseException):
    """A call reported the failed allocation."""


def arrays(x, out, depth=0):
    if isinstance(x, np.ndarray):
        out.setdefault(id(x), x)
        if x.dtype == object:
            return
    elif isinstance(x, (list, tuple)) and depth < 3:
        for y in x:
            arrays(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            arrays(y, out, depth + 1)


def count(r, held, seen, depth=0):
    """How often the result refers to each input; fresh arrays are listed."""
    if isinstance(r, np.ndarray):
        if id(r) in held:
            held[id(r)] += 1
            return
        if id(r) in seen:
            seen[id(r)][1] += 1
            return
        seen[id(r)] = [r, 1]
        b = r.base
        if b is not None and id(b) in held:
            held[id(b)] += 1
    elif isinstance(r, (list, tuple)) and depth < 3:
        for y in r:
            count(y, held, seen, depth + 1)
    elif isinstance(r, dict):
        for y in r.values():
            count(y, held, seen, depth + 1)


def counts(s):
    return [sys.getrefcount(s[j]) for j in range(len(s))]


def digest(x):
    return zlib.crc32(x.tobytes()) if x.dtype != object else 0


class Proxy:
    def __init__(self, rc, fail):
        self._rc, self._fail, self._again = rc, fail, 0

    def __getattr__(self, name):
        f = getattr(self._rc, name)
        if not callable(f):
            return f

        def call(*a, **k):
            if self._again and name not in INPLACE and name != "MultiKeyRolling":
                repeat(name, f, a, k)
            ins = {}
            arrays(a, ins)
            arrays(k, ins)
            ins = list(ins.values())
            rc0, ra0 = counts(ins), counts(a)
            d0 = [(digest(x), x.shape, x.strides, x.dtype, x.flags.num, x.ctypes.data) for x in ins]
            n = simapi.faults("malloc_ENOMEM")
            r = err = None
            if self._fail:
                simapi.lib.sim_arm(simapi.ALLOC)
            try:
                r = f(*a, **k)
            except Exception as e:
                err = e.with_traceback(None)
            finally:
                simapi.lib.sim_disarm(simapi.ALLOC)
            hit = simapi.faults("malloc_ENOMEM") != n
            self.hit = self.hit or hit and name
            what = "%s%s" % (name, "" if not hit else " with a failing allocation")
            held, seen = {id(x): 0 for x in ins}, {}
            if not any(r is x for x in a if isinstance(x, (list, tuple, dict))):
                count(r, held, seen)
            rc1, ra1 = counts(ins), counts(a)
            for x, c, c0 in zip(ins, rc1, rc0):
                if c - c0 != held[id(x)]:
                    violate("references", "%s: the references to an input array (%s, %d items) changed by %d, the result holds %d" % (what, x.dtype, x.size, c - c0, held[id(x)]))
            for i, (x, c, c0) in enumerate(zip(a, ra1, ra0)):
                if not isinstance(x, np.ndarray) and not isinstance(x, (int, str, bytes, bool, type(None), float)) and x is not r:
                    if c != c0:
                        violate("references", "%s: the references to argument %d (%s) changed by %d" % (what, i, type(x).__name__, c - c0))
            x = None
            for i in list(seen):
                y, m = seen.pop(i)
                # y, the argument of getrefcount and the places in the result
                c = sys.getrefcount(y) - 2
                top = 1 if y is r else 0
                if c > m + base(seen, y):
                    violate("leak", "%s: a new array (%s, %d items) has %d references, the result holds %d" % (what, y.dtype, y.size, c, m))
                if c < m:
                    violate("dangling", "%s: a new array (%s, %d items) has %d references, the result holds %d" % (what, y.dtype, y.size, c, m))
            y = None
            written = {id(y) for y in INPLACE[name](a, k)} if name in INPLACE else ()
            y = None
            for i, x in enumerate(ins):
                if id(x) not in written:
                    if (digest(x), x.shape, x.strides, x.dtype, x.flags.num, x.ctypes.data) != d0[i]:
                        violate("input changed", "%s: an input array (%s, %d items) was changed" % (what, x.dtype, x.size))
                x = None
            probe("calls")
            if err is not None:
                if hit:
                    probe("refused")
                    raise Refused()
                raise err
            return r
        return call


def base(seen, y):
    return sum(1 for r, m in seen.values() if r.base is y)


class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


mallinfo = ctypes.CDLL(None).mallinfo2
mallinfo.restype = Info


def saturate():
    """Fill the interpreter's lists of spare objects, which otherwise grow as if blocks were lost."""
    x = [[{"a": 1} for _ in range(100)], [dict(**{"a": i}) for i in range(100)], [[i] for i in range(100)], [i + .5 for i in range(120)],
         [tuple(range(i, i + n)) for n in range(1, 21) for i in range(2000)]]
    x.append([d.copy() for d in x[0]])


def repeat(name, f, a, k):
    """The same call again and again must not need more and more memory."""
    n = 9
    v = (ctypes.c_long * (2 * n))()
    for i in range(n):
        try:
            f(*a, **k)
        except Exception:
            pass
        v[i] = sys.getallocatedblocks()
        x = mallinfo()
        v[n + i] = x.uordblks + x.hblkhd
        x = None
    # the simulated file system keeps a history
    heap = () if "File" in name else (("heap bytes", v[n:]),)
    for what, u in (("Python blocks", v[:n]),) + tuple(heap):
        d = [y - x for x, y in zip(u, u[1:])]
        # the simulator's own tables grow by chance, a leak by the same amount each time
        if min(d[-6:]) > 0 and (what == "Python blocks" or len(set(d[-4:])) == 1):
            violate("leak", "%s: repeating the call takes more and more %s: %s" % (name, what, d))
    probe("repeated")


def run(w):
    rc = simapi.load()
    if w["np"]:
        if ctypes.PyDLL(os.path.join(simapi.MODDIR, "helper_npmem.so")).np_install():
            raise RuntimeError("numpy handler")
        probe("numpy")
    gc.disable()      # a collection during a call would drop the frames of earlier errors
    if w.get("again"):
        saturate()
    p = simapi.rc = Proxy(rc, w["fail"])
    for i, t in enumerate(w["ops"]):
        m = importlib.import_module(t["m"])
        p.hit = None
        p._again = w["again"]
        try:
            m.run(copy.deepcopy(t["w"]))
        except Refused:
            pass
        except simapi.Violation as v:
            if v.cls in ("references", "leak", "dangling", "input changed"):
                raise
            # what the call returned is the other properties' concern
            probe("other")
        simapi.fs_put("/simfs/a.sds", None)
