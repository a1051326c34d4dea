"""P23: several Python threads call the module at once, each checking its own results against its own oracle."""
import copy, importlib, logging, sys, threading, traceback, types
import common, ops, simapi
from simapi import violate, probe

# what the threads do: work module -> property whose generator is used
MODS = {"w_math": "P04", "w_sort": "P05", "w_group": "P06", "w_gb": "P07", "w_member": "P08", "w_index": "P09", "w_reduce": "P10", "w_ema": "P11",
        "w_sds": "P12", "w_comp": "P19"}
ONCE = ("w_comp",)       # it switches checksumming


def gen(rng, tier, pid):
    cfg = common.sched(rng)
    cfg["max_vis"] = 6000000
    th = []
    same = rng.choice(sorted(MODS)) if rng.random() < .25 else None
    if rng.random() < .1:
        same = "w_sds"
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        m = rng.choice(sorted(MODS))
        if same and same not in ONCE:
            m = same
        if m in ONCE and any(t["m"] == m for t in th):
            m = "w_group"
        w = importlib.import_module(m).gen(rng, tier, MODS[m])["w"]
        w["ops"] = w["ops"][:rng.choice([1, 1, 2])]
        w.pop("intr", None)
        if m == "w_gb":
            w["intr"] = 0
        for o in w["ops"]:
            if "n" in o and isinstance(o["n"], int) and m != "w_comp" and rng.random() < .5:
                o["n"] = min(o["n"], rng.choice([1000, ops.PAR, 40000]))
        th.append({"m": m, "w": w})
    w = {"ops": th, "sw": rng.choice([1, 1, 20, 500, 5000]), "log": rng.choice([0, 0, 1, 2]), "gc": rng.random() < .3}
    return {"cfg": cfg, "w": w}


def shrink(w):
    if len(w["ops"]) > 1:
        yield from ops.shrink_ops(w)
    for k in ("log", "gc"):
        if w[k]:
            y = copy.deepcopy(w); y[k] = 0; yield y
    for i, t in enumerate(w["ops"]):
        sub = importlib.import_module(t["m"])
        for s in (getattr(sub, "shrink", None) or ops.shrink_ops)(t["w"]):
            if s["ops"]:
                y = copy.deepcopy(w); y["ops"][i]["w"] = s; yield y


def load(name, i):
    """The work module of thread i, with files of its own."""
    m = importlib.import_module(name)
    if name != "w_sds":
        return m
    src = open(m.__file__).read().replace('"/simfs/a.sds"', '"/simfs/t%d.sds"' % i)
    m = types.ModuleType("w_sds_%d" % i)
    exec(compile(src, "w_sds_%d" % i, "exec"), m.__dict__)
    m.fds = lambda what: None        # other threads may have files open
    return m


class Sink(logging.Handler):
    n = 0

    def emit(self, rec):
        Sink.n += 1


def run(w):
    rc = simapi.load()
    mods = [load(t["m"], i) for i, t in enumerate(w["ops"])]
    bad = []
    if w["log"]:
        logging.getLogger("riptable").setLevel(1)
        logging.getLogger("riptable").propagate = False
        logging.getLogger("riptable").addHandler(Sink())
        for n in rc.GetRiptideLoggers():
            logging.getLogger(n).setLevel(1)
        rc.EnableLogging(1, 2, 100, None)
    left = [len(w["ops"])]

    def body(i, m, t):
        try:
            m.run(copy.deepcopy(t["w"]))
        except simapi.Violation as v:
            bad.append((v.cls, "thread %d (%s): %s" % (i, t["m"], v.msg)))
        except BaseException as e:  # noqa
            bad.append(("exception", "thread %d (%s): %s: %s | %s" % (i, t["m"], type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]).replace("\n", " "))))
        left[0] -= 1

    def other():
        n = 0
        while left[0] and n < 40:
            n += 1
            if w["log"] == 2 and n % 5 == 0:
                rc.DisableLogging(-1)
                rc.EnableLogging(1, 2, 100, None)
            rc.RecycleGarbageCollectNow(0)
            for _ in range(n % 4 * 30):
                pass
    old = sys.getswitchinterval()
    sys.setswitchinterval(w["sw"] / 1e6)
    ths = [threading.Thread(target=body, args=(i, m, t)) for i, (m, t) in enumerate(zip(mods, w["ops"]))]
    if w["gc"] or w["log"]:
        ths.append(threading.Thread(target=other))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    sys.setswitchinterval(old)
    if w["log"]:
        rc.DisableLogging(-1)
        if Sink.n:
            probe("logged")
    if bad:
        violate(*bad[0])
    probe("threads %d" % len(w["ops"]))
    for m in sorted({t["m"] for t in w["ops"]}):
        probe(m)
