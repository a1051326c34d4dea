"""P24: allocations of the module and of numpy fail inside calls of the module."""
import copy, ctypes, importlib, os
import common, ops, simapi
from simapi import violate, probe

MODS = {"w_math": "P04", "w_sort": "P05", "w_group": "P06", "w_gb": "P07", "w_member": "P08", "w_index": "P09", "w_reduce": "P10", "w_ema": "P11",
        "w_sds": "P12"}


def gen(rng, tier, pid):
    cfg = common.sched(rng)
    cfg.update(p_alloc=rng.choice([20000, 60000, 150000, 300000, 600000, 1000000]), al_max=rng.choice([1, 1, 1, 2, 5]))
    o = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice(sorted(MODS))
        w = importlib.import_module(m).gen(rng, tier, MODS[m])["w"]
        op = rng.choice(w["ops"])
        if isinstance(op.get("n"), int) and rng.random() < .3:
            op["n"] = min(op["n"], 1000)
        w["ops"] = [op]
        w["intr"] = 0
        o.append({"m": m, "w": w})
    return {"cfg": cfg, "w": {"ops": o, "np": rng.random() < .5}}


def shrink(w):
    if len(w["ops"]) > 1:
        yield from ops.shrink_ops(w)
    if w["np"]:
        y = copy.deepcopy(w); y["np"] = False; yield y
    for i, t in enumerate(w["ops"]):
        sub = importlib.import_module(t["m"])
        for s in (getattr(sub, "shrink", None) or ops.shrink_ops)(t["w"]):
            if s["ops"]:
                y = copy.deepcopy(w); y["ops"][i]["w"] = s; yield y


class Refused(BaseException):
    """A call reported the failed allocation."""


class Proxy:
    """The module, with allocations failing while a call runs."""
    def __init__(self, rc):
        self._rc, self._on = rc, True

    def __getattr__(self, name):
        f = getattr(self._rc, name)
        if not callable(f):
            return f

        def call(*a, **k):
            if not self._on:
                return f(*a, **k)
            n = simapi.faults("malloc_ENOMEM")
            simapi.lib.sim_arm(simapi.ALLOC)
            try:
                return f(*a, **k)
            except SystemError as e:
                simapi.lib.sim_disarm(simapi.ALLOC)
                if simapi.faults("malloc_ENOMEM") != n:
                    violate("no error", "%s with a failing allocation: %s" % (name, e))
                raise
            except Exception as e:
                simapi.lib.sim_disarm(simapi.ALLOC)
                if simapi.faults("malloc_ENOMEM") != n:
                    probe("refused %s" % name)
                    probe("refused with %s" % type(e).__name__)
                    raise Refused()
                raise
            finally:
                simapi.lib.sim_disarm(simapi.ALLOC)
                if simapi.faults("malloc_ENOMEM") != n:
                    self.hit = name
        return call


def run(w):
    rc = simapi.load()
    if w["np"]:
        if ctypes.PyDLL(os.path.join(simapi.MODDIR, "helper_npmem.so")).np_install():
            raise RuntimeError("numpy handler")
        probe("numpy")
    p = simapi.rc = Proxy(rc)
    for i, t in enumerate(w["ops"]):
        m = importlib.import_module(t["m"])
        p._on, p.hit = True, None
        try:
            m.run(copy.deepcopy(t["w"]))
            probe("%s %s" % (t["m"], "right" if p.hit else "no fault"))
        except Refused:
            probe("%s refused" % t["m"])
        except simapi.Violation as v:
            raise simapi.Violation(v.cls, "step %d (%s), allocations failed in %s: %s" % (i, t["m"], p.hit, v.msg))
        p._on = False
        simapi.fs_put("/simfs/a.sds", None)
        try:
            m.run(copy.deepcopy(t["w"]))
        except simapi.Violation as v:
            raise simapi.Violation(v.cls, "step %d (%s) again after allocations failed in %s: %s" % (i, t["m"], p.hit, v.msg))
        simapi.fs_put("/simfs/a.sds", None)
