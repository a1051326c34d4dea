import numpy as np, simapi, common
from simapi import violate
def gen(rng, tier, pid):
    return {"cfg": common.sched(rng), "w": {"ops": [{"k":"lexsort","s": rng.getrandbits(30), "n": rng.choice([100, 33000, 50000, 80000])} for _ in range(rng.randint(1,3))]}}
def run(w):
    rc = simapi.load()
    for op in w["ops"]:
        g = np.random.Generator(np.random.PCG64(op["s"]))
        a = g.integers(-1000, 1000, op["n"]).astype(np.int32)
        r = rc.LexSort32([a])
        e = np.argsort(a, kind="stable")
        if not np.array_equal(r, e): violate("mismatch", "lexsort")
