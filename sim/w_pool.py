"""Workloads for the worker pool host (P01 exactly-once, P02 progress, P03 interrupts)."""
import common

CH = 0x4000


def size(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([2 * CH, 2 * CH + 1, 2 * CH - 1, 3 * CH, 3 * CH - 1, 3 * CH + 1, 4 * CH + 1, 5 * CH - 1, 8 * CH])
    if r < 0.35:
        return rng.choice([1, 2, 100, CH - 1, CH, CH + 1])
    return rng.randrange(2 * CH, 12 * CH)


def call(rng):
    k = rng.choice(["chunk", "chunk", "items", "groupby"])
    if k == "chunk":
        o = {"k": k, "n": size(rng)}
    else:
        o = {"k": k, "n": rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 32, 64, 100])}
    if k != "groupby" and rng.random() < 0.4:
        o["wake"] = rng.choice([1, 1, 2, 3, 5, 40])
    if rng.random() < 0.3:
        o["gap"] = rng.choice([1, 5, 30])
    return o


def gen(rng, tier, pid):
    nproc = (1, 2, 2, 3, 3, 4, 5, 7, 12, 20, 31, 40)
    cfg = common.sched(rng, plain=(0, 0, 0, 20, 200, 2000), nproc=nproc)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 10])):
        r = rng.random()
        if r < 0.08:
            ops.append({"k": "wake", "n": rng.choice([0, 1, 2, 3, 11, 31, 100, -5])})
        elif r < 0.12:
            ops.append({"k": "mode", "n": rng.choice([0, 1])})
        elif r < 0.16:
            ops.append({"k": "idle", "n": rng.choice([1000, 10 ** 6, 10 ** 9])})
        else:
            ops.append(call(rng))
    if not any(o["k"] in ("chunk", "items", "groupby") for o in ops):
        ops.append(call(rng))
    if rng.random() < 0.02:
        # once round the ring of work items
        ops = [{"k": "items", "n": rng.choice([1, 2, 3])} for _ in range(1040)]
        cfg["p_stall"] = min(cfg.get("p_stall", 0), 500)
        cfg["nproc"] = rng.choice([1, 2, 3])
    w = {"ops": ops}
    if pid == "P02":
        w["tcreate"] = 1
        cfg["p_tcreate"] = rng.choice([0, 50000, 200000, 500000, 1000000])
        cfg["p_stall"] = rng.choice([1000, 5000, 20000])
        cfg["p_spurious"] = rng.choice([0, 20000, 200000])
        cfg["stall_len"] = rng.choice([200, 2000, 50000])
        cfg["max_vis"] = 3000000
    if pid == "P03":
        for o in ops:
            if o["k"] in ("chunk", "items", "groupby") and rng.random() < 0.8:
                o["intr"] = 1
                if rng.random() < 0.5:
                    o["arm_outside"] = 1
        cfg["sigs"] = rng.choice([1, 1, 2, 3, 8])
        cfg["sig_after"] = rng.choice([0, 1, 2, 3, 4, 5, 8, 15, 30, 60, 120, 250, 500, 1000])
    return {"cfg": cfg, "w": w}


def shrink(w):
    for i, o in enumerate(w["ops"]):
        for key in ("wake", "gap"):
            if key in o:
                y = {k: v for k, v in o.items() if k != key}
                yield dict(w, ops=w["ops"][:i] + [y] + w["ops"][i + 1:])
        n = o.get("n", 0)
        if o["k"] == "chunk":
            cand = [2 * CH, 2 * CH + 1, n // 2]
        elif o["k"] in ("items", "groupby"):
            cand = [2, 3, n // 2]
        else:
            cand = []
        for c in cand:
            if 0 < c < n:
                yield dict(w, ops=w["ops"][:i] + [dict(o, n=c)] + w["ops"][i + 1:])
