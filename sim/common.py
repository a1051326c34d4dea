"""Shared generation of schedule / fault configurations (orchestrator side)."""


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def sched(rng, plain=(0, 0, 3000, 30000, 300000), nproc=(1, 2, 2, 3, 3, 4, 5, 7), faults=True):
    cfg = {"nproc": pick(rng, nproc)}
    s = rng.random()
    if s < 0.5:
        cfg["strategy"] = 0
        cfg["p_vis"] = pick(rng, (5000, 20000, 60000, 150000, 300000, 600000))
    elif s < 0.8:
        cfg["strategy"] = 1
        cfg["pct_depth"] = rng.randint(1, 6)
        cfg["pct_len"] = pick(rng, (100, 400, 1500, 6000))
    else:
        cfg["strategy"] = 2
        cfg["quantum"] = pick(rng, (1, 2, 3, 7, 20, 100))
    cfg["plain_gap"] = pick(rng, plain)
    if faults:
        cfg["p_spurious"] = pick(rng, (0, 0, 2000, 20000, 100000))
        cfg["p_stall"] = pick(rng, (0, 0, 500, 3000, 20000))
        cfg["stall_len"] = pick(rng, (20, 200, 2000, 20000))
        if rng.random() < 0.2:
            cfg["p_jump"] = pick(rng, (100, 2000))
    return cfg
