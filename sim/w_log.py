"""P21, P22: the logging service, its handler thread, its flusher and the Python side."""
import ctypes, logging, os, threading
import common, ops, simapi
from simapi import violate, probe

NAMES = ["Recycler", "GroupBy", "SDSFile"]
LEVELS = [10, 20, 30, 40, 50]
MS = 10 ** 6


def gen(rng, tier, pid):
    life = pid == "P22"
    sessions = []
    short = rng.random() < .4
    for _ in range(rng.choice([4, 8, 12]) if short else rng.choice([1, 1, 2, 3])):
        th = []
        for _ in range(0 if short else rng.choice([1, 1, 2, 3, 4])):
            th.append([[rng.choice(["log"] * 6 + ["rc", "sleep", "yield"] + (["toggle"] * 3 if life else [])), rng.randrange(3), rng.choice(LEVELS), rng.choice([0, 0, 0, 0, 1, 2, 3]), rng.randrange(1000)]
                       for _ in range(rng.choice([0, 1, 3, 8, 20]))])
        sessions.append({"iv": rng.choice([1, 1, 5, 20, 1000, 1000, 60000, 10 ** 7] + ([0, 0] if rng.random() < .2 else [])), "b": rng.choice([1, 2, 3, 10, 50, 1000, 0 if rng.random() < .3 else 1]),
                         "mx": rng.choice([1, 2, 5, 20, 1000000, 1000000, 1000000]), "th": th, "lev": [rng.choice([1, 1, 10, 20, 30, 50]) for _ in NAMES],
                         "to": rng.choice([-1, -1, -1, -1, 0, 1, 10, 1000, 10 ** 6]), "when": rng.choice(["after", "after", "during", "during", "two"] if life else ["after", "after", "during"]),
                         "sink": rng.choice(["fast", "fast", "raise", "slow", "yield"]), "cb": rng.choice(["none", "fun"]), "flood": rng.choice([0, 0, 0, 10, 40]) if not life else 0, "tail": rng.choice([0, 1, 2, 2, 3, 6]), "fill": rng.random() < .3})
        if not sessions[-1]["iv"]:
            # the flusher spins: simulated waiting would take forever
            s = sessions[-1]
            s.update(sink=rng.choice(["fast", "raise"]), flood=0, th=[[op for op in o if op[0] not in ("sleep", "toggle")] for o in s["th"]], to=-1)
    cfg = common.sched(rng)
    cfg["max_vis"] = 1500000
    if cfg["strategy"] == 1:
        for s in sessions:
            s["iv"] = s["iv"] or 1      # a spinning flusher of high priority would starve the others
    cfg.pop("p_jump", None)
    if life:
        cfg["p_tcreate"] = rng.choice([0, 0, 0, 100000, 400000])
    w = {"ops": sessions, "life": life, "exit": rng.random() < .25 if life else False}
    return {"cfg": cfg, "w": w}


def shrink(w):
    import copy
    yield from ops.shrink_ops(w)
    for i, s in enumerate(w["ops"]):
        for j in range(len(s["th"])):
            y = copy.deepcopy(w); del y["ops"][i]["th"][j]; yield y
            for k in range(len(s["th"][j])):
                y = copy.deepcopy(w); del y["ops"][i]["th"][j][k]; yield y
        for key, v in (("flood", 0), ("tail", 0), ("fill", False), ("sink", "fast"), ("cb", "none"), ("to", -1), ("when", "after"), ("mx", 1000000), ("b", 50)):
            if s[key] != v:
                y = copy.deepcopy(w); y["ops"][i][key] = v; yield y
    if w["exit"]:
        y = copy.deepcopy(w); y["exit"] = False; yield y


class Log:
    """What was logged and what came out, on one clock."""
    def __init__(self):
        self.sent = {}       # (thread, n) -> [start, end, name, level, what, ns before, ns after]
        self.got = []        # (time, key)
        self.gotset = {}


class Handler(logging.Handler):
    def __init__(self, st):
        logging.Handler.__init__(self)
        self.st = st

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def emit(self, rec):
        st = self.st
        text = rec.msg
        if text.startswith("Caught exception: ") and "when formatting: m " in text:
            text = text.split("when formatting: ")[1]
        if not text.startswith("m "):
            m = text.split("timespan: ")
            if len(m) != 2:
                st.other += 1
                return
            key = ("rc", int(m[1]))
        else:
            f = text.split(" ")
            key = (int(f[1]), int(f[2]))
        st.deliver(key, rec)
        if st.blocked is not None:
            if st.stuck is None:
                st.stuck = key
            st.waiting.set()
            st.blocked.wait()
        if st.sink == "slow":
            simapi.lib.sim_advance((st.seq % 7) * 3 * MS)
        elif st.sink == "yield":
            simapi.lib.sim_point()
        elif st.sink == "raise" and st.seq % 3 == 0:
            raise ValueError("sink")


class State:
    def __init__(self):
        self.log, self.seq, self.blocked, self.sink, self.other, self.bad, self.gc = Log(), 0, None, "fast", 0, None, 0
        self.enabled = False

    def tick(self):
        self.seq += 1
        return self.seq

    def deliver(self, key, rec):
        t = self.tick()
        s = self.log.sent.get(key)
        if s is None:
            self.fail("unknown message", "a message that was never logged was delivered: %r" % (rec.msg[:80],))
        if key in self.log.gotset:
            self.fail("delivered twice", "message %s was delivered twice" % (key,))
        self.log.gotset[key] = t
        self.log.got.append((t, key))
        name = "riptable.riptide_cpp." + s[2]
        if rec.name != name:
            self.fail("wrong logger", "message %s of logger %s was delivered to %s" % (key, name, rec.name))
        level = 40 if s[4] == 2 else s[3]
        if rec.levelno != level:
            self.fail("wrong level", "message %s of level %d was delivered with level %d" % (key, level, rec.levelno))
        if s[4] == 1 and not rec.msg.endswith("(null)") or s[4] == 3 and not rec.msg.endswith("x" * 5000) or s[4] == 0 and key[0] != "rc" and not rec.msg.endswith(" end"):
            self.fail("wrong text", "message %s came out as %r" % (key, rec.msg[:100]))
        si = getattr(rec, "source_info", None)
        if not isinstance(si, dict) or set(si) != {"filename", "line", "column", "function"}:
            self.fail("no source", "message %s came without its source location: %r" % (key, si))
        ts = getattr(rec, "timestamp", None)
        if s[5] is not None and not (s[5] <= ts and (s[6] is None or ts <= s[6])):
            self.fail("wrong time", "message %s logged between %s and %s carries the time %s" % (key, s[5], s[6], ts))

    def fail(self, cls, msg):
        if self.bad is None:
            self.bad = (cls, msg)

    def check(self):
        if self.bad:
            violate(*self.bad)


import time


def one(st, H, rc, tid, n, op, armed=False):
    """One step of a logging thread."""
    k, name, level, what, x = op
    if k == "log":
        key = (tid + 1000 * st.session, n)
        rec = [st.tick(), None, NAMES[name], level, what, time.time_ns(), None, bool(H.lg_enabled())]
        st.log.sent[key] = rec
        H.lg_log(NAMES[name].encode(), level, key[0], n, what)
        rec[6] = time.time_ns()
        rec[1] = st.tick()
    elif k == "rc":
        st.gc += 1
        v = 10 ** 9 + st.gc          # deletes nothing
        key = ("rc", v)
        rec = [st.tick(), None, "Recycler", 20, 0, time.time_ns(), None, bool(H.lg_enabled())]
        st.log.sent[key] = rec
        rc.RecycleGarbageCollectNow(v)
        rec[6] = time.time_ns()
        rec[1] = st.tick()
    elif k == "sleep":
        time.sleep((x % 50) / 1000)
    elif k == "yield":
        simapi.lib.sim_point()
    elif k == "toggle":
        if x % 2:
            rc.DisableLogging([-1, -1, 0, 5][x // 2 % 4])
        else:
            enable(st, rc, [1, 5, 1000, 10 ** 6][x // 2 % 4], [1, 50][x // 8 % 2], [1, 1000][x // 16 % 2], None)


def enable(st, rc, iv, b, mx, cb):
    n = simapi.faults("tcreate")
    simapi.lib.sim_arm(simapi.TCREATE)
    try:
        rc.EnableLogging(iv, b, mx, cb)
        return True
    except (RuntimeError, OSError, MemoryError) as e:
        if not st.life:
            violate("refused", "EnableLogging(%d, %d, %d) raised %r" % (iv, b, mx, e))
        probe("enable refused")
        return False
    finally:
        simapi.lib.sim_disarm(simapi.TCREATE)


def run(w):
    rc = simapi.load()
    H = ctypes.CDLL(os.path.join(simapi.MODDIR, "helper_log.so"))
    H.lg_log.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    st = State()
    st.life = w["life"]
    logging.raiseExceptions = False
    logging.getLogger("riptable").setLevel(1)
    logging.getLogger("riptable").propagate = False
    logging.getLogger("riptable").addHandler(Handler(st))
    names = rc.GetRiptideLoggers()
    if sorted(names) != sorted("riptable.riptide_cpp." + n for n in NAMES):
        # other loggers do not matter here, these do
        for n in NAMES:
            if "riptable.riptide_cpp." + n not in names:
                violate("logger missing", "GetRiptideLoggers gave %r" % (names,))
    for i, s in enumerate(w["ops"]):
        st.what, st.session = "session %d" % i, i
        session(rc, H, st, s, i, w)
    if w["exit"]:
        exit_now(rc, H, st)


def start(f):
    while True:
        th = threading.Thread(target=f)
        try:
            th.start()
            return th
        except RuntimeError:       # thread creation may be failing just now
            simapi.lib.sim_point()


def leftover(base):
    """Threads of logging that still run. (A joined Python thread may need a moment to end.)"""
    for _ in range(20):
        n = simapi.lib.sim_threads_alive() - base
        if n <= 0:
            return 0
        time.sleep(0.01)
    return n


def session(rc, H, st, s, i, w):
    base = simapi.lib.sim_threads_alive()
    for n, l in zip(NAMES, s["lev"]):
        logging.getLogger("riptable.riptide_cpp." + n).setLevel(l)
    st.sink = s["sink"]
    st.start = st.tick()
    ok = enable(st, rc, s["iv"], s["b"], s["mx"], None if s["cb"] == "none" else (lambda m: None))
    if ok and not H.lg_enabled():
        violate("not enabled", "%s: EnableLogging returned but logging is off" % st.what)
    if not ok:
        if H.lg_enabled():
            violate("half enabled", "%s: EnableLogging raised but logging is on" % st.what)
        left = leftover(base)
        if left:
            violate("thread left", "%s: EnableLogging raised and left %d threads" % (st.what, left))
    flood = s["flood"] if ok and s["mx"] else 0
    if flood:
        flooded(rc, H, st, s, flood)
    ths = []
    for t, o in enumerate(s["th"]):
        def body(t=t, o=o):
            try:
                for n, op in enumerate(o):
                    one(st, H, rc, t, n, op)
            except simapi.Violation as v:
                st.fail(v.cls, v.msg)
        ths.append(start(body))
    if s["when"] == "after":
        for th in ths:
            th.join()
    elif s["when"] == "two":
        ths.append(start(lambda: rc.DisableLogging(-1)))
    toggles = any(op[0] == "toggle" for o in s["th"] for op in o) or s["when"] == "two"
    if ok and s.get("fill") and s["when"] == "after" and s["iv"] >= 60000 and s["mx"] >= 1000 and s["b"] <= 50 and not st.life:
        filled(rc, H, st, s)
    for n in range(s["tail"]):
        one(st, H, rc, 990, n, ["log", 0, 50, 0, 0])
    t0, n0 = st.tick(), simapi.lib.sim_now()
    rc.DisableLogging(s["to"])
    t1, n1 = st.tick(), simapi.lib.sim_now()
    took = n1 - n0
    for th in ths:
        th.join()
    if toggles:
        rc.DisableLogging(-1)
    if H.lg_enabled() :
        violate("still enabled", "%s: logging is on after DisableLogging" % st.what)
    left = leftover(base)
    if left:
        violate("thread left", "%s: %d logging threads run after DisableLogging" % (st.what, left))
    st.check()
    # the flush interval and the time limit must not decide how long disabling takes
    if s["when"] == "after" and not toggles and s["iv"] >= 60000 and (s["to"] == -1 or s["to"] >= 10 ** 5) and took > 30000 * MS:
        violate("slow", "%s: disabling took %d ms with a flush interval of %d ms" % (st.what, took // MS, s["iv"]))
    if flood and s["to"] == -1:
        got = sum(1 for k in st.log.gotset if k[0] == 900 + 1000 * st.session) - 1
        if got > s["mx"] + max(1, s["b"]):
            violate("unbounded", "%s: %d messages were kept while the sink was stuck, the bound is %d (batches of %d)" % (st.what, got, s["mx"], s["b"]))
        # a message of an earlier session, logged while that one was ending, may have taken the room
        if st.stuck == (900 + 1000 * st.session, 0) and got < min(flood, s["mx"]):
            violate("lost", "%s: only %d of %d messages came out after the sink was stuck, the bound is %d" % (st.what, got, flood, s["mx"]))
    if not toggles and ok:
        history(st, s, t0, took, i)
    probe("session %s" % ("ok" if ok else "refused"))


def history(st, s, t0, took, i):
    L = st.log
    lev = dict(zip(NAMES, s["lev"]))
    # order
    last = {}
    for t, key in L.got:
        if key[0] == "rc":
            continue
        if last.get(key[0], -1) > key[1]:
            violate("out of order", "%s: message %s was delivered after message %d of the same thread" % (st.what, key, last[key[0]]))
        last[key[0]] = key[1]
    timed = s["to"] != -1 and took >= s["to"] * MS
    lost = done = dropped = 0
    for key, r in L.sent.items():
        if r[0] < st.start:
            continue
        if (min(r[3], 40) if r[4] == 2 else r[3]) < lev[r[2]]:        # a message that cannot be formatted comes out as an error
            if key in L.gotset and L.gotset[key] >= st.start:
                violate("level", "%s: message %s of level %d was delivered though the level is %d" % (st.what, key, r[3], lev[r[2]]))
            continue
        if key in L.gotset:
            done += 1
            continue
        if r[1] is None or r[1] >= t0 or not r[7]:
            continue          # logged while disabling
        if timed:
            dropped += 1
            continue
        # full queue: everything sent before the end of this call and not delivered before its start
        q = sum(1 for k2, r2 in L.sent.items() if k2 != key and r2[0] < r[1] and L.gotset.get(k2, 1 << 60) > r[0]) + 3 * sum(1 for k2 in L.sent if k2[0] == "rc")
        if q < s["mx"]:
            violate("lost", "%s: message %s, logged before DisableLogging was called, was not delivered (at most %d messages were waiting, the bound is %d)" % (st.what, key, q, s["mx"]))
        dropped += 1
    probe("delivered" if done else "nothing delivered")
    if dropped:
        probe("dropped")


def flooded(rc, H, st, s, n):
    """With the sink stuck, no more than the bound is kept."""
    st.stuck = None
    st.blocked, st.waiting = threading.Event(), threading.Event()
    lev = s["lev"][0]
    top = 50
    st.log.sent[(900 + 1000 * st.session, 0)] = [st.tick(), None, NAMES[0], top, 0, None, None, True]
    H.lg_log(NAMES[0].encode(), top, 900 + 1000 * st.session, 0, 0)
    st.log.sent[(900 + 1000 * st.session, 0)][1] = st.tick()
    if s["mx"]:
        st.waiting.wait(300)
    for k in range(1, n + 1):
        st.log.sent[(900 + 1000 * st.session, k)] = r = [st.tick(), None, NAMES[0], top, 0, None, None, True]
        H.lg_log(NAMES[0].encode(), top, 900 + 1000 * st.session, k, 0)
        r[1] = st.tick()
    b, st.blocked = st.blocked, None
    b.set()
    probe("flood")


def filled(rc, H, st, s):
    """A full batch comes out long before the flush interval has passed."""
    for n in range(max(1, s["b"])):
        one(st, H, rc, 980, n, ["log", 0, 50, 0, 0])
    n0 = simapi.lib.sim_now()
    while not any(k[0] == 980 + 1000 * st.session for k in list(st.log.gotset)):
        if simapi.lib.sim_now() - n0 > 20000 * MS:
            violate("late", "%s: %d messages fill a batch but none came out within 20 s, the flush interval is %d ms" % (st.what, max(1, s["b"]), s["iv"]))
        time.sleep(0.01)
    probe("fill")


def exit_now(rc, H, st):
    """The process ends with logging on."""
    st.sink = "yield"
    enable(st, rc, 5, 3, 1000, None)
    st.session = 900

    def body():
        for n in range(30):
            one(st, H, rc, 0, n, ["log", 0, 50, 0, 0])
    th = threading.Thread(target=body)
    th.start()
    th.join()
    probe("exit")
    ctypes.PyDLL(os.path.join(simapi.MODDIR, "helper_log.so")).lg_exit()
