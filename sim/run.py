#!/opt/vp/venv/bin/python3
"""Deterministic simulation checks for riptide_cpp.

  run.py check <property> [--tier quick|thorough] [--seconds S] [--seed N]
  run.py replay <file>
  run.py determinism <property> [--runs N]
"""
import argparse, collections, ctypes, hashlib, importlib, json, os, queue, random, re, select, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build  # noqa: E402
import registry  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)
KINDS = {1: "preempt", 2: "forced-switch", 3: "sigint", 4: "preempt+spurious-wakeup", 5: "forced-switch+spurious-wakeup", 6: "clock-jump"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- servers
class Stuck(Exception):
    pass


class Server:
    def __init__(self, *args):
        self.args = args
        self.start(*args)

    def start(self, prop, target, cpu=0, timeout_ms=60000, env_extra=None):
        self.patience = timeout_ms / 1000 + 30
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        lib = build.build_libsim()
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "SIM_LIB": lib, "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "SIM_CPU": str(cpu),
               "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent", "SIM_TIMEOUT_MS": str(timeout_ms), "LC_ALL": "C.UTF-8",
               "MALLOC_ARENA_MAX": "1"}
        if os.environ.get("SIM_VERBOSE"):
            env["SIM_VERBOSE"] = os.environ["SIM_VERBOSE"]
        env.update(prop.get("env", {}))
        env.update(env_extra or {})
        libc = ctypes.CDLL(None)

        def pre():
            os.dup2(r1, 100)
            os.dup2(w2, 101)
            libc.personality(0x40000)
            os.setsid()

        if prop["host"] == "py":
            env["LD_PRELOAD"] = lib
            if prop.get("malloc_debug"):
                # heap blocks are checked when freed, and filled when allocated
                env.update(LD_PRELOAD=lib + ":libc_malloc_debug.so.0", MALLOC_CHECK_="3", MALLOC_PERTURB_="165")
            cmd = [build.VENV + "/bin/python3", os.path.join(HERE, "pyhost.py"), target, prop["work"]]
        else:
            cmd = [target]
        self.p = subprocess.Popen(cmd, preexec_fn=pre, close_fds=False, env=env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL if not os.environ.get("SIM_VERBOSE") else 2,
                                  stderr=subprocess.DEVNULL if not os.environ.get("SIM_VERBOSE") else 2)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _read(self, n):
        b = bytearray()
        while len(b) < n:
            # a child ended for taking too long may have left half a reply
            if not select.select([self.r], [], [], self.patience)[0]:
                raise Stuck()
            c = os.read(self.r, n - len(b))
            if not c:
                raise EOFError("simulation host died")
            b += c
        return bytes(b)

    def request(self, text):
        b = text.encode()
        os.write(self.w, struct.pack("I", len(b)))
        off = 0
        while off < len(b):
            off += os.write(self.w, b[off:off + 65536])
        res = None
        while True:
            try:
                n = struct.unpack("I", self._read(4))[0]
                m = self._read(n)
            except Stuck:
                self.p.kill()
                self.p.wait()
                self.close()
                self.start(*self.args)
                res, killed = None, 1
                break
            if m[:1] == b"R":
                res = json.loads(m[1:].decode("latin-1"))
            else:
                st, killed = m[1:].split()
                break
        if res is None:
            if int(killed):
                res = {"verdict": "timeout", "msg": "no result within the wall-clock limit"}
            else:
                res = {"verdict": "died", "msg": "process ended with wait status %d" % int(st)}
            res.update(hash="0", shash="0", vis=0, ops=0, switches=0, forced=0, threads=0, now=0, io=0, faults={}, probes={}, trace="", flt="")
        return res

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def text_of(cfg, work, trace=None, flt=None):
    lines = ["%s %d" % (k, v) for k, v in sorted(cfg.items())]
    if trace is not None:
        lines.append("replay 1")
        for t, op, k, a in trace:
            lines.append("T %d %d %d %d" % (t, op, k, a))
        for d, op, k, a in flt or []:
            lines.append("F %d %d %d %d" % (d, op, k, a))
    return "\n".join(lines) + "\n\nWORKLOAD\n" + json.dumps(work, sort_keys=True)


def parse_ents(s):
    return [tuple(int(x) for x in e.split()) for e in (s or "").split(";") if e]


# ---------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def signature(res):
    return "%s|%s" % (res["verdict"], res["msg"])


class Checker:
    def __init__(self, pid, tier, seed, seconds=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = registry.PROPS[pid]
        self.work = importlib.import_module(self.prop["work"])
        self.seconds = seconds or self.prop.get("seconds", {}).get(tier) or (40 if tier == "quick" else 1500)
        self.known = load_known(pid)
        self.target = None
        self.full = False

    # ------------------------------------------------------------ build
    def build(self, full=False):
        t = time.time()
        if self.prop["host"] == "py":
            self.target = build.build_module(() if full else tuple(self.prop.get("omit", ())))
            for h in self.prop.get("helpers", ()):
                build.build_helper(h, os.path.join(HERE, "helper_%s.cpp" % h), self.target)
        else:
            h = self.prop["hostspec"]
            self.target = build.build_host(h["name"], os.path.join(HERE, h["src"]), h["units"], h.get("flags", ()))
        self.build_s = time.time() - t
        log("[%s] built %s in %.1fs" % (self.pid, self.target, self.build_s))

    def server(self, cpu=0, timeout_ms=60000, env_extra=None):
        return Server(self.prop, self.target, cpu, timeout_ms, env_extra)

    def case(self, idx):
        rng = random.Random("%s/%d/%d" % (self.pid, self.seed, idx))
        c = self.work.gen(rng, self.tier, self.pid)
        cfg = dict(c["cfg"])
        cfg.setdefault("seed", rng.getrandbits(62))
        return cfg, c["w"]

    # ------------------------------------------------------------ search
    def search(self):
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.distinct = set()
        self.nontrivial = set()
        self.wkinds = collections.Counter()
        self.samples = []
        self.knownhits = collections.Counter()
        self.nondet = []
        self.found = None
        self.error = None
        lock = threading.Lock()
        counter = [0]
        stop = threading.Event()
        t0 = time.time()
        maxruns = self.prop.get("max_runs", {}).get(self.tier, 10 ** 9)

        def loop(cpu):
            srv = None
            try:
                srv = self.server(cpu)
                while not stop.is_set() and time.time() - t0 < self.seconds:
                    with lock:
                        idx = counter[0]
                        if idx >= maxruns:
                            break
                        counter[0] += 1
                    cfg, w = self.case(idx)
                    res = srv.request(text_of(cfg, w))
                    again = None
                    if idx % 50 == 7 and res["verdict"] == "ok":
                        again = srv.request(text_of(cfg, w))
                    with lock:
                        self.account(idx, cfg, w, res)
                        if again is not None:
                            self.stats["determinism_pairs"] += 1
                            if again["hash"] != res["hash"] or again["verdict"] != res["verdict"]:
                                self.nondet.append(idx)
                        if res["verdict"] != "ok" and not stop.is_set():
                            if res["verdict"] == "stub":
                                self.error = "stub"
                                stop.set()
                            else:
                                k = self.is_known(res)
                                if k:
                                    self.knownhits[k] += 1
                                else:
                                    self.found = (idx, cfg, w, res)
                                    stop.set()
            except Exception as e:  # noqa
                with lock:
                    if self.found is None:
                        self.error = "%s: %s" % (type(e).__name__, e)
                    stop.set()
            finally:
                if srv:
                    srv.close()

        ths = [threading.Thread(target=loop, args=(i,)) for i in range(NCPU)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.search_s = time.time() - t0

    def is_known(self, res):
        s = signature(res)
        for rx, desc in self.known:
            if rx.search(s):
                return desc
        return None

    def account(self, idx, cfg, w, res):
        st = self.stats
        st["runs"] += 1
        st["steps_visible"] += res["vis"]
        st["memory_ops"] += res["ops"]
        st["context_switches"] += res["switches"]
        st["sim_ns"] += res["now"]
        st["threads"] += res["threads"]
        for k, v in res["faults"].items():
            self.faults[k] += v
        for k, v in res["probes"].items():
            self.probes[k] += v
        key = hashlib.sha256(json.dumps(w, sort_keys=True).encode()).hexdigest()[:16] + res["shash"]
        self.distinct.add(res["hash"])
        if res["switches"] > res["threads"] + 1 or res["faults"] or res["io"]:
            self.nontrivial.add(key)
        for o in w.get("ops", []):
            self.wkinds[str(o.get("k"))] += 1
        if len(self.samples) < 3 and idx % 7 == 3:
            self.samples.append({"index": idx, "cfg": cfg, "workload": w, "verdict": res["verdict"], "hash": res["hash"],
                                 "switches": res["switches"], "faults": res["faults"]})

    # ------------------------------------------------------------ gate + minimise
    def same(self, a, b):
        return a["verdict"] == b["verdict"] and (a["verdict"] != "mismatch" or a["msg"].split(":")[0] == b["msg"].split(":")[0])

    def gate(self):
        idx, cfg, w, res = self.found
        if res["verdict"] == "timeout":
            s = self.server(0, 180000)
            r = s.request(text_of(cfg, w))
            s.close()
            if r["verdict"] != "timeout":
                return None
            return cfg, w, r
        ok = 0
        for i in range(2):
            s = self.server(i)
            r = s.request(text_of(cfg, w))
            s.close()
            if r["verdict"] == res["verdict"] and r["hash"] == res["hash"]:
                ok += 1
        if ok < 2:
            return None
        s = self.server(2)
        r = s.request(text_of(cfg, w, parse_ents(res.get("trace")), parse_ents(res.get("flt"))))
        s.close()
        if not self.same(r, res):
            log("replay differs: %s vs %s" % (signature(r), signature(res)))
            return None
        return cfg, w, res

    def minimise(self, cfg, w, res, budget=60):
        t_end = time.time() + budget
        srvs = queue.Queue()
        for i in range(NCPU):
            srvs.put(self.server(i))

        def try_one(text):
            s = srvs.get()
            try:
                return s.request(text)
            finally:
                srvs.put(s)

        from concurrent.futures import ThreadPoolExecutor
        ex = ThreadPoolExecutor(NCPU)
        best = (cfg, w, res)

        def attempts(cands):
            """cands: list of (cfg, w); first (by order) that still fails the same way."""
            futs = [ex.submit(try_one, text_of(c, x)) for c, x in cands]
            for (c, x), f in zip(cands, futs):
                r = f.result()
                if self.same(r, res) and not self.is_known(r):
                    return c, x, r
            return None

        rng = random.Random(self.seed)

        def seeds(c, x, n=4):
            out = [(c, x)]
            for _ in range(n - 1):
                d = dict(c)
                d["seed"] = rng.getrandbits(62)
                out.append((d, x))
            return out

        # 1. drop operations, shrink sizes
        changed = True
        while changed and time.time() < t_end:
            changed = False
            c, x, r = best
            ops = x.get("ops", [])
            i = 0
            while len(ops) > 1 and i < len(ops) and time.time() < t_end:
                y = dict(x)
                y["ops"] = ops[:i] + ops[i + 1:]
                got = attempts(seeds(c, y))
                if got:
                    best = got
                    c, x, r = got
                    ops = x["ops"]
                    changed = True
                else:
                    i += 1
        shr = getattr(self.work, "shrink", None)
        if shr:
            progress = True
            while progress and time.time() < t_end:
                progress = False
                for y in shr(best[1]):
                    got = attempts(seeds(best[0], y))
                    if got:
                        best = got
                        progress = True
                        break
                    if time.time() > t_end:
                        break
        # 2. simpler environment
        for k, v in (("p_spurious", 0), ("p_stall", 0), ("p_jump", 0), ("p_alloc", 0), ("p_tcreate", 0), ("plain_gap", 0), ("nproc", 1), ("nproc", 2)):
            if time.time() > t_end:
                break
            c, x, r = best
            if c.get(k, 0) > v:
                d = dict(c)
                d[k] = v
                got = attempts(seeds(d, x))
                if got:
                    best = got
        # 3. schedule and fault entries (replay mode)
        c, x, r = best
        trace, flt = parse_ents(r.get("trace")), parse_ents(r.get("flt"))
        n0 = (len(trace), len(flt))
        c = dict(c)
        cur = try_one(text_of(c, x, trace, flt))
        if self.same(cur, res):
            def fails(tr, fl):
                q = try_one(text_of(c, x, tr, fl))
                return q if self.same(q, res) and not self.is_known(q) else None

            def ddmin(items, test):
                n = 2
                while len(items) >= 1 and time.time() < t_end + budget:
                    size = max(1, len(items) // n)
                    chunks = [items[i:i + size] for i in range(0, len(items), size)]
                    cands = [[y for j, ch in enumerate(chunks) if j != i for y in ch] for i in range(len(chunks))]
                    futs = [ex.submit(test, cc) for cc in cands]
                    hit = None
                    for cc, f in zip(cands, futs):
                        q = f.result()
                        if q and hit is None:
                            hit = cc
                    if hit is not None:
                        items = hit
                        n = max(n - 1, 2)
                    elif size == 1:
                        break
                    else:
                        n = min(len(items), n * 2)
                return items

            t_end = time.time()
            if fails([], flt):
                trace = []
            else:
                trace = ddmin(trace, lambda tr: fails(tr, flt))
            if flt:
                flt = ddmin(flt, lambda fl: fails(trace, fl))
            cur = try_one(text_of(c, x, trace, flt))
        while not srvs.empty():
            srvs.get().close()
        ex.shutdown()
        return c, x, trace, flt, cur, n0

    def report(self):
        g = self.gate()
        if g is None:
            return None
        cfg, w, res = g
        if res["verdict"] == "timeout":
            rep = dict(cfg=cfg, w=w, trace=None, flt=None, res=res, n0=(0, 0))
        else:
            c, x, trace, flt, cur, n0 = self.minimise(cfg, w, res, 45 if self.tier == "quick" else 240)
            if not self.same(cur, res):
                c, x, trace, flt, cur = cfg, w, parse_ents(res.get("trace")), parse_ents(res.get("flt")), res
            rep = dict(cfg=c, w=x, trace=trace, flt=flt, res=cur, n0=n0)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.pid, self.seed, self.found[0]))
        out = {"property": self.pid, "verif_seed": self.seed, "case_index": self.found[0], "verdict": rep["res"]["verdict"],
               "message": rep["res"]["msg"], "original": {"cfg": self.found[1], "workload": self.found[2], "schedule_entries": rep["n0"][0],
                                                          "fault_entries": rep["n0"][1], "message": self.found[3]["msg"]},
               "cfg": rep["cfg"], "workload": rep["w"], "schedule": rep["trace"], "faults": rep["flt"], "hash": rep["res"]["hash"],
               "legend": "schedule entries: [thread, its operation number, kind, argument]; kinds: %s. fault entries: [domain 1 io 2 alloc "
                         "3 thread creation 4 shm, operation index, kind, argument]" % KINDS}
        json.dump(out, open(path, "w"), indent=1)
        # the file must reproduce in a fresh process
        v = replay_file(path, self)
        if v is None:
            return None
        return path

    # ------------------------------------------------------------ evidence
    def evidence(self, wall, violations):
        st = self.stats
        runs = st["runs"]
        p = self.prop
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": "one evaluation = one simulated execution (one seed: generated workload, schedule and fault sequence). Distinct and non-trivial: "
                    "distinct pairs (workload, sequence of threads given the processor) among runs with more context switches than threads, "
                    "or in which at least one fault or simulated I/O operation happened",
            "samples": self.samples,
            "distinct_event_histories": len(self.distinct),
            "runs_per_hour": int(runs / max(self.search_s, 1e-9) * 3600),
            "search_wall_s": round(self.search_s, 2),
            "build_wall_s": round(self.build_s, 2),
            "simulated_seconds": st["sim_ns"] / 1e9,
            "visible_steps": st["steps_visible"],
            "memory_operations": st["memory_ops"],
            "context_switches": st["context_switches"],
            "simulated_threads": st["threads"],
            "faults_injected": dict(sorted(self.faults.items())),
            "probes": dict(sorted(self.probes.items())),
            "operations": dict(sorted(self.wkinds.items())),
            "determinism_pairs_rerun": st["determinism_pairs"],
            "determinism_divergences": len(self.nondet),
            "known_findings_hit": dict(self.knownhits),
            "components_real": p.get("real", ""),
            "components_stub": p.get("stub", ""),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": p.get("level", "exploration"), "coverage": cov,
              "assumptions": p.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)


def replay_file(path, chk=None):
    r = json.load(open(path))
    if chk is None:
        chk = Checker(r["property"], "quick", r["verif_seed"])
        chk.build(full=True)
    s = chk.server(3)
    if r["schedule"] is None:
        q = s.request(text_of(r["cfg"], r["workload"]))
    else:
        q = s.request(text_of(r["cfg"], r["workload"], [tuple(e) for e in r["schedule"]], [tuple(e) for e in r["faults"] or []]))
    s.close()
    log("replay: %s | %s | hash %s (recorded %s)" % (q["verdict"], q["msg"][:300], q["hash"], r["hash"]))
    if q["verdict"] == r["verdict"] and (q["hash"] == r["hash"] or q["verdict"] == "timeout"):
        return q
    return None


def check(pid, tier, seed, seconds):
    t0 = time.time()
    c = Checker(pid, tier, seed, seconds)
    log("[%s] seed=%d tier=%s" % (pid, seed, tier))
    try:
        c.build()
        c.search()
        if c.error == "stub" or (c.found and c.found[3]["verdict"] == "stub"):
            log("omitted unit reached: building everything")
            c.build(full=True)
            c.search()
    except build.BuildError as e:
        log("BUILD ERROR", e)
        return 2
    if c.error and not c.found:
        log("ERROR", c.error)
        return 2
    code = 0
    path = None
    if c.found:
        log("[%s] case %d: %s" % (pid, c.found[0], signature(c.found[3])[:600]))
        path = c.report()
        if path is None:
            log("[%s] the violation did not reproduce: simulator nondeterminism" % pid)
            code = 2
        else:
            code = 1
    c.evidence(time.time() - t0, 1 if path else 0)
    st = c.stats
    log("[%s] runs=%d distinct=%d nontrivial=%d faults=%s probes=%s nondet=%d/%d wall=%.1fs" %
        (pid, st["runs"], len(c.distinct), len(c.nontrivial), dict(c.faults), dict(c.probes), len(c.nondet), st["determinism_pairs"], time.time() - t0))
    for rx, desc in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    return code


def determinism(pid, runs, seed):
    """Every seed twice, in different host processes, on different processors; diff of the event-history hashes."""
    c = Checker(pid, "quick", seed)
    c.build()
    n = NCPU
    badrep = []
    res = [dict() for _ in range(2)]
    for rnd in range(2):
        q = queue.Queue()
        for i in range(runs):
            q.put(i)
        lock = threading.Lock()

        def loop(cpu):
            s = c.server(cpu, env_extra={"PYTHONHASHSEED": "0" if rnd == 0 else "77", "SIM_EXTRA": "x" * (1 + 37 * rnd)})
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                cfg, w = c.case(i)
                r = s.request(text_of(cfg, w))
                rep = None
                if rnd == 1:
                    cfg2 = dict(cfg, want_trace=1)
                    r2 = s.request(text_of(cfg2, w))
                    rep = s.request(text_of(cfg, w, parse_ents(r2.get("trace")), parse_ents(r2.get("flt"))))
                with lock:
                    res[rnd][i] = (r["verdict"], r["hash"], r["vis"], r["ops"], r["switches"], r["msg"])
                    if rep is not None and (rep["hash"], rep["verdict"]) != (r["hash"], r["verdict"]):
                        badrep.append((i, r["verdict"], r["msg"], r["vis"], rep["verdict"], rep["msg"], rep["vis"]))
            s.close()

        ths = [threading.Thread(target=loop, args=((k + 3 * rnd) % NCPU,)) for k in range(n if rnd == 0 else max(2, n // 2))]
        [t.start() for t in ths]
        [t.join() for t in ths]
    bad = [i for i in range(runs) if res[0].get(i) != res[1].get(i)]
    verd = collections.Counter(v[0] for v in res[0].values())
    print("%s: %d seeds twice, %d diverged; verdicts %s" % (pid, runs, len(bad), dict(verd)))
    for i in bad[:5]:
        print(i, res[0].get(i), res[1].get(i))
    print("%s: %d recorded schedules replayed, %d diverged" % (pid, runs, len(badrep)))
    for b in badrep[:5]:
        print(b)
    return 1 if bad or badrep else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float, default=None)
    ap.add_argument("--runs", type=int, default=200)
    a = ap.parse_args()
    if a.cmd == "check":
        sys.exit(check(a.arg, a.tier, a.seed, a.seconds))
    if a.cmd == "replay":
        q = replay_file(a.arg)
        print(json.dumps({k: v for k, v in (q or {}).items() if k not in ("trace", "flt")}))
        sys.exit(1 if q else 2)
    if a.cmd == "determinism":
        sys.exit(determinism(a.arg, a.runs, a.seed))


main()
