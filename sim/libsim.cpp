// Deterministic simulator runtime (LD_PRELOADed / linked first).
//
// Real pthreads are parked on private futexes; exactly one holds the baton. Code under test is compiled with
// -fsanitize=thread but linked against THIS implementation of the __tsan_* entry points, so each of its memory
// accesses, volatile accesses, atomics and libc synchronisation / time / file calls is a point at which the seeded
// scheduler may move the baton, advance the virtual clock, fire a timer, deliver a signal or inject a fault.
// Nothing in here uses malloc, a real clock or any other source of nondeterminism once sim_begin() was called.
#include "sim.h"

#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <initializer_list>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define TLS static __thread __attribute__((tls_model("initial-exec")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long raw_write(int fd, const void * p, size_t n)
{
    const char * c = (const char *)p;
    size_t done = 0;
    while (done < n)
    {
        long r = raw6(SYS_write, fd, (long)(c + done), n - done, 0, 0, 0);
        if (r == -EINTR)
            continue;
        if (r <= 0)
            return -1;
        done += r;
    }
    return done;
}
static long raw_read(int fd, void * p, size_t n)
{
    char * c = (char *)p;
    size_t done = 0;
    while (done < n)
    {
        long r = raw6(SYS_read, fd, (long)(c + done), n - done, 0, 0, 0);
        if (r == -EINTR)
            continue;
        if (r <= 0)
            return done ? -1 : 0;
        done += r;
    }
    return done;
}

// ------------------------------------------------------------------ private arena
static char * g_arena;
static size_t g_arena_used, g_arena_size;
static void * arena_alloc(size_t n)
{
    n = (n + 63) & ~size_t(63);
    if (!g_arena)
    {
        g_arena_size = size_t(16) << 30;
        g_arena = (char *)raw6(SYS_mmap, 0, g_arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    if (g_arena_used + n > g_arena_size)
        raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    void * p = g_arena + g_arena_used;
    g_arena_used += n;
    return p;
}

// ------------------------------------------------------------------ PRNG
struct Rng
{
    u64 s;
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool ppm(u64 p) { return below(1000000) < p; }
    // geometric-ish gap with the given mean
    u64 gap(u64 mean) { return mean <= 1 ? 1 : 1 + below(2 * mean); }
};

// ------------------------------------------------------------------ threads and global state
enum State { RUN, BLOCKED, DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_SEM, W_JOIN, W_ONCE, W_SLEEP, W_RW };

struct Ent { int tid; int kind; u64 op; i64 arg; };

struct Thr
{
    int id;
    int state;
    int go; // private futex
    u64 ops;
    u64 nvis;
    pthread_t real;
    int ktid;
    void * (*fn)(void *);
    void * arg;
    void * retval;
    bool detached, sim_joined, reaped;
    // waiting
    int wait_kind;
    const void * wait_addr;
    u64 wait_seq;
    u64 deadline; // virtual ns, ~0 none
    bool timed_out, woken, spurious;
    // spin detection
    int rdrun;
    u64 last_ops;
    u64 vis_since_write;
    // scheduling
    u64 prio;
    u64 stall_until;
    u64 plain_next;
    Ent * ents; // replay entries of this thread
    int nents, ri, cents;
    u64 cond_seq;
};

static const int MAXT = 256;
static const u64 NEVER = ~0ull;

struct Counter { char name[40]; u64 n; };

static struct
{
    bool active;
    bool replay;
    Thr * thr[MAXT];
    int nthr;
    Thr * cur;
    Thr * reap;
    u64 now;
    u64 vis, total_ops;
    u64 switches, forced;
    u64 run_len;
    u64 alone_spin;
    u64 hash, shash;
    u64 wait_seq;
    u64 next_deadline;
    Rng rs, rf; // schedule, faults
    // config
    u64 strategy; // 0 random walk, 1 PCT, 2 quantum round robin
    u64 p_vis;    // ppm switch probability at visible points
    u64 plain_gap;
    u64 pct_depth, pct_len;
    u64 pct_pts[64];
    u64 quantum;
    u64 p_spurious, p_stall, stall_len, p_jump;
    u64 max_vis, max_ops;
    u64 nproc;
    u64 vis_ns;
    // faults
    unsigned armed;
    u64 sig_after, sig_count, sig_left;
    u64 io_idx, p_io, io_kinds, io_max, io_fired;
    u64 al_idx, p_alloc, al_max, al_fired;
    u64 tc_idx, p_tcreate;
    u64 shm_idx, p_shm;
    bool evlog;
    i64 shm_limit;
    Ent * trace;
    u64 ntrace, ctrace;
    Ent * flt; // replay faults: tid=domain, kind, op=index, arg
    u64 nflt, cflt;
    Ent * ffired;
    u64 nffired, cffired;
    Counter faults[64];
    int nfaults;
    Counter probes[256];
    int nprobes;
    bool finishing;
    bool in_handler;
    u64 fault_stop;
} G;

static u64 g_ops;
static u64 g_next = NEVER;
TLS Thr * self;

static char * g_cfgtext;
static char * g_workload;

static void mix(u64 & h, u64 v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }

EXPORT void sim_probe(const char * name)
{
    for (int i = 0; i < G.nprobes; i++)
        if (!strncmp(G.probes[i].name, name, 39)) { G.probes[i].n++; return; }
    if (G.nprobes < 256)
    {
        strncpy(G.probes[G.nprobes].name, name, 39);
        G.probes[G.nprobes++].n = 1;
    }
}
static void count_fault(const char * name)
{
    for (int i = 0; i < G.nfaults; i++)
        if (!strcmp(G.faults[i].name, name)) { G.faults[i].n++; return; }
    if (G.nfaults < 64)
    {
        strncpy(G.faults[G.nfaults].name, name, 39);
        G.faults[G.nfaults++].n = 1;
    }
}
// what only moves time or the schedule is no reason for an operation to fail (and is not repeated one for one by a replay)
static bool is_timing(const char * n) { return !strcmp(n, "stall") || !strcmp(n, "clock_jump") || !strcmp(n, "spurious_wakeup") || strstr(n, "_slow") || !strcmp(n, "sigint"); }
EXPORT u64 sim_fault_count(const char * kind)
{
    u64 s = 0;
    for (int i = 0; i < G.nfaults; i++)
        if (kind[0] ? !strcmp(G.faults[i].name, kind) : !is_timing(G.faults[i].name)) s += G.faults[i].n;
    return s;
}

// ------------------------------------------------------------------ config
static const char * cfg_find(const char * key)
{
    if (!g_cfgtext) return nullptr;
    size_t kl = strlen(key);
    for (const char * p = g_cfgtext; *p;)
    {
        if (!strncmp(p, key, kl) && p[kl] == ' ') return p + kl + 1;
        const char * nl = strchr(p, '\n');
        if (!nl) break;
        p = nl + 1;
    }
    return nullptr;
}
EXPORT u64 sim_cfg(const char * key, u64 dflt)
{
    const char * v = cfg_find(key);
    return v ? strtoull(v, nullptr, 0) : dflt;
}
EXPORT const char * sim_workload(void) { return g_workload ? g_workload : ""; }

static void ent_push(Ent *& a, u64 & n, u64 & cap, Ent e)
{
    if (n == cap)
    {
        u64 nc = cap ? cap * 2 : 1024;
        Ent * b = (Ent *)arena_alloc(nc * sizeof(Ent));
        if (n) memcpy(b, a, n * sizeof(Ent));
        a = b;
        cap = nc;
    }
    a[n++] = e;
}

// ------------------------------------------------------------------ result record
struct Out { char * p; size_t n, cap; };
static void out_s(Out & o, const char * s)
{
    size_t l = strlen(s);
    if (o.n + l + 1 >= o.cap)
    {
        size_t nc = (o.cap + l) * 2 + 65536;
        char * b = (char *)arena_alloc(nc);
        if (o.n) memcpy(b, o.p, o.n);
        o.p = b;
        o.cap = nc;
    }
    memcpy(o.p + o.n, s, l);
    o.n += l;
}
static void out_f(Out & o, const char * fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    out_s(o, b);
}
static void out_json(Out & o, const char * s)
{
    char b[8];
    out_s(o, "\"");
    for (; *s; s++)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { b[0] = '\\'; b[1] = c; b[2] = 0; }
        else if (c < 32 || c > 126) snprintf(b, 8, "\\u%04x", c);
        else { b[0] = c; b[1] = 0; }
        out_s(o, b);
    }
    out_s(o, "\"");
}

static int g_resfd = 101;

static void __attribute__((noreturn)) emit(const char * verdict, const char * msg, int code)
{
    G.finishing = true;
    bool was = G.active;
    G.active = false;
    g_next = NEVER;
    Out o = { nullptr, 0, 0 };
    out_s(o, "R{\"verdict\":");
    out_json(o, verdict);
    out_s(o, ",\"msg\":");
    out_json(o, msg);
    u64 tot = 0;
    for (int i = 0; i < G.nthr; i++) tot += G.thr[i] == G.cur ? g_ops : G.thr[i]->ops;
    out_f(o, ",\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"vis\":%llu,\"ops\":%llu,\"switches\":%llu,\"forced\":%llu,\"threads\":%d,\"now\":%llu",
          (unsigned long long)(G.hash ^ (tot * 0x9E3779B97F4A7C15ull)), (unsigned long long)G.shash, (unsigned long long)G.vis,
          (unsigned long long)tot, (unsigned long long)G.switches, (unsigned long long)G.forced, G.nthr, (unsigned long long)G.now);
    out_f(o, ",\"io\":%llu,\"allocs\":%llu,\"was_active\":%d", (unsigned long long)G.io_idx, (unsigned long long)G.al_idx, (int)was);
    out_s(o, ",\"faults\":{");
    for (int i = 0; i < G.nfaults; i++) out_f(o, "%s\"%s\":%llu", i ? "," : "", G.faults[i].name, (unsigned long long)G.faults[i].n);
    out_s(o, "},\"probes\":{");
    for (int i = 0; i < G.nprobes; i++) out_f(o, "%s\"%s\":%llu", i ? "," : "", G.probes[i].name, (unsigned long long)G.probes[i].n);
    out_s(o, "}");
    bool want = strcmp(verdict, "ok") != 0 || sim_cfg("want_trace", 0);
    if (want)
    {
        out_s(o, ",\"trace\":\"");
        for (u64 i = 0; i < G.ntrace; i++)
            out_f(o, "%d %llu %d %lld;", G.trace[i].tid, (unsigned long long)G.trace[i].op, G.trace[i].kind, (long long)G.trace[i].arg);
        out_s(o, "\",\"flt\":\"");
        for (u64 i = 0; i < G.nffired; i++)
            out_f(o, "%d %llu %d %lld;", G.ffired[i].tid, (unsigned long long)G.ffired[i].op, G.ffired[i].kind, (long long)G.ffired[i].arg);
        out_s(o, "\"");
    }
    out_s(o, "}");
    unsigned len = o.n;
    raw_write(g_resfd, &len, 4);
    raw_write(g_resfd, o.p, o.n);
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
EXPORT void sim_finish(const char * verdict, const char * msg) { emit(verdict, msg, 0); }
EXPORT void sim_violate(const char * cls, const char * msg) { emit(cls, msg, 0); }
EXPORT u64 sim_seq(void) { return G.vis; }
EXPORT u64 sim_now(void) { return G.now; }
EXPORT int sim_threads_alive(void)
{
    int n = 0;
    for (int i = 0; i < G.nthr; i++) n += G.thr[i]->state != DONE;
    return n;
}
EXPORT int sim_tid(void) { return self ? self->id : -1; }
EXPORT void sim_note(u64 v) { mix(G.hash, v); }
EXPORT void sim_note_buf(const void * p, size_t n)
{
    const unsigned char * c = (const unsigned char *)p;
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    mix(G.hash, h);
}
EXPORT void sim_arm(unsigned m)
{
    G.armed |= m;
    if (m & 4) G.sig_count = 0;
}
EXPORT void sim_disarm(unsigned m) { G.armed &= ~m; }

// ------------------------------------------------------------------ scheduler
static void park(Thr * t)
{
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void unpark(Thr * t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void compute_next(Thr * t)
{
    u64 cap = g_ops + 20000000;
    u64 n = cap;
    if (G.replay)
    {
        if (t->ri < t->nents && t->ents[t->ri].op > g_ops) n = t->ents[t->ri].op;
    }
    else if (t->plain_next < n)
        n = t->plain_next;
    g_next = n < cap ? n : cap;
    if (g_next <= g_ops) g_next = g_ops + 1;
}
static void after_resume(Thr * me)
{
    g_ops = me->ops;
    if (G.reap)
    {
        Thr * r = G.reap;
        G.reap = nullptr;
        int pid = getpid();
        while (raw6(SYS_tgkill, pid, r->ktid, 0, 0, 0, 0) == 0) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        if (r->detached)
        {
            static int (*rj)(pthread_t, void **) = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
            rj(r->real, nullptr);
            r->reaped = true;
        }
    }
    compute_next(me);
}
static void record(int tid, u64 op, int kind, i64 arg) { ent_push(G.trace, G.ntrace, G.ctrace, Ent{ tid, kind, op, arg }); }

static void switch_to(Thr * t)
{
    Thr * me = self;
    me->ops = g_ops;
    G.cur = t;
    G.switches++;
    G.run_len = 0;
    mix(G.shash, (u64)t->id + 1);
    mix(G.hash, (u64)t->id * 31 + 7);
    unpark(t);
    if (me->state != DONE || true)
    {
        park(me);
        after_resume(me);
    }
}
static void recompute_deadline()
{
    u64 d = NEVER;
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i]->state == BLOCKED && G.thr[i]->deadline < d) d = G.thr[i]->deadline;
    G.next_deadline = d;
}
static void fire_timers()
{
    for (int i = 0; i < G.nthr; i++)
    {
        Thr * t = G.thr[i];
        if (t->state == BLOCKED && t->deadline <= G.now)
        {
            t->state = RUN;
            t->timed_out = true;
        }
    }
    recompute_deadline();
}
static inline bool can_run(Thr * t) { return t->state == RUN && t->stall_until <= G.vis; }
static bool can_spurious(Thr * t) { return t->state == BLOCKED && (t->wait_kind == W_COND || t->wait_kind == W_FUTEX); }
static void do_spurious(Thr * t)
{
    t->state = RUN;
    t->spurious = true;
    count_fault("spurious_wakeup");
    recompute_deadline();
}

enum { K_V = 1, K_F = 2, K_SIG = 3, K_W = 4, K_FW = 5, K_JUMP = 6 };

static Ent * replay_peek(Thr * me, u64 op)
{
    while (me->ri < me->nents && me->ents[me->ri].op < op) me->ri++;
    if (me->ri < me->nents && me->ents[me->ri].op == op) return &me->ents[me->ri];
    return nullptr;
}

// Others exist but are stalled: a replay (which has no stalls) must stay as well.
static void record_stay(Thr * me)
{
    if (G.replay) return;
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i] != me && G.thr[i]->state == RUN) { record(me->id, g_ops, K_F, -1); return; }
}

// Pick a thread for a forced switch (me cannot or should not continue). nullptr: nobody else.
static Thr * pick_forced(Thr * me)
{
    Thr * c[MAXT];
    int n = 0;
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i] != me && can_run(G.thr[i])) c[n++] = G.thr[i];
    if (G.replay)
    {
        Ent * e = replay_peek(me, g_ops);
        while (e && e->kind == K_F && e->arg < 0)
        {
            me->ri++;
            if (me->state == RUN) return nullptr;
            e = replay_peek(me, g_ops);
        }
        if (e && (e->kind == K_F || e->kind == K_FW))
        {
            me->ri++;
            if (e->arg >= 0 && e->arg < G.nthr)
            {
                Thr * t = G.thr[e->arg];
                if (t == me && me->state == BLOCKED && can_spurious(me)) { do_spurious(me); return me; }
                if (t != me && t->state == RUN) return t;
                if (t != me && can_spurious(t) && e->kind == K_FW) { do_spurious(t); return t; }
            }
        }
        if (!n) return nullptr;
        for (int k = 0; k < n; k++)
            if (c[k]->id > me->id) return c[k];
        return c[0];
    }
    if (G.p_spurious && G.rs.ppm(G.p_spurious))
    {
        Thr * s[MAXT];
        int m = 0;
        for (int i = 0; i < G.nthr; i++)
            if (can_spurious(G.thr[i]) && G.thr[i] != me) s[m++] = G.thr[i];
        if (m)
        {
            Thr * t = s[G.rs.below(m)];
            do_spurious(t);
            record(me->id, g_ops, K_FW, t->id);
            return t;
        }
    }
    if (!n)
    {
        record_stay(me);
        return nullptr;
    }
    Thr * t;
    if (G.strategy == 1)
    {
        t = c[0];
        for (int k = 1; k < n; k++)
            if (c[k]->prio > t->prio) t = c[k];
    }
    else
        t = c[G.rs.below(n)];
    record(me->id, g_ops, K_F, t->id);
    return t;
}

static void __attribute__((noreturn)) hang(const char * why)
{
    char b[1024];
    int n = snprintf(b, sizeof b, "%s: vis=%llu now=%llums;", why, (unsigned long long)G.vis, (unsigned long long)(G.now / 1000000));
    static const char * wk[] = { "-", "mutex", "cond", "futex", "sem", "join", "once", "sleep", "rwlock" };
    for (int i = 0; i < G.nthr && n < 900; i++)
        n += snprintf(b + n, sizeof b - n, " t%d:%s%s%s", i, G.thr[i]->state == RUN ? "run" : G.thr[i]->state == DONE ? "done" : "blocked",
                      G.thr[i]->state == BLOCKED ? "/" : "", G.thr[i]->state == BLOCKED ? wk[G.thr[i]->wait_kind] : "");
    if (getenv("SIM_VERBOSE"))
    {
        void * st[40];
        backtrace_symbols_fd(st, backtrace(st, 40), 2);
    }
    emit("hang", b, 0);
}

// The current thread cannot continue: hand the baton over (or make time pass). Returns when it is RUN and scheduled.
static void block_here(Thr * me)
{
    while (true)
    {
        if (me->state == RUN && me->stall_until <= G.vis)
        {
            // woken by a timer while looking for somebody to run: let the scheduler choose, but never leave it stuck
            bool other = false;
            for (int i = 0; i < G.nthr; i++)
                if (G.thr[i] != me && can_run(G.thr[i])) other = true;
            if (!other) { record_stay(me); return; }
        }
        Thr * t = pick_forced(me);
        if (t == me) return;
        if (t)
        {
            G.forced++;
            switch_to(t);
            return;
        }
        if (me->state == RUN) return;
        // nobody runnable: end the shortest stall, else let time pass
        Thr * st = nullptr;
        for (int i = 0; i < G.nthr; i++)
            if (G.thr[i]->state == RUN && G.thr[i]->stall_until > G.vis && (!st || G.thr[i]->stall_until < st->stall_until)) st = G.thr[i];
        if (st)
        {
            st->stall_until = 0;
            continue;
        }
        if (G.next_deadline != NEVER)
        {
            if (G.now < G.next_deadline) G.now = G.next_deadline;
            fire_timers();
            continue;
        }
        hang("deadlock");
    }
}
static void block_on(int kind, const void * addr, u64 deadline)
{
    Thr * me = self;
    me->state = BLOCKED;
    me->wait_kind = kind;
    me->wait_addr = addr;
    me->deadline = deadline;
    me->timed_out = me->woken = me->spurious = false;
    me->wait_seq = ++G.wait_seq;
    me->rdrun = 0;
    if (deadline < G.next_deadline) G.next_deadline = deadline;
    if (deadline <= G.now) fire_timers();
    block_here(me);
    me->wait_kind = W_NONE;
    me->wait_addr = nullptr;
    if (me->deadline != NEVER)
    {
        me->deadline = NEVER;
        recompute_deadline();
    }
    me->deadline = NEVER;
}
static int wake_addr(int kind, const void * addr, int n)
{
    int w = 0;
    while (w < n)
    {
        Thr * best = nullptr;
        for (int i = 0; i < G.nthr; i++)
        {
            Thr * t = G.thr[i];
            if (t->state == BLOCKED && t->wait_kind == kind && t->wait_addr == addr && (!best || t->wait_seq < best->wait_seq)) best = t;
        }
        if (!best) break;
        best->state = RUN;
        best->woken = true;
        w++;
    }
    if (w) recompute_deadline();
    return w;
}

static void deliver_sigint(Thr * me)
{
    G.sig_left--;
    count_fault("sigint");
    mix(G.hash, 0x51617);
    struct sigaction sa;
    static int (*rsa)(int, const struct sigaction *, struct sigaction *) =
        (int (*)(int, const struct sigaction *, struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
    rsa(SIGINT, nullptr, &sa);
    if (sa.sa_handler == SIG_IGN) return;
    if (sa.sa_handler == SIG_DFL) emit("crash", "SIGINT delivered while the default disposition was installed", 0);
    int e = errno;
    G.in_handler = true; // the signal is masked while its handler runs
    sa.sa_handler(SIGINT);
    G.in_handler = false;
    errno = e;
    g_ops++; // what follows at this point is told apart from what the handler did
}

static void budget()
{
    if (G.vis > G.max_vis) hang("step budget exceeded (visible steps)");
    u64 tot = 0;
    for (int i = 0; i < G.nthr; i++) tot += G.thr[i] == G.cur ? g_ops : G.thr[i]->ops;
    if (tot > G.max_ops) hang("step budget exceeded (memory operations)");
}

static void voluntary(Thr * me)
{
    // PRNG mode: decide whether to move the baton here.
    Thr * c[MAXT];
    int n = 0;
    if (G.p_stall && G.rs.ppm(G.p_stall))
    {
        u64 len = 1 + G.rs.below(G.stall_len);
        for (int i = 0; i < G.nthr; i++)
            if (G.thr[i] != me && can_run(G.thr[i])) c[n++] = G.thr[i];
        if (n)
        {
            count_fault("stall");
            me->stall_until = G.vis + len;
            Thr * t = c[G.rs.below(n)];
            record(me->id, g_ops, K_V, t->id);
            switch_to(t);
        }
        return;
    }
    for (int i = 0; i < G.nthr; i++)
        if (G.thr[i] != me && can_run(G.thr[i])) c[n++] = G.thr[i];
    if (!n)
    {
        if (G.p_spurious && G.rs.ppm(G.p_spurious))
        {
            for (int i = 0; i < G.nthr; i++)
                if (can_spurious(G.thr[i]) && G.thr[i] != me) c[n++] = G.thr[i];
            if (!n) return;
            Thr * t = c[G.rs.below(n)];
            do_spurious(t);
            record(me->id, g_ops, K_W, t->id);
            switch_to(t);
        }
        return;
    }
    Thr * t;
    if (G.strategy == 1)
    {
        t = c[0];
        for (int k = 1; k < n; k++)
            if (c[k]->prio > t->prio) t = c[k];
        if (t->prio < me->prio) return;
    }
    else if (G.strategy == 2)
    {
        t = nullptr;
        for (int k = 0; k < n && !t; k++)
            if (c[k]->id > me->id) t = c[k];
        if (!t) t = c[0];
    }
    else
        t = c[G.rs.below(n)];
    record(me->id, g_ops, K_V, t->id);
    switch_to(t);
}

static void do_replay(Thr * me)
{
    u64 op = g_ops;
    Ent * e;
    while ((e = replay_peek(me, op)) != nullptr)
    {
        if (e->kind == K_SIG) { me->ri++; record(me->id, op, K_SIG, 0); deliver_sigint(me); op = g_ops; }
        else if (e->kind == K_JUMP)
        {
            me->ri++;
            record(me->id, op, K_JUMP, e->arg);
            count_fault("clock_jump");
            G.now += e->arg;
            if (G.now >= G.next_deadline) fire_timers();
        }
        else if (e->kind == K_V || e->kind == K_W)
        {
            me->ri++;
            if (e->arg < 0 || e->arg >= G.nthr) continue;
            Thr * t = G.thr[e->arg];
            if (t == me) continue;
            if (t->state == RUN) { record(me->id, op, K_V, t->id); switch_to(t); }
            else if (e->kind == K_W && can_spurious(t)) { do_spurious(t); record(me->id, op, K_W, t->id); switch_to(t); }
        }
        else
            break; // forced entries are consumed where a forced switch happens
        if (g_ops != op) break;
    }
}

enum VK { V_READ = 1, V_WRITE, V_RMW, V_FENCE, V_SYNC, V_IO, V_TIME, V_USER };

static __attribute__((noinline)) void point(bool visible, int kind)
{
    Thr * me = self;
    if (!G.active) { g_next = NEVER; return; }
    if (!me || me->state == DONE) return;
    if (visible)
    {
        G.vis++;
        me->nvis++;
        G.run_len++;
        G.now += G.vis_ns;
        mix(G.hash, ((u64)me->id << 8) | (u64)kind);
        if (kind == V_READ)
        {
            if (g_ops - me->last_ops <= 4) me->rdrun++;
            else me->rdrun = 0;
        }
        else if (kind != V_FENCE && kind != V_TIME)
            me->rdrun = 0;
        me->last_ops = g_ops;
        if (G.evlog) dprintf(2, "EV %llu t%d op%llu k%d rd%d now%llu\n", (unsigned long long)G.vis, me->id, (unsigned long long)g_ops, kind, (int)me->rdrun, (unsigned long long)G.now);
        if ((G.vis & 1023) == 0) budget();
        if (G.vis == G.fault_stop) G.p_spurious = G.p_stall = G.p_jump = 0;
        if (G.now >= G.next_deadline) fire_timers();
    }
    else
        budget();

    if (!G.replay)
    {
        if ((G.armed & 4) && G.sig_left && visible && me->id == 0 && !G.in_handler)
        {
            if (G.sig_count++ >= G.sig_after)
            {
                record(me->id, g_ops, K_SIG, 0);
                G.sig_count = 0;
                G.sig_after = G.rs.below(4 * (G.sig_after + 16));
                deliver_sigint(me);
            }
        }
        if (visible && G.p_jump && G.rs.ppm(G.p_jump))
        {
            u64 d = 1000000ull << G.rs.below(16); // 1 ms .. 32 s
            record(me->id, g_ops, K_JUMP, (i64)d);
            count_fault("clock_jump");
            G.now += d;
            if (G.now >= G.next_deadline) fire_timers();
        }
    }
    else
        do_replay(me);

    // a thread that only reads shared state over and over is waiting for somebody else
    if (visible && (me->rdrun > 12 || G.run_len > 20000))
    {
        bool spin = me->rdrun > 12;
        me->rdrun = 0;
        if (G.strategy == 1 && !G.replay)
        {
            u64 lo = NEVER;
            for (int i = 0; i < G.nthr; i++)
                if (G.thr[i]->prio < lo) lo = G.thr[i]->prio;
            me->prio = lo ? lo - 1 : 0;
        }
        Thr * t = pick_forced(me);
        if (t && t != me)
        {
            G.alone_spin = 0;
            G.forced++;
            switch_to(t);
        }
        else if (spin)
        {
            bool stalled = false;
            for (int i = 0; i < G.nthr; i++)
                if (G.thr[i] != me && G.thr[i]->state == RUN) stalled = true;
            if (!stalled)
            {
                if (G.next_deadline != NEVER)
                {
                    if (G.now < G.next_deadline) G.now = G.next_deadline;
                    fire_timers();
                }
                else if (++G.alone_spin > 3000)
                    hang("livelock: the only runnable thread spins without progress");
            }
        }
        compute_next(me);
        return;
    }
    if (visible && kind != V_READ) G.alone_spin = 0;

    if (!G.replay)
    {
        bool sw = false;
        if (!visible && g_ops >= me->plain_next)
        {
            me->plain_next = G.plain_gap ? g_ops + G.rs.gap(G.plain_gap) : NEVER;
            sw = true;
        }
        else if (visible)
        {
            if (G.strategy == 1)
            {
                for (u64 i = 0; i < G.pct_depth; i++)
                    if (G.pct_pts[i] == G.vis) { me->prio = i; sw = true; }
                sw = true; // run the highest priority thread (new threads may have arrived)
            }
            else if (G.strategy == 2)
                sw = G.run_len >= G.quantum;
            else
                sw = G.rs.ppm(G.p_vis);
        }
        if (sw)
        {
            if (!visible && G.strategy == 1)
            {
                u64 lo = NEVER;
                for (int i = 0; i < G.nthr; i++)
                    if (G.thr[i]->prio < lo) lo = G.thr[i]->prio;
                me->prio = lo ? lo - 1 : 0;
            }
            voluntary(me);
        }
    }
    compute_next(me);
}
static inline void vis(int kind)
{
    g_ops++;
    if (unlikely(G.active)) point(true, kind);
}
EXPORT void sim_point(void) { vis(V_USER); }

static inline void plain()
{
    if (unlikely(++g_ops >= g_next)) point(false, 0);
}

// ------------------------------------------------------------------ __tsan_* entry points
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}
#define P1(n) EXPORT void n(void *) { plain(); }
P1(__tsan_read1) P1(__tsan_read2) P1(__tsan_read4) P1(__tsan_read8) P1(__tsan_read16)
P1(__tsan_write1) P1(__tsan_write2) P1(__tsan_write4) P1(__tsan_write8) P1(__tsan_write16)
P1(__tsan_unaligned_read1) P1(__tsan_unaligned_read2) P1(__tsan_unaligned_read4) P1(__tsan_unaligned_read8) P1(__tsan_unaligned_read16)
P1(__tsan_unaligned_write1) P1(__tsan_unaligned_write2) P1(__tsan_unaligned_write4) P1(__tsan_unaligned_write8) P1(__tsan_unaligned_write16)
P1(__tsan_read_write1) P1(__tsan_read_write2) P1(__tsan_read_write4) P1(__tsan_read_write8) P1(__tsan_read_write16)
P1(__tsan_unaligned_read_write1) P1(__tsan_unaligned_read_write2) P1(__tsan_unaligned_read_write4) P1(__tsan_unaligned_read_write8)
P1(__tsan_unaligned_read_write16)
P1(__tsan_vptr_read)
EXPORT void __tsan_vptr_update(void **, void *) { plain(); }
EXPORT void __tsan_read_range(void *, size_t) { plain(); }
EXPORT void __tsan_write_range(void *, size_t) { plain(); }
#define PV(n, k) EXPORT void n(void *) { vis(k); }
PV(__tsan_volatile_read1, V_READ) PV(__tsan_volatile_read2, V_READ) PV(__tsan_volatile_read4, V_READ) PV(__tsan_volatile_read8, V_READ)
PV(__tsan_volatile_read16, V_READ)
PV(__tsan_volatile_write1, V_WRITE) PV(__tsan_volatile_write2, V_WRITE) PV(__tsan_volatile_write4, V_WRITE) PV(__tsan_volatile_write8, V_WRITE)
PV(__tsan_volatile_write16, V_WRITE)
PV(__tsan_unaligned_volatile_read1, V_READ) PV(__tsan_unaligned_volatile_read2, V_READ) PV(__tsan_unaligned_volatile_read4, V_READ)
PV(__tsan_unaligned_volatile_read8, V_READ) PV(__tsan_unaligned_volatile_read16, V_READ)
PV(__tsan_unaligned_volatile_write1, V_WRITE) PV(__tsan_unaligned_volatile_write2, V_WRITE) PV(__tsan_unaligned_volatile_write4, V_WRITE)
PV(__tsan_unaligned_volatile_write8, V_WRITE) PV(__tsan_unaligned_volatile_write16, V_WRITE)

EXPORT void * __tsan_memcpy(void * d, const void * s, size_t n)
{
    plain();
    if (n >= 64)
    {
        size_t h = n / 2;
        memcpy(d, s, h);
        plain();
        memcpy((char *)d + h, (const char *)s + h, n - h);
        return d;
    }
    return memcpy(d, s, n);
}
EXPORT void * __tsan_memmove(void * d, const void * s, size_t n) { plain(); return memmove(d, s, n); }
EXPORT void * __tsan_memset(void * d, int c, size_t n)
{
    plain();
    if (n >= 64)
    {
        size_t h = n / 2;
        memset(d, c, h);
        plain();
        memset((char *)d + h, c, n - h);
        return d;
    }
    return memset(d, c, n);
}

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define ATOMICS(B, T) \
    EXPORT T __tsan_atomic##B##_load(const volatile T * a, int) { vis(V_READ); return *a; } \
    EXPORT void __tsan_atomic##B##_store(volatile T * a, T v, int) { vis(V_WRITE); *a = v; } \
    EXPORT T __tsan_atomic##B##_exchange(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = o + v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = o - v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = o & v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = o | v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = o ^ v; return o; } \
    EXPORT T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int) { vis(V_RMW); T o = *a; *a = ~(o & v); return o; } \
    EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) \
    { vis(V_RMW); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) \
    { vis(V_RMW); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int, int) \
    { vis(V_RMW); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, a8) ATOMICS(16, a16) ATOMICS(32, a32) ATOMICS(64, a64)
EXPORT void __tsan_atomic_thread_fence(int) { vis(V_FENCE); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ real functions
template <typename F> static F real(const char * name, F & slot)
{
    if (!slot)
    {
        void * p = dlvsym(RTLD_NEXT, name, "GLIBC_2.34");
        if (!p) p = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
        if (!p) p = dlsym(RTLD_NEXT, name);
        slot = (F)p;
    }
    return slot;
}
#define REAL(name) ([]() -> decltype(&name) { static decltype(&name) slot; return real(#name, slot); }())

static inline bool on() { return G.active && self; }

// ------------------------------------------------------------------ synchronisation objects
struct Obj { const void * addr; int type; int owner; int count; i64 value; bool init; };
static const int OBJN = 1 << 14;
static Obj * g_obj;
static Obj * obj(const void * a, int type)
{
    if (!g_obj) g_obj = (Obj *)arena_alloc(sizeof(Obj) * OBJN);
    u64 h = ((u64)a >> 3) * 0x9E3779B97F4A7C15ull >> 50;
    for (int i = 0; i < OBJN; i++)
    {
        Obj * o = &g_obj[(h + i) & (OBJN - 1)];
        if (o->addr == a && o->type == type) return o;
        if (!o->addr)
        {
            o->addr = a;
            o->type = type;
            o->owner = -1;
            o->count = 0;
            o->value = 0;
            o->init = false;
            return o;
        }
    }
    emit("simerror", "object table full", 3);
}
enum { T_MUTEX = 1, T_SEM, T_ONCE, T_RW, T_GUARD };

static int sim_mutex_lock(pthread_mutex_t * m, u64 deadline)
{
    Obj * o = obj(m, T_MUTEX);
    Thr * me = self;
    int kind = m->__data.__kind & 3;
    while (o->owner >= 0)
    {
        if (o->owner == me->id)
        {
            if (kind == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        block_on(W_MUTEX, m, deadline);
        if (self->timed_out && o->owner >= 0) return ETIMEDOUT;
    }
    o->owner = me->id;
    o->count = 1;
    return 0;
}
static int sim_mutex_unlock(pthread_mutex_t * m)
{
    Obj * o = obj(m, T_MUTEX);
    if (o->owner != self->id)
    {
        int kind = m->__data.__kind & 3;
        if (kind != PTHREAD_MUTEX_NORMAL) return EPERM;
    }
    if (--o->count > 0) return 0;
    o->owner = -1;
    o->count = 0;
    wake_addr(W_MUTEX, m, 1 << 30);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t * m)
{
    if (!on()) return REAL(pthread_mutex_lock)(m);
    vis(V_SYNC);
    return sim_mutex_lock(m, NEVER);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t * m)
{
    if (!on()) return REAL(pthread_mutex_trylock)(m);
    vis(V_SYNC);
    Obj * o = obj(m, T_MUTEX);
    if (o->owner >= 0)
    {
        if (o->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
        return EBUSY;
    }
    o->owner = self->id;
    o->count = 1;
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t * m)
{
    if (!on()) return REAL(pthread_mutex_unlock)(m);
    int r = sim_mutex_unlock(m);
    vis(V_SYNC);
    return r;
}
static const u64 EPOCH_S = 1700000000ull;
static u64 abs_to_ns(const struct timespec * ts)
{
    i64 s = (i64)ts->tv_sec - (i64)EPOCH_S;
    if (s < 0) return 0;
    if (s > 4000000000ll) return NEVER - 1;
    return (u64)s * 1000000000ull + ts->tv_nsec;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts)
{
    if (!on()) return REAL(pthread_mutex_timedlock)(m, ts);
    vis(V_SYNC);
    return sim_mutex_lock(m, abs_to_ns(ts));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * ts)
{
    if (!on()) return REAL(pthread_mutex_clocklock)(m, c, ts);
    vis(V_SYNC);
    return sim_mutex_lock(m, abs_to_ns(ts));
}
EXPORT int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
    if (on()) { Obj * o = obj(m, T_MUTEX); o->owner = -1; o->count = 0; }
    return REAL(pthread_mutex_init)(m, a);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t * m)
{
    if (on()) { Obj * o = obj(m, T_MUTEX); o->owner = -1; o->count = 0; }
    return REAL(pthread_mutex_destroy)(m);
}
// rwlocks
static int sim_rw(pthread_rwlock_t * l, bool wr, bool tryit)
{
    Obj * o = obj(l, T_RW); // owner: writer id, count: readers
    while (o->owner >= 0 || (wr && o->count > 0))
    {
        if (tryit) return EBUSY;
        block_on(W_RW, l, NEVER);
    }
    if (wr) o->owner = self->id;
    else o->count++;
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t * l) { if (!on()) return REAL(pthread_rwlock_rdlock)(l); vis(V_SYNC); return sim_rw(l, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t * l) { if (!on()) return REAL(pthread_rwlock_wrlock)(l); vis(V_SYNC); return sim_rw(l, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) { if (!on()) return REAL(pthread_rwlock_tryrdlock)(l); vis(V_SYNC); return sim_rw(l, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t * l) { if (!on()) return REAL(pthread_rwlock_trywrlock)(l); vis(V_SYNC); return sim_rw(l, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t * l)
{
    if (!on()) return REAL(pthread_rwlock_unlock)(l);
    Obj * o = obj(l, T_RW);
    if (o->owner >= 0) o->owner = -1;
    else if (o->count > 0) o->count--;
    wake_addr(W_RW, l, 1 << 30);
    vis(V_SYNC);
    return 0;
}
// condition variables
static int sim_cond_wait(pthread_cond_t * c, pthread_mutex_t * m, u64 deadline)
{
    vis(V_SYNC);
    Obj * o = obj(m, T_MUTEX);
    int cnt = o->count;
    if (o->owner == self->id) { o->owner = -1; o->count = 0; wake_addr(W_MUTEX, m, 1 << 30); }
    block_on(W_COND, c, deadline);
    bool to = self->timed_out && !self->woken;
    sim_mutex_lock(m, NEVER);
    o->count = cnt ? cnt : 1;
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
    if (!on()) return REAL(pthread_cond_wait)(c, m);
    return sim_cond_wait(c, m, NEVER);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
    if (!on()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return sim_cond_wait(c, m, abs_to_ns(ts));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts)
{
    if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return sim_cond_wait(c, m, abs_to_ns(ts));
}
EXPORT int pthread_cond_signal(pthread_cond_t * c)
{
    if (!on()) return REAL(pthread_cond_signal)(c);
    vis(V_SYNC);
    wake_addr(W_COND, c, 1);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t * c)
{
    if (!on()) return REAL(pthread_cond_broadcast)(c);
    vis(V_SYNC);
    wake_addr(W_COND, c, 1 << 30);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t * c)
{
    if (on()) return 0;
    return REAL(pthread_cond_destroy)(c);
}
// semaphores
static Obj * sem_obj(sem_t * s)
{
    Obj * o = obj(s, T_SEM);
    if (!o->init)
    {
        int v = 0;
        sem_getvalue(s, &v);
        o->value = v;
        o->init = true;
    }
    return o;
}
EXPORT int sem_init(sem_t * s, int pshared, unsigned v)
{
    if (on()) { Obj * o = obj(s, T_SEM); o->value = v; o->init = true; }
    return REAL(sem_init)(s, pshared, v);
}
EXPORT int sem_destroy(sem_t * s)
{
    if (on()) { Obj * o = obj(s, T_SEM); o->init = false; }
    return REAL(sem_destroy)(s);
}
EXPORT int sem_post(sem_t * s)
{
    if (!on()) return REAL(sem_post)(s);
    Obj * o = sem_obj(s);
    o->value++;
    wake_addr(W_SEM, s, 1 << 30);
    vis(V_SYNC);
    return 0;
}
static int sim_sem_wait(sem_t * s, u64 deadline, bool tryit)
{
    vis(V_SYNC);
    Obj * o = sem_obj(s);
    while (o->value <= 0)
    {
        if (tryit) { errno = EAGAIN; return -1; }
        block_on(W_SEM, s, deadline);
        if (self->timed_out && o->value <= 0) { errno = ETIMEDOUT; return -1; }
    }
    o->value--;
    return 0;
}
EXPORT int sem_wait(sem_t * s) { if (!on()) return REAL(sem_wait)(s); return sim_sem_wait(s, NEVER, false); }
EXPORT int sem_trywait(sem_t * s) { if (!on()) return REAL(sem_trywait)(s); return sim_sem_wait(s, NEVER, true); }
EXPORT int sem_timedwait(sem_t * s, const struct timespec * ts) { if (!on()) return REAL(sem_timedwait)(s, ts); return sim_sem_wait(s, abs_to_ns(ts), false); }
EXPORT int sem_clockwait(sem_t * s, clockid_t c, const struct timespec * ts)
{
    if (!on()) return REAL(sem_clockwait)(s, c, ts);
    return sim_sem_wait(s, abs_to_ns(ts), false);
}
// once / static guards
EXPORT int pthread_once(pthread_once_t * o, void (*fn)(void))
{
    if (!on()) return REAL(pthread_once)(o, fn);
    vis(V_SYNC);
    while (true)
    {
        if ((*o & 3) == 2) return 0;
        Obj * x = obj(o, T_ONCE);
        if (x->owner < 0)
        {
            x->owner = self->id;
            fn();
            *o = 2;
            x->owner = -1;
            wake_addr(W_ONCE, o, 1 << 30);
            return 0;
        }
        block_on(W_ONCE, o, NEVER);
    }
}
EXPORT int __cxa_guard_acquire(long long * g)
{
    if (!on())
    {
        static int (*r)(long long *) = (int (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
        return r(g);
    }
    vis(V_SYNC);
    while (true)
    {
        if (*(char *)g) return 0;
        Obj * x = obj(g, T_GUARD);
        if (x->owner < 0) { x->owner = self->id; return 1; }
        block_on(W_ONCE, g, NEVER);
    }
}
EXPORT void __cxa_guard_release(long long * g)
{
    if (!on())
    {
        static void (*r)(long long *) = (void (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_release");
        r(g);
        return;
    }
    *(char *)g = 1;
    obj(g, T_GUARD)->owner = -1;
    wake_addr(W_ONCE, g, 1 << 30);
}
EXPORT void __cxa_guard_abort(long long * g)
{
    if (!on())
    {
        static void (*r)(long long *) = (void (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_abort");
        r(g);
        return;
    }
    obj(g, T_GUARD)->owner = -1;
    wake_addr(W_ONCE, g, 1 << 30);
}

// ------------------------------------------------------------------ faults
// Decide whether fault-capable operation number idx of a domain fails; PRNG mode draws, replay mode looks it up.
static bool fault_lookup(int domain, u64 idx, int & kind, i64 & arg)
{
    for (u64 i = 0; i < G.nflt; i++)
        if (G.flt[i].tid == domain && G.flt[i].op == idx) { kind = G.flt[i].kind; arg = G.flt[i].arg; return true; }
    return false;
}
static void fault_fired(int domain, u64 idx, int kind, i64 arg, const char * name)
{
    ent_push(G.ffired, G.nffired, G.cffired, Ent{ domain, kind, idx, arg });
    count_fault(name);
    mix(G.hash, 0xFA + kind);
}
enum { D_IO = 1, D_ALLOC = 2, D_TCREATE = 3, D_SHM = 4 };
enum { IO_EIO = 1, IO_ENOSPC, IO_SHORT, IO_EINTR, IO_OPENFAIL, IO_ZERO, IO_CLOSE, IO_FLIP, IO_LOST, IO_SLOW };

// ------------------------------------------------------------------ thread creation
static pthread_key_t g_exitkey;
static bool g_exitkey_ok;

static void thread_done(Thr * me)
{
    // from here on the thread no longer takes part
    vis(V_SYNC);
    me->state = DONE;
    me->ops = g_ops;
    wake_addr(W_JOIN, me, 1 << 30);
    G.reap = me;
    Thr * t;
    while (true)
    {
        t = pick_forced(me);
        if (t) break;
        bool stalled = false;
        for (int i = 0; i < G.nthr; i++)
            if (G.thr[i]->state == RUN) { G.thr[i]->stall_until = 0; stalled = true; }
        if (stalled) continue;
        if (G.next_deadline != NEVER)
        {
            if (G.now < G.next_deadline) G.now = G.next_deadline;
            fire_timers();
            continue;
        }
        hang("deadlock");
    }
    G.forced++;
    G.cur = t;
    G.switches++;
    G.run_len = 0;
    mix(G.shash, (u64)t->id + 1);
    mix(G.hash, (u64)t->id * 31 + 7);
    unpark(t);
}
static void exit_dtor(void * p)
{
    Thr * me = (Thr *)p;
    if (me && me->state != DONE && G.active) thread_done(me);
}
static void * trampoline(void * p)
{
    Thr * t = (Thr *)p;
    self = t;
    t->ktid = (int)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    park(t);
    after_resume(t);
    pthread_setspecific(g_exitkey, t);
    vis(V_SYNC);
    t->retval = t->fn(t->arg);
    return t->retval; // C++ thread_local destructors run, then exit_dtor hands the baton over
}
static Thr * new_thr()
{
    if (G.nthr >= MAXT) emit("simerror", "too many threads", 3);
    Thr * t = (Thr *)arena_alloc(sizeof(Thr));
    memset(t, 0, sizeof *t);
    t->id = G.nthr;
    t->state = RUN;
    t->deadline = NEVER;
    t->plain_next = G.plain_gap ? G.rs.gap(G.plain_gap) : NEVER;
    t->prio = 1000000 + G.rs.below(1000000000);
    G.thr[G.nthr++] = t;
    return t;
}
static void load_ents(Thr * t)
{
    // replay entries of this thread, in order
    int n = 0;
    for (const char * p = g_cfgtext; p && *p;)
    {
        if (p[0] == 'T' && p[1] == ' ' && atoi(p + 2) == t->id) n++;
        const char * nl = strchr(p, '\n');
        if (!nl) break;
        p = nl + 1;
    }
    t->ents = (Ent *)arena_alloc((n + 1) * sizeof(Ent));
    t->nents = 0;
    for (const char * p = g_cfgtext; p && *p;)
    {
        if (p[0] == 'T' && p[1] == ' ' && atoi(p + 2) == t->id)
        {
            char * e;
            Ent x;
            x.tid = strtol(p + 2, &e, 10);
            x.op = strtoull(e, &e, 10);
            x.kind = strtol(e, &e, 10);
            x.arg = strtoll(e, &e, 10);
            t->ents[t->nents++] = x;
        }
        const char * nl = strchr(p, '\n');
        if (!nl) break;
        p = nl + 1;
    }
}
EXPORT int pthread_create(pthread_t * th, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
    if (!on()) return REAL(pthread_create)(th, a, fn, arg);
    vis(V_SYNC);
    if (G.armed & 8)
    {
        u64 idx = G.tc_idx++;
        int k = 1;
        i64 ar = 0;
        bool f = G.replay ? fault_lookup(D_TCREATE, idx, k, ar) : (G.p_tcreate && G.rf.ppm(G.p_tcreate));
        if (f) { fault_fired(D_TCREATE, idx, k, ar, "pthread_create_EAGAIN"); return EAGAIN; }
    }
    Thr * t = new_thr();
    if (G.replay) load_ents(t);
    t->fn = fn;
    t->arg = arg;
    pthread_attr_t my;
    pthread_attr_init(&my);
    if (a)
    {
        int ds = 0;
        pthread_attr_getdetachstate(a, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
        size_t ss = 0;
        pthread_attr_getstacksize(a, &ss);
        if (ss) pthread_attr_setstacksize(&my, ss);
    }
    int r = REAL(pthread_create)(&t->real, &my, trampoline, t);
    pthread_attr_destroy(&my);
    if (r) emit("simerror", "real pthread_create failed", 3);
    *th = t->real;
    vis(V_SYNC);
    return 0;
}
static Thr * find_real(pthread_t p)
{
    for (int i = G.nthr - 1; i > 0; i--)
        if (G.thr[i]->real == p && !G.thr[i]->sim_joined && !G.thr[i]->reaped) return G.thr[i];
    return nullptr;
}
static int sim_join(pthread_t p, void ** ret, u64 deadline)
{
    vis(V_SYNC);
    Thr * t = find_real(p);
    if (!t) return ESRCH;
    while (t->state != DONE)
    {
        block_on(W_JOIN, t, deadline);
        if (self->timed_out && t->state != DONE) return ETIMEDOUT;
    }
    t->sim_joined = true;
    void * rv;
    REAL(pthread_join)(p, &rv);
    if (ret) *ret = rv;
    return 0;
}
EXPORT int pthread_join(pthread_t p, void ** ret)
{
    if (!on()) return REAL(pthread_join)(p, ret);
    return sim_join(p, ret, NEVER);
}
EXPORT int pthread_timedjoin_np(pthread_t p, void ** ret, const struct timespec * ts)
{
    if (!on()) return REAL(pthread_timedjoin_np)(p, ret, ts);
    return sim_join(p, ret, abs_to_ns(ts));
}
EXPORT int pthread_detach(pthread_t p)
{
    if (!on()) return REAL(pthread_detach)(p);
    Thr * t = find_real(p);
    if (!t) return ESRCH;
    t->detached = true;
    if (t->state == DONE && G.reap != t) { t->reaped = true; return REAL(pthread_detach)(p); }
    return 0;
}

// ------------------------------------------------------------------ time
EXPORT int clock_gettime(clockid_t c, struct timespec * ts)
{
    if (!G.active || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID)
    {
        if (G.active) { ts->tv_sec = G.now / 1000000000ull; ts->tv_nsec = G.now % 1000000000ull; return 0; }
        long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
        if (r < 0) { errno = -r; return -1; }
        return 0;
    }
    ts->tv_sec = EPOCH_S + G.now / 1000000000ull;
    ts->tv_nsec = G.now % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(struct timeval * tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t * t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void sim_sleep_until(u64 dl)
{
    vis(V_TIME);
    block_on(W_SLEEP, nullptr, dl);
}
EXPORT int nanosleep(const struct timespec * req, struct timespec * rem)
{
    if (!on()) return REAL(nanosleep)(req, rem);
    sim_sleep_until(G.now + (u64)req->tv_sec * 1000000000ull + req->tv_nsec);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec * req, struct timespec * rem)
{
    if (!on()) return REAL(clock_nanosleep)(c, flags, req, rem);
    if (flags & TIMER_ABSTIME) sim_sleep_until(abs_to_ns(req));
    else sim_sleep_until(G.now + (u64)req->tv_sec * 1000000000ull + req->tv_nsec);
    return 0;
}
EXPORT int usleep(useconds_t us)
{
    if (!on()) return REAL(usleep)(us);
    sim_sleep_until(G.now + (u64)us * 1000ull);
    return 0;
}
EXPORT unsigned sleep(unsigned s)
{
    if (!on()) return REAL(sleep)(s);
    sim_sleep_until(G.now + (u64)s * 1000000000ull);
    return 0;
}
EXPORT int sched_yield(void)
{
    if (!on()) return REAL(sched_yield)();
    self->rdrun += 4;
    g_ops++;
    int rd = self->rdrun;
    point(true, V_FENCE);
    (void)rd;
    return 0;
}
EXPORT void sim_advance(u64 ns)
{
    if (!on()) return;
    G.now += ns;
    if (G.now >= G.next_deadline) fire_timers();
    vis(V_TIME);
}
EXPORT u64 sim_rdtsc(void)
{
    if (!G.active)
    {
        unsigned lo, hi;
        __asm__ volatile("rdtsc" : "=a"(lo), "=d"(hi));
        return ((u64)hi << 32) | lo;
    }
    return 1000000000000ull + G.now * 3; // a 3 GHz time stamp counter
}

// ------------------------------------------------------------------ raw futex users (syscall())
EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on() && n == SYS_futex)
    {
        int cmd = (int)b & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            vis(V_SYNC);
            if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
            u64 dl = NEVER;
            if (d)
            {
                struct timespec * ts = (struct timespec *)d;
                dl = cmd == FUTEX_WAIT ? G.now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : abs_to_ns(ts);
            }
            block_on(W_FUTEX, (void *)a, dl);
            if (self->woken) return 0;
            if (self->timed_out) { errno = ETIMEDOUT; return -1; }
            errno = EINTR;
            return -1;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            vis(V_SYNC);
            long w = wake_addr(W_FUTEX, (void *)a, (int)c);
            vis(V_SYNC);
            return w;
        }
        emit("simerror", "futex operation not simulated", 3);
    }
    if (G.active && n == SYS_gettid && self) return 100000 + self->id;
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

// ------------------------------------------------------------------ processors
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t * set)
{
    if (!G.active) return REAL(sched_getaffinity)(pid, sz, set);
    memset(set, 0, sz);
    for (u64 i = 0; i < G.nproc; i++) CPU_SET_S(i, sz, set);
    return 0;
}
EXPORT int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }

// ------------------------------------------------------------------ allocation faults (riptide objects are linked with --wrap)
static bool alloc_fault()
{
    if (!on() || !(G.armed & 2)) return false;
    u64 idx = G.al_idx++;
    int k = 1;
    i64 ar = 0;
    bool f = G.replay ? fault_lookup(D_ALLOC, idx, k, ar) : (G.p_alloc && G.al_fired < G.al_max && G.rf.ppm(G.p_alloc));
    if (f)
    {
        G.al_fired++;
        fault_fired(D_ALLOC, idx, k, ar, "malloc_ENOMEM");
        errno = ENOMEM;
    }
    return f;
}
EXPORT void * __wrap_malloc(size_t n) { return alloc_fault() ? nullptr : malloc(n); }
EXPORT void * __wrap_calloc(size_t a, size_t b) { return alloc_fault() ? nullptr : calloc(a, b); }
EXPORT void * __wrap_realloc(void * p, size_t b) { return alloc_fault() ? nullptr : realloc(p, b); }
EXPORT void * __wrap_memalign(size_t a, size_t b) { return alloc_fault() ? nullptr : aligned_alloc(a, (b + a - 1) / a * a); }
EXPORT void * __wrap_aligned_alloc(size_t a, size_t b) { return alloc_fault() ? nullptr : aligned_alloc(a, b); }
EXPORT int __wrap_posix_memalign(void ** p, size_t a, size_t b) { return alloc_fault() ? ENOMEM : posix_memalign(p, a, b); }

// ------------------------------------------------------------------ simulated file system
struct Ino { char path[256]; char * data; i64 size, cap; bool exists; bool dir; };
struct FsOp { int ino; int kind; i64 off, len; char * data; i64 oldsize; bool oldexists; char * old; i64 oldlen; };
enum { FS_CREATE = 1, FS_TRUNC, FS_WRITE, FS_UNLINK };
static Ino g_ino[64];
static int g_nino;
static FsOp * g_fsop;
static long g_nfsop, g_cfsop;
static i64 g_fscap = -1;
struct OpenF { int ino; int flags; i64 pos; bool used; };
static OpenF g_of[1024];

static bool simpath(const char * p) { return p && !strncmp(p, "/simfs/", 7); }
static int find_ino(const char * p)
{
    for (int i = 0; i < g_nino; i++)
        if (!strcmp(g_ino[i].path, p)) return i;
    return -1;
}
static int make_ino(const char * p)
{
    int i = find_ino(p);
    if (i >= 0) return i;
    if (g_nino >= 64) emit("simerror", "too many simulated files", 3);
    i = g_nino++;
    memset(&g_ino[i], 0, sizeof(Ino));
    strncpy(g_ino[i].path, p, 255);
    return i;
}
static void reserve(Ino & f, i64 n)
{
    if (n <= f.cap) return;
    i64 nc = f.cap ? f.cap : 4096;
    while (nc < n) nc *= 2;
    char * b = (char *)arena_alloc(nc);
    if (f.size) memcpy(b, f.data, f.size);
    f.data = b;
    f.cap = nc;
}
static void log_fs(FsOp o)
{
    if (g_nfsop == g_cfsop)
    {
        long nc = g_cfsop ? g_cfsop * 2 : 256;
        FsOp * b = (FsOp *)arena_alloc(nc * sizeof(FsOp));
        if (g_nfsop) memcpy(b, g_fsop, g_nfsop * sizeof(FsOp));
        g_fsop = b;
        g_cfsop = nc;
    }
    g_fsop[g_nfsop++] = o;
}
static void raw_file_write(Ino & f, i64 off, const char * p, i64 n)
{
    reserve(f, off + n);
    if (off > f.size) memset(f.data + f.size, 0, off - f.size);
    memcpy(f.data + off, p, n);
    if (off + n > f.size) f.size = off + n;
}
static void fs_do_write(int i, i64 off, const char * p, i64 n)
{
    Ino & f = g_ino[i];
    FsOp o = {};
    o.ino = i; o.kind = FS_WRITE; o.off = off; o.len = n; o.oldsize = f.size; o.oldexists = f.exists;
    o.data = (char *)arena_alloc(n + 1);
    memcpy(o.data, p, n);
    o.oldlen = off >= f.size ? 0 : (f.size - off < n ? f.size - off : n);
    if (o.oldlen) { o.old = (char *)arena_alloc(o.oldlen); memcpy(o.old, f.data + off, o.oldlen); }
    raw_file_write(f, off, p, n);
    log_fs(o);
}
static void fs_trunc(int i, i64 n)
{
    Ino & f = g_ino[i];
    FsOp o = {};
    o.ino = i; o.kind = FS_TRUNC; o.len = n; o.oldsize = f.size; o.oldexists = f.exists;
    if (n < f.size) { o.oldlen = f.size - n; o.old = (char *)arena_alloc(o.oldlen); memcpy(o.old, f.data + n, o.oldlen); }
    if (n > f.size) { reserve(f, n); memset(f.data + f.size, 0, n - f.size); }
    f.size = n;
    log_fs(o);
}
static void fs_undo()
{
    FsOp & o = g_fsop[--g_nfsop];
    Ino & f = g_ino[o.ino];
    if (o.kind == FS_WRITE)
    {
        if (o.oldlen) memcpy(f.data + o.off, o.old, o.oldlen);
        f.size = o.oldsize;
    }
    else if (o.kind == FS_TRUNC)
    {
        reserve(f, o.oldsize);
        if (o.oldlen) memcpy(f.data + o.len, o.old, o.oldlen);
        f.size = o.oldsize;
    }
    else
    {
        f.exists = o.oldexists;
        f.size = o.oldsize;
    }
}
EXPORT long sim_fs_nops(void) { return g_nfsop; }
EXPORT long sim_fs_oplen(long i) { return i >= 0 && i < g_nfsop && g_fsop[i].kind == FS_WRITE ? g_fsop[i].len : 0; }
EXPORT int sim_fs_restore(long n, long torn)
{
    if (n > g_nfsop) return -1;
    FsOp * nxt = nullptr;
    FsOp save;
    while (g_nfsop > n)
    {
        save = g_fsop[g_nfsop - 1];
        nxt = &save;
        fs_undo();
    }
    if (nxt && torn > 0 && nxt->kind == FS_WRITE)
        fs_do_write(nxt->ino, nxt->off, nxt->data, torn < nxt->len ? torn : nxt->len);
    return 0;
}
EXPORT int sim_fs_mark(void) { g_nfsop = 0; return 0; }
EXPORT long sim_fs_get(const char * p, void * buf, long cap)
{
    int i = find_ino(p);
    if (i < 0 || !g_ino[i].exists) return -1;
    long n = g_ino[i].size < cap ? g_ino[i].size : cap;
    if (n > 0 && buf) memcpy(buf, g_ino[i].data, n);
    return g_ino[i].size;
}
EXPORT int sim_fs_put(const char * p, const void * buf, long n)
{
    int i = make_ino(p);
    Ino & f = g_ino[i];
    if (n < 0) { f.exists = false; f.size = 0; return 0; }
    f.exists = true;
    reserve(f, n + 1);
    if (n) memcpy(f.data, buf, n);
    f.size = n;
    return 0;
}
EXPORT void sim_fs_capacity(i64 b) { g_fscap = b; }
EXPORT int sim_fs_openfds(void)
{
    int n = 0;
    for (int i = 0; i < 1024; i++) n += g_of[i].used;
    return n;
}
static i64 fs_used()
{
    i64 s = 0;
    for (int i = 0; i < g_nino; i++) if (g_ino[i].exists) s += g_ino[i].size;
    return s;
}
// kinds: bit mask of enabled IO fault kinds per operation class
static bool io_fault(int opclass /*1 open 2 read 3 write 4 close 5 stat*/, i64 len, int & kind, i64 & arg)
{
    if (!(G.armed & 1)) return false;
    u64 idx = G.io_idx++;
    if (G.replay)
    {
        if (!fault_lookup(D_IO, idx, kind, arg)) return false;
        G.io_fired++;
        return true;
    }
    if (!G.p_io || G.io_fired >= G.io_max || !G.rf.ppm(G.p_io)) return false;
    int cand[16], n = 0;
    u64 m = G.io_kinds;
    auto add = [&](int k) { if (m & (1ull << k)) cand[n++] = k; };
    if (opclass == 1) add(IO_OPENFAIL);
    if (opclass == 2) { add(IO_EIO); if (len > 1) add(IO_SHORT); add(IO_EINTR); add(IO_ZERO); add(IO_FLIP); }
    if (opclass == 3) { add(IO_EIO); add(IO_ENOSPC); if (len > 1) add(IO_SHORT); add(IO_EINTR); }
    if (opclass == 4) add(IO_CLOSE);
    if (!n) return false;
    kind = cand[G.rf.below(n)];
    arg = 0;
    if (kind == IO_SHORT) arg = (i64)(G.rf.below(4) == 0 ? len - 1 : 1 + G.rf.below(len - 1));
    if (kind == IO_FLIP) arg = len > 0 ? (i64)G.rf.below((u64)len * 8) : 0;
    G.io_fired++;
    return true;
}
static void io_named(u64 idx, int kind, i64 arg, const char * op)
{
    static const char * nm[] = { "", "EIO", "ENOSPC", "short", "EINTR", "openfail", "eof", "close_EIO", "bitflip", "lost", "slow" };
    char b[40];
    snprintf(b, sizeof b, "%s_%s", op, nm[kind]);
    fault_fired(D_IO, idx, kind, arg, b);
}
static int sim_open(const char * p, int flags)
{
    vis(V_IO);
    int kind; i64 arg;
    u64 idx = G.io_idx;
    if (io_fault(1, 0, kind, arg))
    {
        io_named(idx, kind, arg, "open");
        static const int es[] = { EMFILE, EACCES, EIO, ENFILE };
        errno = es[arg & 3];
        return -1;
    }
    int i = find_ino(p);
    bool ex = i >= 0 && g_ino[i].exists;
    if (!ex && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (ex && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (i < 0) i = make_ino(p);
    if (!ex)
    {
        FsOp o = {};
        o.ino = i; o.kind = FS_CREATE; o.oldexists = g_ino[i].exists; o.oldsize = g_ino[i].size;
        g_ino[i].exists = true;
        g_ino[i].size = 0;
        log_fs(o);
    }
    else if ((flags & O_TRUNC) && g_ino[i].size)
        fs_trunc(i, 0);
    long fd = raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC, 0, 0, 0);
    if (fd < 0 || fd >= 1024) emit("simerror", "descriptor table", 3);
    g_of[fd] = OpenF{ i, flags, 0, true };
    vis(V_IO);
    return fd;
}
static inline OpenF * simfd(int fd) { return fd >= 0 && fd < 1024 && g_of[fd].used ? &g_of[fd] : nullptr; }
static ssize_t sim_pread(OpenF * f, void * b, size_t n, i64 off)
{
    vis(V_IO);
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (off < 0) { errno = EINVAL; return -1; }
    Ino & x = g_ino[f->ino];
    i64 avail = off >= x.size ? 0 : x.size - off;
    if ((i64)n < avail) avail = n;
    int kind; i64 arg;
    u64 idx = G.io_idx;
    i64 flip = -1;
    if (avail > 0 && io_fault(2, avail, kind, arg))
    {
        io_named(idx, kind, arg, "read");
        if (kind == IO_EIO) { errno = EIO; return -1; }
        if (kind == IO_EINTR) { errno = EINTR; return -1; }
        if (kind == IO_ZERO) return 0;
        if (kind == IO_SHORT) avail = arg < avail ? arg : avail;
        if (kind == IO_FLIP) flip = arg;
    }
    if (avail) memcpy(b, x.data + off, avail);
    if (flip >= 0 && flip < avail * 8) ((unsigned char *)b)[flip / 8] ^= 1 << (flip % 8);
    vis(V_IO);
    return avail;
}
static ssize_t sim_pwrite(OpenF * f, const void * b, size_t n, i64 off)
{
    vis(V_IO);
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (off < 0) { errno = EINVAL; return -1; }
    int kind; i64 arg;
    u64 idx = G.io_idx;
    if (n > 0 && io_fault(3, n, kind, arg))
    {
        io_named(idx, kind, arg, "write");
        if (kind == IO_EIO) { errno = EIO; return -1; }
        if (kind == IO_ENOSPC) { errno = ENOSPC; return -1; }
        if (kind == IO_EINTR) { errno = EINTR; return -1; }
        if (kind == IO_SHORT && arg < (i64)n) n = arg;
    }
    if (g_fscap >= 0 && off + (i64)n > g_ino[f->ino].size)
    {
        i64 room = g_fscap - (fs_used() - g_ino[f->ino].size) - off;
        if (room < (i64)n)
        {
            count_fault("disk_full");
            mix(G.hash, 0xD15C);
            if (room <= 0) { errno = ENOSPC; return -1; }
            n = room;
        }
    }
    if (n) fs_do_write(f->ino, off, (const char *)b, n);
    vis(V_IO);
    return n;
}
typedef int (*open_t)(const char *, int, ...);
EXPORT int open(const char * p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (on() && simpath(p)) return sim_open(p, flags);
    static open_t r;
    return real("open", r)(p, flags, mode);
}
EXPORT int open64(const char * p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (on() && simpath(p)) return sim_open(p, flags);
    static open_t r;
    return real("open64", r)(p, flags, mode);
}
EXPORT ssize_t pread(int fd, void * b, size_t n, off_t o) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_pread(f, b, n, o) : REAL(pread)(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void * b, size_t n, off64_t o) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_pread(f, b, n, o) : REAL(pread64)(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void * b, size_t n, off_t o) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_pwrite(f, b, n, o) : REAL(pwrite)(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void * b, size_t n, off64_t o) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_pwrite(f, b, n, o) : REAL(pwrite64)(fd, b, n, o); }
EXPORT ssize_t read(int fd, void * b, size_t n)
{
    OpenF * f = on() ? simfd(fd) : nullptr;
    if (!f) return REAL(read)(fd, b, n);
    ssize_t r = sim_pread(f, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
EXPORT ssize_t write(int fd, const void * b, size_t n)
{
    OpenF * f = on() ? simfd(fd) : nullptr;
    if (!f) return REAL(write)(fd, b, n);
    ssize_t r = sim_pwrite(f, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
static off64_t sim_lseek(OpenF * f, i64 o, int wh)
{
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : g_ino[f->ino].size;
    if (base + o < 0) { errno = EINVAL; return -1; }
    return f->pos = base + o;
}
EXPORT off_t lseek(int fd, off_t o, int wh) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_lseek(f, o, wh) : REAL(lseek)(fd, o, wh); }
EXPORT off64_t lseek64(int fd, off64_t o, int wh) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? sim_lseek(f, o, wh) : REAL(lseek64)(fd, o, wh); }
EXPORT int fsync(int fd) { if (on() && simfd(fd)) { vis(V_IO); return 0; } return REAL(fsync)(fd); }
EXPORT int fdatasync(int fd) { if (on() && simfd(fd)) { vis(V_IO); return 0; } return REAL(fdatasync)(fd); }
static void shmfd_closed(int fd);
EXPORT int close(int fd)
{
    OpenF * f = on() ? simfd(fd) : nullptr;
    if (!f)
    {
        if (on()) shmfd_closed(fd);
        long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
        if (r < 0) { errno = -r; return -1; }
        return 0;
    }
    vis(V_IO);
    f->used = false;
    raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    int kind; i64 arg;
    u64 idx = G.io_idx;
    if (io_fault(4, 0, kind, arg)) { io_named(idx, kind, arg, "close"); errno = EIO; return -1; }
    return 0;
}
static int fill_stat(int i, struct stat * st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = g_ino[i].size;
    st->st_nlink = 1;
    st->st_ino = i + 1;
    st->st_blksize = 4096;
    st->st_blocks = (g_ino[i].size + 511) / 512;
    return 0;
}
static int sim_stat(const char * p, struct stat * st)
{
    vis(V_IO);
    int i = find_ino(p);
    if (i < 0 || !g_ino[i].exists) { errno = ENOENT; return -1; }
    return fill_stat(i, st);
}
EXPORT int stat(const char * p, struct stat * st) { if (on() && simpath(p)) return sim_stat(p, st); return REAL(stat)(p, st); }
EXPORT int stat64(const char * p, struct stat64 * st) { if (on() && simpath(p)) return sim_stat(p, (struct stat *)st); return REAL(stat64)(p, st); }
EXPORT int lstat(const char * p, struct stat * st) { if (on() && simpath(p)) return sim_stat(p, st); return REAL(lstat)(p, st); }
EXPORT int fstat(int fd, struct stat * st) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? fill_stat(f->ino, st) : REAL(fstat)(fd, st); }
EXPORT int fstat64(int fd, struct stat64 * st) { OpenF * f = on() ? simfd(fd) : nullptr; return f ? fill_stat(f->ino, (struct stat *)st) : REAL(fstat64)(fd, st); }
EXPORT int access(const char * p, int m)
{
    if (on() && simpath(p)) { struct stat st; return sim_stat(p, &st); }
    return REAL(access)(p, m);
}
EXPORT int unlink(const char * p)
{
    if (!on() || !simpath(p)) return REAL(unlink)(p);
    vis(V_IO);
    int i = find_ino(p);
    if (i < 0 || !g_ino[i].exists) { errno = ENOENT; return -1; }
    FsOp o = {};
    o.ino = i; o.kind = FS_UNLINK; o.oldexists = true; o.oldsize = g_ino[i].size;
    g_ino[i].exists = false;
    log_fs(o);
    return 0;
}
EXPORT int rename(const char * a, const char * b)
{
    if (!on() || !simpath(a)) return REAL(rename)(a, b);
    vis(V_IO);
    int i = find_ino(a);
    if (i < 0 || !g_ino[i].exists) { errno = ENOENT; return -1; }
    int j = make_ino(b);
    FsOp o = {};
    // modelled as: truncate target, write contents, unlink source, without an intermediate crash point
    Ino src = g_ino[i];
    if (!g_ino[j].exists)
    {
        o.ino = j; o.kind = FS_CREATE; o.oldexists = false; o.oldsize = 0;
        g_ino[j].exists = true;
        g_ino[j].size = 0;
        log_fs(o);
    }
    else
        fs_trunc(j, 0);
    fs_do_write(j, 0, src.data, src.size);
    FsOp u = {};
    u.ino = i; u.kind = FS_UNLINK; u.oldexists = true; u.oldsize = src.size;
    g_ino[i].exists = false;
    log_fs(u);
    return 0;
}

// ------------------------------------------------------------------ shared memory objects
struct Shm { char name[256]; int fd; bool exists; };
static Shm g_shm[64];
static int g_nshm;
static int g_shmfd[64];
static int g_nshmfd;
EXPORT void sim_shm_limit(i64 b) { G.shm_limit = b; }
static bool shm_fault(int kindwanted, const char * name)
{
    if (!on() || !(G.armed & 16)) return false;
    u64 idx = G.shm_idx++;
    int k = kindwanted;
    i64 ar = 0;
    bool f = G.replay ? fault_lookup(D_SHM, idx, k, ar) : (G.p_shm && G.rf.ppm(G.p_shm));
    if (f) fault_fired(D_SHM, idx, k, ar, name);
    return f;
}
static bool is_shmfd(int fd)
{
    for (int i = 0; i < g_nshmfd; i++)
        if (g_shmfd[i] == fd) return true;
    return false;
}
EXPORT int shm_open(const char * name, int flags, mode_t mode)
{
    if (!on()) return REAL(shm_open)(name, flags, mode);
    vis(V_IO);
    if (shm_fault(1, "shm_open_EACCES")) { errno = EACCES; return -1; }
    int i;
    for (i = 0; i < g_nshm; i++)
        if (g_shm[i].exists && !strcmp(g_shm[i].name, name)) break;
    if (strlen(name) > 255) { errno = ENAMETOOLONG; return -1; }
    if (i == g_nshm)
    {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        for (i = 0; i < g_nshm && g_shm[i].exists; i++) {}
        if (i >= 64) emit("simerror", "too many shared memory objects", 3);
        strcpy(g_shm[i].name, name);
        g_shm[i].fd = (int)raw6(SYS_memfd_create, (long)"sim", MFD_CLOEXEC, 0, 0, 0, 0);
        g_shm[i].exists = true;
        if (i == g_nshm) g_nshm++;
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    char b[64];
    snprintf(b, sizeof b, "/proc/self/fd/%d", g_shm[i].fd);
    long fd = raw6(SYS_openat, AT_FDCWD, (long)b, (flags & O_ACCMODE) | O_CLOEXEC, 0, 0, 0);
    if (fd < 0) { errno = -fd; return -1; }
    if (!is_shmfd(fd) && g_nshmfd < 64) g_shmfd[g_nshmfd++] = fd;
    return fd;
}
static void shmfd_closed(int fd)
{
    for (int i = 0; i < g_nshmfd; i++)
        if (g_shmfd[i] == fd) g_shmfd[i--] = g_shmfd[--g_nshmfd];
}
EXPORT int sim_shm_openfds(void) { return g_nshmfd; }
EXPORT int shm_unlink(const char * name)
{
    if (!on()) return REAL(shm_unlink)(name);
    vis(V_IO);
    for (int i = 0; i < g_nshm; i++)
        if (g_shm[i].exists && !strcmp(g_shm[i].name, name))
        {
            g_shm[i].exists = false;
            raw6(SYS_close, g_shm[i].fd, 0, 0, 0, 0, 0);
            return 0;
        }
    errno = ENOENT;
    return -1;
}
static int do_ftruncate(int fd, i64 n)
{
    if (on() && simfd(fd)) { vis(V_IO); fs_trunc(g_of[fd].ino, n); return 0; }
    if (on() && is_shmfd(fd))
    {
        vis(V_IO);
        if (shm_fault(2, "shm_ftruncate_ENOSPC")) { errno = ENOSPC; return -1; }
        if (G.shm_limit >= 0 && n > G.shm_limit)
        {
            // tmpfs is sparse: the size is granted, the pages beyond the limit are not (SIGBUS on touch)
            count_fault("shm_full_sigbus");
            long r = raw6(SYS_ftruncate, fd, G.shm_limit, 0, 0, 0, 0);
            return r < 0 ? -1 : 0;
        }
    }
    long r = raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
EXPORT int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
EXPORT int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }
// the preallocation reports the shortage that a sparse truncation hides
static int do_fallocate(int fd, i64 off, i64 len)
{
    if (on() && is_shmfd(fd))
    {
        vis(V_IO);
        if (shm_fault(4, "shm_fallocate_ENOSPC")) return ENOSPC;
        if (G.shm_limit >= 0 && off + len > G.shm_limit)
        {
            count_fault("shm_full");
            return ENOSPC;
        }
    }
    long r = raw6(SYS_fallocate, fd, 0, off, len, 0, 0);
    return r < 0 ? (int)-r : 0;
}
EXPORT int posix_fallocate(int fd, off_t o, off_t n) { return do_fallocate(fd, o, n); }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t n) { return do_fallocate(fd, o, n); }
static void * do_mmap(void * a, size_t n, int prot, int flags, int fd, i64 off)
{
    if (fd >= 0 && on() && is_shmfd(fd))
    {
        vis(V_IO);
        if (shm_fault(3, "shm_mmap_ENOMEM")) { errno = ENOMEM; return MAP_FAILED; }
    }
    long r = raw6(SYS_mmap, (long)a, n, prot, flags, fd, off);
    if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
    return (void *)r;
}
EXPORT void * mmap(void * a, size_t n, int p, int f, int fd, off_t o) { return do_mmap(a, n, p, f, fd, o); }
EXPORT void * mmap64(void * a, size_t n, int p, int f, int fd, off64_t o) { return do_mmap(a, n, p, f, fd, o); }

// ------------------------------------------------------------------ crashes of the code under test
static void on_crash(int sig, siginfo_t * si, void * uc)
{
    char b[512];
    void * pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    Dl_info di;
    memset(&di, 0, sizeof di);
    dladdr(pc, &di);
    const char * f = di.dli_fname ? strrchr(di.dli_fname, '/') : nullptr;
    snprintf(b, sizeof b, "signal %d (%s) in thread t%d at %s+0x%lx %.200s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "?",
             self ? self->id : -1, f ? f + 1 : "?", (long)((char *)pc - (char *)di.dli_fbase), di.dli_sname ? di.dli_sname : "?");
    (void)si;
    if (getenv("SIM_VERBOSE"))
    {
        void * st[40];
        backtrace_symbols_fd(st, backtrace(st, 40), 2);
    }
    emit("crash", b, 0);
}

// ------------------------------------------------------------------ begin
EXPORT void sim_begin(void)
{
    if (G.active) return;
    u64 seed = sim_cfg("seed", 1);
    G.replay = sim_cfg("replay", 0);
    G.rs.s = seed * 0x9E3779B97F4A7C15ull + 12345;
    G.rf.s = seed * 0xD1342543DE82EF95ull + 999;
    G.strategy = sim_cfg("strategy", 0);
    G.p_vis = sim_cfg("p_vis", 100000);
    G.plain_gap = sim_cfg("plain_gap", 0);
    G.pct_depth = sim_cfg("pct_depth", 3);
    if (G.pct_depth > 64) G.pct_depth = 64;
    G.pct_len = sim_cfg("pct_len", 2000);
    G.quantum = sim_cfg("quantum", 10);
    G.p_spurious = sim_cfg("p_spurious", 0);
    G.p_stall = sim_cfg("p_stall", 0);
    G.stall_len = sim_cfg("stall_len", 1000);
    G.p_jump = sim_cfg("p_jump", 0);
    G.fault_stop = sim_cfg("fault_stop", 200000);
    G.max_vis = sim_cfg("max_vis", 5000000);
    G.max_ops = sim_cfg("max_ops", 4000000000ull);
    G.nproc = sim_cfg("nproc", 4);
    G.vis_ns = sim_cfg("vis_ns", 100);
    G.sig_left = G.replay ? 0 : sim_cfg("sigs", 0);
    G.sig_after = sim_cfg("sig_after", 50);
    G.p_io = sim_cfg("p_io", 0);
    G.io_kinds = sim_cfg("io_kinds", 0xffff);
    G.io_max = sim_cfg("io_max", 1000000);
    G.p_alloc = sim_cfg("p_alloc", 0);
    G.al_max = sim_cfg("al_max", 1000000);
    G.p_tcreate = sim_cfg("p_tcreate", 0);
    G.p_shm = sim_cfg("p_shm", 0);
    G.evlog = sim_cfg("evlog", 0);
    G.shm_limit = cfg_find("shm_limit") ? (i64)sim_cfg("shm_limit", 0) : -1;
    G.next_deadline = NEVER;
    G.hash = 1469598103934665603ull;
    G.shash = G.hash;
    for (u64 i = 0; i < G.pct_depth; i++) G.pct_pts[i] = 1 + G.rs.below(G.pct_len ? G.pct_len : 1);
    // replay faults
    for (const char * p = g_cfgtext; p && *p;)
    {
        if (p[0] == 'F' && p[1] == ' ')
        {
            char * e;
            Ent x;
            x.tid = strtol(p + 2, &e, 10);
            x.op = strtoull(e, &e, 10);
            x.kind = strtol(e, &e, 10);
            x.arg = strtoll(e, &e, 10);
            ent_push(G.flt, G.nflt, G.cflt, x);
        }
        const char * nl = strchr(p, '\n');
        if (!nl) break;
        p = nl + 1;
    }
    if (!g_exitkey_ok) { pthread_key_create(&g_exitkey, exit_dtor); g_exitkey_ok = true; }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    Thr * t = new_thr();
    if (G.replay) load_ents(t);
    t->real = pthread_self();
    t->ktid = (int)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    self = t;
    G.cur = t;
    g_ops = 0;
    G.active = true;
    compute_next(t);
}

// ------------------------------------------------------------------ fork server
static void parse_request(char * text, size_t n)
{
    g_cfgtext = text;
    g_workload = nullptr;
    text[n] = 0;
    char * w = strstr(text, "\nWORKLOAD\n");
    if (w) { *w = 0; w[0] = '\n'; w[1] = 0; g_workload = w + 10; }
}
EXPORT void sim_forkserver(void)
{
    signal(SIGPIPE, SIG_DFL);
    cpu_set_t cs;
    // keep all threads of one simulation on one processor: baton passing is cheaper there
    const char * pin = getenv("SIM_CPU");
    if (pin)
    {
        CPU_ZERO(&cs);
        CPU_SET(atoi(pin), &cs);
        raw6(SYS_sched_setaffinity, 0, sizeof cs, (long)&cs, 0, 0, 0);
    }
    static char hdr[64];
    while (true)
    {
        unsigned len;
        if (raw_read(100, &len, 4) != 4) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
        // the request text goes into a mapping of its own so that the heap stays untouched
        size_t ms = ((size_t)len + 4096 + 65536) & ~size_t(4095);
        char * text = (char *)raw6(SYS_mmap, 0, ms, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (raw_read(100, text, len) != (long)len) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
        int pid = fork();
        if (pid == 0)
        {
            parse_request(text, len);
            return;
        }
        long pfd = raw6(434 /*pidfd_open*/, pid, 0, 0, 0, 0, 0);
        int timeout = 60000;
        const char * to = getenv("SIM_TIMEOUT_MS");
        if (to) timeout = atoi(to);
        bool killed = false;
        if (pfd >= 0)
        {
            struct pollfd pf = { (int)pfd, POLLIN, 0 };
            while (true)
            {
                int r = poll(&pf, 1, timeout);
                if (r == 0) { kill(pid, SIGKILL); killed = true; }
                if (r >= 0) break;
            }
            raw6(SYS_close, pfd, 0, 0, 0, 0, 0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        raw6(SYS_munmap, (long)text, ms, 0, 0, 0, 0);
        int n = snprintf(hdr, sizeof hdr, "X%d %d", st, killed ? 1 : 0);
        unsigned l = n;
        raw_write(g_resfd, &l, 4);
        raw_write(g_resfd, hdr, n);
    }
}
