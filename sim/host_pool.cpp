// Drives the real worker pool (MathWorker, MathThreads, interrupt) and checks what it did.
#include "MathWorker.h"
#include "interrupt.h"
#include "host.h"
#include <csignal>

// the harness's own bookkeeping is not part of the simulated interleaving
#define NOSIM __attribute__((no_sanitize_thread))

CMathWorker * g_cMathWorker;

static const int MAXN = 1 << 20;
static unsigned char * g_count; // per element or per item: times executed in the current call
static long g_total;            // elements / items of the current call
static int g_epoch, g_active;
static int g_core_busy[80];
static int g_calls;
static long g_done;
static int g_outside; // callbacks seen while no call was in progress
static bool g_in_call;
static int g_prev_hits;
static bool g_slow;
static int g_max_active;

NOSIM static void prev_handler(int) { g_prev_hits++; }

NOSIM static void enter(int core)
{
    if (!g_in_call) { g_outside++; VIOLATE("late-callback", "late-callback: work executed after its call returned"); }
    if (core < 0 || core >= g_cMathWorker->GetNumCores()) VIOLATE("core-range", "core-range: core %d of %d", core, g_cMathWorker->GetNumCores());
    if (g_core_busy[core]) VIOLATE("core-shared", "core-shared: two threads run work as core %d at once", core);
    g_core_busy[core] = 1;
    g_active++;
    if (g_active > g_max_active) g_max_active = g_active;
    g_calls++;
}
NOSIM static void leave(int core)
{
    g_core_busy[core] = 0;
    g_active--;
}
static int g_cur_epoch;
struct Arg { int epoch; long n; };

NOSIM static bool chunk_cb(void * a, int32_t core, int64_t start, int64_t len)
{
    Arg * arg = (Arg *)a;
    if (arg->epoch != g_cur_epoch) VIOLATE("stale-arg", "stale-arg: work of an earlier call executed");
    enter(core);
    if (start < 0 || len <= 0 || start + len > arg->n) VIOLATE("range", "range: block [%ld,+%ld) outside [0,%ld)", (long)start, (long)len, arg->n);
    for (int64_t i = start; i < start + len; i += 4096)
    {
        int64_t e = i + 4096 < start + len ? i + 4096 : start + len;
        for (int64_t j = i; j < e; j++) g_count[j]++;
        sim_point();
    }
    g_done += len;
    leave(core);
    return true;
}
NOSIM static bool item_cb(void * a, int32_t core, int64_t idx)
{
    Arg * arg = (Arg *)a;
    if (arg->epoch != g_cur_epoch) VIOLATE("stale-arg", "stale-arg: work of an earlier call executed");
    enter(core);
    if (idx < 0 || idx >= arg->n) VIOLATE("range", "range: item %ld of %ld", (long)idx, arg->n);
    g_count[idx]++;
    sim_point();
    g_done++;
    sim_point();
    leave(core);
    return true;
}
NOSIM static bool gb_cb(void * a, int64_t idx)
{
    Arg * arg = (Arg *)a;
    if (!g_in_call) VIOLATE("late-callback", "late-callback: work executed after its call returned");
    if (arg->epoch != g_cur_epoch) VIOLATE("stale-arg", "stale-arg: work of an earlier call executed");
    if (idx < 0 || idx >= arg->n) VIOLATE("range", "range: item %ld of %ld", (long)idx, arg->n);
    g_active++;
    if (g_active > g_max_active) g_max_active = g_active;
    g_count[idx]++;
    sim_point();
    g_done++;
    g_calls++;
    sim_point();
    g_active--;
    return true;
}

NOSIM static void one_call(const Op & o, Arg & a)
{
    std::string k = o.str("k");
    g_in_call = true;
    g_done = 0;
    g_calls = 0;
    if (k == "chunk") g_cMathWorker->DoMultiThreadedChunkWork(a.n, chunk_cb, &a, (int)o.get("wake"));
    else if (k == "items") g_cMathWorker->DoMultiThreadedWork((int)a.n, item_cb, &a, (int)o.get("wake"));
    else g_cMathWorker->WorkGroupByCall(gb_cb, &a, a.n);
    g_in_call = false;
    // nothing of this call may still be running when it returned, and nobody may run it afterwards
    if (g_active) VIOLATE("not-quiescent", "not-quiescent: %d threads still inside the call's work when it returned", g_active);
}
NOSIM static void check_counts(const Op & o, const Arg & a, bool partial)
{
    long missing = 0, twice = 0, at = -1;
    for (long i = 0; i < a.n; i++)
    {
        if (g_count[i] == 0) { missing++; if (at < 0) at = i; }
        if (g_count[i] > 1) { twice++; if (at < 0) at = i; }
    }
    if (twice) VIOLATE("executed-twice", "executed-twice: %s n=%ld: %ld executed more than once, first at %ld", o.str("k").c_str(), a.n, twice, at);
    if (missing && !partial) VIOLATE("not-executed", "not-executed: %s n=%ld: %ld never executed, first at %ld", o.str("k").c_str(), a.n, missing, at);
    if (partial && missing) sim_probe("interrupted_with_work_left");
}

NOSIM int main()
{
    sim_forkserver();
    sim_begin();
    std::signal(SIGINT, prev_handler);
    g_count = (unsigned char *)malloc(MAXN);
    Op top;
    std::vector<Op> ops = parse_workload(top);
    if (top.get("tcreate")) sim_arm(8);
    g_cMathWorker = new CMathWorker();
    g_cMathWorker->StartWorkerThreads(0);
    sim_disarm(8);
    std::vector<Arg> args(ops.size());
    for (size_t n = 0; n < ops.size(); n++)
    {
        const Op & o = ops[n];
        std::string k = o.str("k");
        Arg & a = args[n];
        a.epoch = g_cur_epoch = (int)n + 1;
        a.n = o.get("n");
        if (k == "wake") { g_cMathWorker->SetFutexWakeup((int)o.get("n")); continue; }
        if (k == "mode") { g_cMathWorker->NoThreading = o.get("n") != 0; continue; }
        if (k == "idle") { sim_advance(o.get("n")); for (int i = 0; i < 20; i++) sim_point(); continue; }
        if (a.n > MAXN) continue;
        memset(g_count, 0, a.n > 0 ? a.n : 0);
        if (o.get("intr"))
        {
            unsigned long before = sim_fault_count("sigint");
            int prev_before = g_prev_hits;
            unsigned long in0 = 0, in1 = 0;
            bool ran = false;
            if (o.get("arm_outside")) sim_arm(4);
            unsigned long f_pre = sim_fault_count("sigint") - (g_prev_hits - 0);
            (void)f_pre;
            bool r = riptide::interruptible_section([&] {
                in0 = sim_fault_count("sigint");
                if (!o.get("arm_outside")) sim_arm(4);
                one_call(o, a);
                in1 = sim_fault_count("sigint");
                if (!o.get("arm_outside")) sim_disarm(4);
                ran = true;
            });
            sim_disarm(4);
            unsigned long delivered = sim_fault_count("sigint") - before;
            unsigned long to_prev = g_prev_hits - prev_before;
            if (!ran) VIOLATE("section", "section: function not executed");
            // every interrupt reached the installed handler exactly once: either the section reports it, or the previous handler saw it
            if (delivered > to_prev && !r)
                VIOLATE("interrupt-lost", "interrupt-lost: %lu delivered, %lu seen by the previous handler, section reports none", delivered, to_prev);
            if (r && delivered == to_prev) VIOLATE("interrupt-phantom", "interrupt-phantom: section reports an interrupt nobody sent");
            if (in1 > in0 && to_prev > delivered - (in1 - in0))
                VIOLATE("handler", "handler: an interrupt during the section went to the previous handler");
            check_counts(o, a, delivered > 0);
            if (std::signal(SIGINT, prev_handler) != prev_handler) VIOLATE("handler-not-restored", "handler-not-restored: SIGINT handler differs after the section");
            if (delivered) sim_probe("interrupted_section");
        }
        else
        {
            one_call(o, a);
            check_counts(o, a, false);
        }
        if (g_max_active > 1) sim_probe("parallel");
        if (riptide::is_interrupted()) VIOLATE("flag-left", "flag-left: interrupt flag still set after the call");
        if (o.get("gap")) for (int i = 0; i < o.get("gap"); i++) sim_point();
    }
    // let every thread come to rest: late executions would still be seen
    for (int i = 0; i < 200; i++) sim_point();
    sim_finish("ok", "");
}
