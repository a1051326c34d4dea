"""What each property's check runs."""
REAL_PY = "riptide_cpp module (all its code, instrumented at -O0), CPython 3.12, numpy, zstd, glibc"
STUB_PY = "thread scheduling, clocks, timers, signals, thread creation, processor count, time stamp counter"
POOL = dict(name="pool", src="host_pool.cpp", units=["MathWorker.cpp", "MathThreads.cpp", "interrupt.cpp"])
REAL_POOL = "MathWorker.cpp/.h, MathThreads.cpp/.h, interrupt.cpp (instrumented), libstdc++, glibc"
STUB_POOL = STUB_PY + "; the work callbacks are the harness's"
TRUST = " Assumes sequentially consistent memory (weak-memory reorderings are not simulated); trusts the compiler, glibc and the simulator."
NOTE = "Seeded random and priority-based schedules and faults over generated workloads, every run repeatable; a sample, not a proof." + TRUST


def cpp(**k):
    return dict(dict(host="cpp", hostspec=POOL, work="w_pool", real=REAL_POOL, stub=STUB_POOL, note=NOTE), **k)


def py(work, technique, **k):
    return dict(dict(host="py", work=work, omit=(), real=REAL_PY, stub=STUB_PY, technique=technique, note=NOTE), **k)


PROPS = {
    "P00": py("w_smoke", "smoke", unclaimed=True),
    "P01": cpp(technique="seeded schedule search over the real worker pool; exactly-once and quiescence checked on the recorded block executions"),
    "P02": cpp(technique="seeded schedule, stall, spurious-wake and thread-creation-failure search; bounded-step progress and deadlock detection"),
    "P03": cpp(technique="seeded SIGINT delivery points and schedules; interrupt accounting and handler restoration"),
    "P04": py("w_math", "seeded schedule search over elementwise kernels; numpy and piecewise single-threaded evaluation as the reference"),
    "P05": py("w_sort", "seeded schedule search over merge, quick and heap sorts and sort-derived grouping; stable numpy ordering as the reference"),
    "P06": py("w_group", "seeded schedule search over hash grouping and bin packing; reference grouping by first occurrence"),
    "P07": py("w_gb", "seeded schedule and interrupt search over group-by aggregation; per-group numpy evaluation as the reference"),
    "P08": py("w_member", "seeded schedule search over membership and alignment; sorted lookup as the reference"),
    "P09": py("w_index", "seeded schedule search over indexing, masking, stacking and conversion; numpy indexing as the reference"),
    "P10": py("w_reduce", "seeded schedule search over whole-array reductions; exact integer and tolerance-bounded float reference"),
    "P11": py("w_ema", "seeded schedule search over binning, rolling, EMA, time windows, interpolation and record conversion; row-order sequential reference"),
    "P12": py("w_sds", "seeded schedules and split or interrupted reads and writes over real file saving and loading on a simulated file system; the saved arrays are the reference"),
    "P13": py("w_sds", "seeded injection of write errors, full disks, short writes and failing closes into real file saving on a simulated disk; success must mean the file reads back"),
    "P14": py("w_sds", "seeded read errors, truncated and missing files under real file loading on a simulated disk; every read returns the saved data or raises"),
    "P15": py("w_sds", "seeded crash points over the recorded write history of a save on a simulated disk; recovery must give the old or the new contents or an error"),
    "P16": py("w_sds", "seeded schedules and split reads under real filtered, stacked and concatenated reads on a simulated file system; selection and concatenation in memory is the reference"),
    "P17": py("w_sds", "seeded damage to the bytes of saved files on a simulated disk under seeded schedules; a read must raise or return usable arrays, and checksummed data must not change", malloc_debug=True),
    "P18": py("w_sds", "seeded failures of shared memory creation, sizing and mapping, full shared memory, incomplete mappings and read errors under real shared-memory saves and loads; the saved arrays are the reference"),
    "P19": py("w_comp", "seeded schedules, failing allocations and damaged bytes under real in-memory compression; the compressed arrays and strings are the reference", malloc_debug=True),
    "P20": py("w_recycle", "seeded histories of allocations, views, drops, recycles and collections on a simulated time stamp counter over the real recycler; every new array is compared with all live ones", malloc_debug=True),
    "P21": py("w_log", "seeded schedules of logging threads, handler, flusher and simulated clock over the real logging service and Python sinks; the delivered history is checked against the logged one", helpers=("log",), malloc_debug=True),
    "P22": py("w_log", "seeded schedules, thread-creation failures and concurrent enabling and disabling of the real logging service on a simulated clock; termination, time taken and threads left are checked", helpers=("log",), malloc_debug=True),
    "P23": py("w_conc", "seeded schedules of several Python threads, worker threads and logging threads around the interpreter lock, each thread running the other properties' workloads; their oracles are the reference"),
    "P24": py("w_alloc", "seeded failures of the module's and numpy's allocations under real operations of every part; their oracles without faults are the reference", helpers=("npmem",), malloc_debug=True),
    "P26": py("w_own", "seeded schedules and failing allocations under histories of calls of every part; reference counts and contents of all arguments and results are compared around every call", helpers=("npmem",)),
}
