#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


POOLMECH = [("work item ring, atomic block claim, futex sleep and wake", "src/MathWorker.h, src/MathWorker.cpp"), ("worker loop", "src/MathThreads.h, src/MathThreads.cpp")]

p("P01", "Worker pool runs every block of a job exactly once and is then quiet",
  "For every job handed to the worker pool, each block of the index range is executed exactly once with the bounds the range implies, and when the submit call "
  "returns every block has finished and its effects are visible to the caller. After that return no worker touches the job's data again, also when the next job reuses the same slot.",
  ["schedules", "inputs", "configurations", "histories"],
  "every job length, block size, worker count, number of threads woken, sequence of jobs and interleaving of caller and workers, with stalled workers and spurious wake-ups",
  "The tests run a few jobs on the interleavings the machine happens to produce; a lost or repeated block needs a particular preemption between claim, completion and slot reuse.",
  ["src/MathWorker.h", "src/MathWorker.cpp", "src/MathThreads.h", "src/MathThreads.cpp"], POOLMECH,
  ["the callbacks executed by the pool", "return of the submit call"],
  [("ring of work items", "one slot per outstanding job, reused in turn", "src/MathWorker.h")])

p("P02", "Submitting work always terminates, also when worker threads are missing",
  "A submitted job completes within a bounded number of steps once every thread keeps being scheduled, for any number of available processors and worker threads, including none. "
  "Neither worker threads that could not be created at start-up, nor spurious or lost-looking wake-ups, nor stalled workers make start-up or a later job hang.",
  ["schedules", "configurations", "fault_sequences"],
  "every interleaving, every thread creation failure pattern, every worker count and thread-wake setting, every stall or spurious wake-up",
  "Liveness needs the wake-up races and thread creation failures that a test machine does not produce.",
  ["src/MathWorker.h", "src/MathWorker.cpp", "src/MathThreads.h", "src/MathThreads.cpp"], POOLMECH + [("start-up handshake with workers", "src/MathWorker.cpp")],
  ["return of the start-up call", "return of the submit call"])

p("P03", "An interrupt during pool work is reported, never lost, and the handler restored",
  "A SIGINT delivered while an interruptible section is running is reported by that section, a section without a SIGINT reports none, and an interrupt belongs to one section only. "
  "When the section ends the previous signal handler is back in force, and an interrupted job still returns within a bounded number of steps with no block running afterwards.",
  ["schedules", "fault_sequences", "histories"],
  "every delivery point of the signal, every interleaving with the workers, nested and successive sections",
  "No test delivers signals at chosen points; the windows are a few instructions wide.",
  ["src/interrupt.cpp", "src/interrupt.h", "src/MathWorker.cpp"], [("interruptible section and SIGINT handler", "src/interrupt.cpp"), ("interrupt poll in the pool", "src/MathWorker.h")],
  ["result of the interruptible section", "installed SIGINT action"])

p("P04", "Elementwise operations do not depend on threads or splitting",
  "Arithmetic, comparisons, unary functions, fused where-selection and dtype conversions on arrays give, for each element, the value that the operation applied to that element alone gives. "
  "The result does not depend on the array length, block boundaries, memory layout, number of worker threads or scheduling, and the inputs are unchanged.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, worker count, array length around the block boundaries, dtype, scalar or array operand, stride and output buffer",
  "The tests use short arrays, mostly below the threshold at which work is split over threads.",
  ["src/BasicMath.cpp", "src/Compare.cpp", "src/UnaryOps.cpp", "src/one_input_impl.h", "src/Convert.cpp"], [("block split of elementwise kernels", "src/BasicMath.cpp, src/Compare.cpp, src/UnaryOps.cpp, src/Convert.cpp")],
  ["result arrays of BasicMathTwoInputs, BasicMathOneInput, BasicMathUnaryOp, Where, ConvertSafe, ConvertUnsafe, CombineFilter"])

p("P05", "Sorts return an ordered, stable permutation under any schedule",
  "Sorting and index-sorting return a permutation of the input in order (stable where documented, NaN last, several keys compared lexicographically), the same for every number of threads and every interleaving. "
  "Group boundaries derived from a sort agree with the sorted keys.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the parallel merge steps, array length, dtype, key count, duplicate and NaN pattern, worker count",
  "Parallel merge sort runs only on long arrays and its merges race on a per-node counter; tests see one schedule.",
  ["src/Sort.cpp", "src/Heap.h"], [("parallel merge sort with per-pair completion counters", "src/Sort.cpp")],
  ["LexSort32, LexSort64, Sort, SortInPlace, SortInPlaceIndirect, IsSorted, GroupFromLexSort, ReverseShuffle results"])

p("P06", "Grouping by key numbers equal keys equally, in first-occurrence order",
  "Grouping rows by one or several keys gives two rows the same group number exactly if all their keys are equal, numbers groups from one in order of first occurrence with filtered rows in group zero, "
  "and reports the first row of each group. This holds for every key dtype, filter, hash size hint, thread count and schedule.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, key dtype and width, number of keys, cardinality, filter, hint",
  "Tests group small inputs, on one schedule; the multi-key packing and the hash workspace reuse appear only with larger inputs and histories.",
  ["src/MultiKey.cpp", "src/HashLinear.cpp", "src/HashLinear.h"], [("open addressing hash", "src/HashLinear.cpp"), ("multi-key packing", "src/MultiKey.cpp"), ("per-group bin count, next and group lists", "src/MultiKey.cpp")],
  ["MultiKeyGroupBy32, MultiKeyUnique32, MakeiNext, BinCount, GroupFromBinCount, CombineFilter results"])

p("P07", "Group-by aggregates equal a per-group evaluation under any schedule",
  "Group-by aggregation functions (sum, mean, min, max, var, std, first, last, count, median, mode, nth, rolling and cumulative forms and so on) return for every group what the function gives on that group's rows in order, for any thread count and schedule. "
  "An interrupt during an aggregation either leaves the correct result or raises KeyboardInterrupt, and the next call is correct.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every interleaving of bins, bands and columns over threads, group sizes including empty groups, dtype, bin range, interrupt point",
  "The banded and scatter-gather paths need long arrays and several threads, and interrupts are never delivered by a test.",
  ["src/GroupBy.cpp", "src/GroupBy.h"], [("per-core bin ranges, banded and scatter-gather aggregation", "src/GroupBy.cpp"), ("interruptible sections", "src/GroupBy.cpp")],
  ["GroupByAll32, GroupByAllPack32, GroupByPack32 results"])

p("P08", "Membership tests and alignment equal set lookup under any schedule",
  "A membership test reports for each element whether it occurs in the second array and the position of its first occurrence there (or the invalid marker), for single keys, multiple keys and categoricals. "
  "The answer is the same for every thread count, schedule, dtype, array length and earlier history of calls.",
  ["schedules", "inputs", "configurations", "histories"],
  "every interleaving, dtype and string width, size relation of the arrays, NaN and duplicate pattern, worker count",
  "The lookup phase is split over threads only for long arrays, and the hash table memory is reused between calls.",
  ["src/HashLinear.cpp", "src/HashLinear.h", "src/MultiKey.cpp", "src/is_member_tg.h"], [("hash build then parallel lookup", "src/HashLinear.cpp")],
  ["IsMember32, IsMember64, MultiKeyIsMember32, IsMemberCategorical, MultiKeyAlign32 results"])

p("P09", "Indexing, masking and rearranging move exactly the requested elements",
  "Fancy indexing, boolean indexing, mask and index assignment, boolean-to-index conversion, re-indexing and horizontal stacking move exactly the requested elements to the requested places and nothing else. "
  "Out-of-range indexes give the default value, and no result depends on thread count, schedule, length or memory layout.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, index dtype, item size, mask density, length around block boundaries, worker count",
  "Per-thread partial counts and offsets matter only for arrays long enough to be split, and their races need chosen interleavings.",
  ["src/Merge.cpp", "src/TileRepeat.cpp", "src/Sort.cpp", "src/RipTide.cpp"], [("two-pass count and copy over chunks", "src/Merge.cpp"), ("stacking columns in parallel", "src/Merge.cpp")],
  ["MBGet, BooleanIndex, BooleanToFancy, BooleanSum, PutMask, SetItem, ReIndex, HStack, ShiftArrays, HomogenizeArrays results"])

p("P10", "Whole-array reductions combine every element once under any schedule",
  "Sum, mean, min, max, argmin, argmax, variance, standard deviation and their nan-ignoring forms over an array combine every element exactly once, and integer, position and extremum results are exactly those of a sequential evaluation. "
  "Floating point results stay within rounding of it, for every thread count, schedule, length and layout.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the per-chunk partial results, length, dtype, stride, NaN and invalid pattern, worker count",
  "The chunked path and the atomic merge of partial results run only for long arrays.",
  ["src/Reduce.cpp"], [("per-chunk reduction and merge of partial results", "src/Reduce.cpp")], ["Reduce results", "BooleanSum results"])

p("P11", "Binning, rolling, EMA and time-window results are schedule independent",
  "Histogram cuts, exponential moving averages, rolling and time-window aggregates, interpolation and conversion of record arrays to columns return what a sequential evaluation in row order returns. "
  "This holds for every thread count, schedule, column count and length.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of columns and chunks, group pattern, window, dtype, worker count",
  "Tests use short arrays on one thread; columns and chunks are distributed over threads only for longer ones.",
  ["src/Bins.cpp", "src/Ema.cpp", "src/TimeWindow.cpp", "src/TileRepeat.cpp", "src/Merge.cpp"], [("column or chunk split", "src/Bins.cpp, src/Ema.cpp, src/TimeWindow.cpp")],
  ["BinsToCutsBSearch, BinsToCutsSorted, EmaAll32, Rolling, TimeWindow, InterpExtrap2d, RecordArrayToColMajor results"])

SDSF = ["src/SDSFile.cpp", "src/SDSFile.h", "src/SDSFilePython.cpp", "src/FileReadWrite.h", "src/Compress.cpp", "src/ZstdCompress.cpp"]
p("P12", "Saved files read back identical to what was saved",
  "Writing arrays to an SDS file and reading the file gives back the same names, dtypes, shapes, flags, meta data and bytes, for every array set, compression mode and level, section layout, and for appended sections. "
  "This holds for every schedule of the compressing and decompressing threads and every split of reads and writes by the operating system.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every interleaving of the compression and I/O threads, array sizes around the band and chunk limits, dtype, order, name and meta length, number of sections, short reads and writes, EINTR-free delays",
  "Tests round trip a few tables on one schedule with an operating system that never splits an operation.",
  SDSF, [("multi-threaded band compression, ordered file offsets by atomic add", "src/SDSFile.cpp"), ("looped reads and writes", "src/FileReadWrite.h")],
  ["CompressFile, DecompressFile, MultiDecompressFiles results", "file contents"])

p("P13", "A failed write is reported, a save that reports success is readable",
  "When an operating system call fails or comes up short while saving a file (open, write, seek, full disk), the save raises an error or the file nevertheless contains everything. "
  "A save never reports success for a file that does not read back as what was saved.",
  ["fault_sequences", "schedules", "inputs"],
  "every position and kind of failing or short write in the sequence of operating system calls of a save or append, under every schedule",
  "No test injects write failures.",
  SDSF, [("checks of write results", "src/SDSFile.cpp, src/FileReadWrite.h")], ["return or exception of CompressFile", "a later DecompressFile"])

p("P14", "A failed or short read is reported, never returned as data",
  "When reading a file meets an I/O error, a short file or missing data, the read raises an error or returns exactly what was saved; it never returns arrays holding anything else. "
  "It neither crashes nor hangs, and later reads of good files are unaffected.",
  ["fault_sequences", "schedules", "inputs"],
  "every position and kind of failing or short read in the sequence of operating system calls of a load, every truncation point of the file, under every schedule",
  "No test injects read failures or truncates files.",
  SDSF, [("checks of read results", "src/SDSFile.cpp, src/FileReadWrite.h")], ["return or exception of DecompressFile, MultiDecompressFiles, MultiStackFiles"])

p("P15", "A crash during a save never leaves a file that reads as wrong data",
  "If the process dies at any point of a save, reading the file afterwards raises an error or gives the data of the old or of the new contents, never arrays with other contents. "
  "When the save was an append, the sections that were complete before stay readable.",
  ["crash_points", "schedules", "inputs"],
  "every crash point between and inside the operating system calls of a save or append, under every schedule of the writing threads",
  "No test kills a save.",
  SDSF, [("order of header, array block and data writes", "src/SDSFile.cpp")], ["DecompressFile after the crash"])

p("P16", "Filtered, stacked and concatenated reads equal the same operation in memory",
  "Reading with an include list, a folder list, a row filter or sections, stacking several files and concatenating files into one give exactly the rows and columns that loading everything and selecting or concatenating in memory gives. "
  "Missing columns and differing dtypes follow the documented filling and promotion, under every schedule of the reading threads.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, filter density, band and section layout, file count, dtype combination, missing columns, missing files",
  "The filter, band and section code has many size-dependent paths which tests sample once each on one schedule.",
  SDSF, [("filter to chunk translation", "src/SDSFile.cpp"), ("stacked column offsets", "src/SDSFile.cpp")], ["MultiStackFiles, MultiDecompressFiles, MultiConcatFiles, MultiPossiblyStackFiles results"])

p("P17", "A damaged file never crashes the reader",
  "Reading a file in which any bytes were changed raises an error or returns arrays, and never crashes, hangs or writes outside its buffers. "
  "With checksumming enabled at save time, changed compressed data is always reported.",
  ["fault_sequences", "inputs", "schedules"],
  "every position and value of changed bytes (bit flips, zeroed or duplicated blocks), every schedule",
  "No test damages files.",
  SDSF, [("header and block validation", "src/SDSFile.cpp"), ("zstd frame checksums", "src/ZstdCompress.cpp")], ["DecompressFile on damaged files"])

p("P18", "Shared-memory loads equal file loads and fail cleanly",
  "Loading a file through shared memory gives the arrays that loading it from disk gives, for the loader that creates the mapping and for every later one, under every schedule. "
  "Failing to create, size or map the shared memory leads to an error or to a plain file load, never to a crash or to wrong data.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving, every failing shared memory call, full shared memory, repeated loads, stores and removals, mappings left incomplete by another process",
  "Tests use a healthy shared memory file system and one loader.",
  ["src/SharedMemory.cpp", "src/SharedMemory.h", "src/SDSFile.cpp"], [("copy of the file image into shared memory", "src/SDSFile.cpp, src/SharedMemory.cpp")], ["DecompressFile with a share name"])

p("P19", "In-memory compression round-trips under any schedule and failure",
  "Compressing and decompressing arrays or strings in memory gives back the same bytes for every level, length and schedule. "
  "Allocation failure or damaged input raises an error (or gives None in place of a compressed array) and never returns other data while checksums are on.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving, array count and length, level, failing allocation, damaged input",
  "Tests compress one string.",
  ["src/Compress.cpp", "src/ZstdCompress.cpp"], [("per-array compression jobs", "src/Compress.cpp")], ["CompressString, DecompressString, CompressDecompressArrays"])

p("P20", "Recycled array memory is never shared with a live array",
  "An array obtained from the recycler shares no memory with any array still referenced, and has the requested dtype and shape; recycling an array that is still referenced has no effect on it. "
  "Memory held by the recycler is bounded and is released by garbage collection; with recycling switched off no further array is kept.",
  ["histories", "inputs", "schedules"],
  "every history of allocations, views, releases, recycles, garbage collections and clock values",
  "Aliasing needs particular sequences of releases, views and reuses; tests check only single calls.",
  ["src/Recycler.cpp", "src/Recycler.h"], [("per-size stacks of free arrays, reference count checks", "src/Recycler.cpp")],
  ["RecycleNumpy, TryRecycleNumpy, Empty, AllocateNumpy, RecycleGarbageCollectNow, BasicMathTwoInputs results"])

p("P21", "Every log message is delivered once and in order unless the queue is full",
  "Each message logged while logging is enabled is delivered to the sink exactly once, with its level, source location and time, and in the order its thread logged it; it may be missing only if the queue was at its bound, and a sink that raises loses no other message. "
  "A full batch does not wait for the flush interval, and messages logged before logging is disabled are delivered by the time disabling returns, unless its time limit passed.",
  ["schedules", "inputs", "configurations", "histories"],
  "every interleaving of logging threads, flusher and handler, queue bound, flush interval and clock",
  "Tests log from one thread and wait.",
  ["src/logging/logging_service.h", "src/logging/waiting_deque.h", "src/logging/logger.h", "src/Logger.cpp"], [("queues between loggers, handler thread and flusher timer", "src/logging/logging_service.h")],
  ["sink calls"])

p("P22", "Enabling, disabling and shutting down logging always terminates",
  "Any sequence of enable and disable calls, from any thread other than inside a log sink and while messages are being logged, terminates within a bounded time that does not depend on the flush interval. "
  "It leaves no logging thread running after disabling, and logging can be enabled again; a thread which cannot be created makes enabling raise an error, and a process may end with logging on.",
  ["schedules", "histories", "configurations"],
  "every interleaving of enable, disable, log, flusher and handler, spurious wake-ups, clock jumps",
  "Lost wake-ups need chosen interleavings.",
  ["src/logging/logging_service.h", "src/logging/timer.h", "src/logging/waiting_deque.h", "src/Logger.cpp"], [("cancel flags and condition variables", "src/logging/timer.h, src/logging/waiting_deque.h")],
  ["return of EnableLogging, DisableLogging", "threads alive"])

p("P23", "Calls from several Python threads do not disturb each other",
  "When several Python threads call module functions concurrently on their own data, each call returns what it would have returned alone, whichever parts of it run without the interpreter lock. "
  "No call hangs or crashes because of another.",
  ["schedules", "programs", "inputs"],
  "every interleaving of Python threads at interpreter lock releases with the worker threads, every combination of operations",
  "Tests call from one Python thread.",
  ["src/MultiKey.cpp", "src/SDSFilePython.cpp", "src/SDSFile.cpp", "src/MathWorker.h", "src/HashLinear.cpp"], [("interpreter lock release around long operations", "src/MultiKey.cpp, src/SDSFilePython.cpp"), ("single global worker pool and hash workspace", "src/MathWorker.h, src/HashLinear.cpp")],
  ["results of concurrent calls"])

p("P24", "A failing allocation raises an error and leaves no wrong result",
  "When an allocation fails inside an operation, the call raises an error or returns the correct result; it does not crash, hang or return other data. "
  "Later calls work normally.",
  ["fault_sequences", "schedules", "inputs"],
  "every position of a failing large allocation in sorts, hashes, group-by, indexing and conversions, under every schedule",
  "No test makes allocations fail.",
  ["src/HashLinear.cpp", "src/Sort.cpp", "src/GroupBy.cpp", "src/MultiKey.cpp", "src/Recycler.cpp"], [("null checks after allocation", "src/RipTide.h (WORKSPACE_ALLOC), src/HashLinear.cpp")],
  ["result or exception of the call"])

p("P25", "Date and time parsing is exact for every well-formed string",
  "Parsing well-formed date, time and date-time strings gives the exact nanosecond count, and malformed ones give the invalid marker.",
  ["inputs"], "every byte string of any fixed width", "Tests sample a few strings.",
  ["src/DateTime.cpp", "src/strptime5.cpp"], [("per-row parse", "src/DateTime.cpp")], ["DateStringToNanos, TimeStringToNanos, DateTimeStringToNanos, StrptimeToNanos results"])

p("P26", "Arrays are never written or freed by a call that does not own them",
  "No call changes its input arrays unless documented as in place, reference counts of inputs and outputs balance (also when the call fails, for instance because memory runs out), and repeating a call does not use more and more memory: arrays live exactly as long as they are referenced.",
  ["schedules", "faults", "histories"], "every function, argument combination and error path, with allocations failing at any point", "Tests do not look at reference counts or inputs after calls.",
  ["src/RipTide.cpp", "src/Array.cpp", "src/MultiKey.cpp"], [("array allocation and reference counting helpers", "src/RipTide.cpp")], ["reference counts and contents after calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
