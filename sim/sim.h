// Deterministic simulator runtime: public API (C linkage, also used through ctypes).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// Fork server: reads requests from fd 100, forks one child per request; returns in the child only.
void sim_forkserver(void);
// Text of the workload section of the current request (NUL-terminated, owned by the runtime).
const char * sim_workload(void);
// Start / stop simulation in the calling process (the caller becomes simulated thread 0).
void sim_begin(void);
// Write the result record and leave the process. verdict: "ok" or a violation class.
void sim_finish(const char * verdict, const char * msg) __attribute__((noreturn));
// Mix a value into the history hash (workload results).
void sim_note(uint64_t v);
void sim_note_buf(const void * p, size_t n);
// A named reach probe.
void sim_probe(const char * name);
// Report a violation from inside the system under test (e.g. from a callback); does not return.
void sim_violate(const char * cls, const char * msg) __attribute__((noreturn));
// Explicit scheduling point.
void sim_point(void);
uint64_t sim_seq(void);    // global event sequence number
uint64_t sim_now(void);    // virtual ns since sim_begin
int sim_tid(void);
uint64_t sim_cfg(const char * key, uint64_t dflt); // numeric config value
// Fault windows. Bits: 1 = I/O faults, 2 = allocation faults, 4 = SIGINT, 8 = thread-creation faults, 16 = shared memory
void sim_arm(unsigned mask);
void sim_disarm(unsigned mask);
uint64_t sim_fault_count(const char * kind); // faults that fired so far, "" = all
// Simulated file system (paths below /simfs/)
long sim_fs_nops(void);                         // mutating operations logged so far
int sim_fs_restore(long nops, long torn_bytes); // roll back to the state after the first nops operations (+ torn prefix of the next)
long sim_fs_get(const char * path, void * buf, long cap); // size (copies at most cap bytes)
int sim_fs_put(const char * path, const void * buf, long n);
int sim_fs_mark(void);                          // forget the log, current contents become the base state
long sim_fs_oplen(long i);                      // bytes written by logged operation i
void sim_fs_capacity(int64_t bytes);            // disk capacity (-1: unlimited)
int sim_fs_openfds(void);                       // simulated files currently open
void sim_shm_limit(int64_t bytes);
// virtual time stamp counter
uint64_t sim_rdtsc(void);
void sim_advance(uint64_t ns);                  // let virtual time pass (harness only)
#ifdef __cplusplus
}
#endif
