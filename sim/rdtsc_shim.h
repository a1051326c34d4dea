// -include'd into every riptide translation unit of the simulated build: the time stamp counter becomes virtual time.
#pragma once
#include <immintrin.h>
#include <x86intrin.h>
#include <stdint.h>
extern "C" uint64_t sim_rdtsc(void);
#undef __rdtsc
#define __rdtsc() ((unsigned long long)sim_rdtsc())
