#pragma once
#include <stddef.h>
#include <stdint.h>
// What the instrumented accesses of the library (built with -fsanitize=thread, run without
// its runtime) hit: up to four watched ranges, with a count of reads and writes per element
// of four bytes, and a total per thread.
enum { TRACE_RANGES = 4, TRACE_THREADS = 256 };
typedef struct { uintptr_t lo, hi; uint16_t *rd, *wr; } trace_range_t;
extern "C" {
	extern trace_range_t trace_range[TRACE_RANGES];
	extern volatile int trace_on;
	// elements accessed per thread: read in range 0..3, written in range 0..3, elsewhere
	extern uint64_t trace_share[2*TRACE_RANGES + 1][TRACE_THREADS];
	extern int trace_nthreads;
	void trace_reset(void);
}
