#pragma once
#include <stdint.h>
enum { SHIM_THREADS = 0, SHIM_SERIAL = 1 };
typedef struct {
	int mode;          // SHIM_THREADS: all at once; SHIM_SERIAL: one at a time, in order
	int order;         // serial: 0 ascending, 1 descending, 2 random
	int max_team;      // cap on the team size, 0 none
	int random_team;   // each region gets 1..requested threads
	int delay;         // threads: random delays of up to this many microseconds
	uint64_t seed;
	int dflt_threads;  // team size where none was set
} shim_cfg_t;
typedef struct { uint64_t regions, members, order_sig; } shim_stat_t;
extern shim_cfg_t shim_cfg;
extern shim_stat_t shim_stat;
