// Allocation monitor: every heap allocation of the process, whoever makes it.
#pragma once
#include <stddef.h>
extern "C" {
	typedef struct { long live_blocks, live_bytes, peak_bytes, calls, bad_frees; } alloc_stat_t;
	void alloc_mon_read(alloc_stat_t* s);
	void alloc_mon_reset_peak(void);
}
