// Interposes malloc and friends (the executable's definitions win over libc's), with the
// sizes asked for in a table of its own so that they can be summed up again on free.
#include "alloc_mon.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static alloc_stat_t st_;

struct Slot { void* p; size_t n; };
static const size_t NSLOT = 1 << 18;
static Slot* tab;

static Slot* find(void* p, bool add) {
	if(!tab) tab = (Slot*) mmap(0, NSLOT * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t h = ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ULL >> 46;
	Slot* free_ = 0;
	for(size_t i = 0; i < NSLOT; i++, h = (h + 1) & (NSLOT - 1)) {
		if(tab[h].p == p) return &tab[h];
		if(tab[h].p == (void*) 1) { if(!free_) free_ = &tab[h]; continue; }   // removed
		if(!tab[h].p) return add ? (free_ ? free_ : &tab[h]) : 0;
	}
	return 0;
}
static void note(void* p, size_t n) {
	if(!p) return;
	pthread_mutex_lock(&mu);
	Slot* s = find(p, true);
	if(s) { s->p = p; s->n = n; st_.live_blocks++; st_.live_bytes += n; st_.calls++; if(st_.live_bytes > st_.peak_bytes) st_.peak_bytes = st_.live_bytes; }
	pthread_mutex_unlock(&mu);
}
static void forget(void* p) {
	if(!p) return;
	pthread_mutex_lock(&mu);
	Slot* s = find(p, false);
	if(s) { st_.live_blocks--; st_.live_bytes -= s->n; s->p = (void*) 1; } else st_.bad_frees++;
	pthread_mutex_unlock(&mu);
}

extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); note(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); note(p, a * b); return p; }
void free(void* p) { forget(p); __libc_free(p); }
void* realloc(void* q, size_t n) { forget(q); void* p = __libc_realloc(q, n); note(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); note(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if(!p) return ENOMEM; *r = p; return 0; }
void alloc_mon_read(alloc_stat_t* s) { pthread_mutex_lock(&mu); *s = st_; pthread_mutex_unlock(&mu); }
void alloc_mon_reset_peak(void) { pthread_mutex_lock(&mu); st_.peak_bytes = st_.live_bytes; pthread_mutex_unlock(&mu); }
}
