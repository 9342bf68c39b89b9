// A stand-in for the OpenMP runtime, over pthreads, for the monitors:
//  - every parallel region runs on threads made for it and joined after it, so that a
//    race detector sees exactly the synchronisation the program asks for;
//  - the team size, the order of the threads and delays are chosen by the driver.
// It implements what gcc emits for parallel, for (all schedules), sections, single,
// master, critical, atomic, barrier, tasks (run at once) and the usual omp_* calls.
#include "gomp_shim.h"
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <string>

namespace {

struct WorkShare { long next, end, incr, chunk; int kind; bool set; int single_taken; void* copy; };

struct Team {
	int n;
	pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
	pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
	// barrier
	int waiting = 0; uint64_t gen = 0;
	// baton: the one thread that runs, in serial mode
	bool serial = false;
	std::vector<int> order; std::vector<char> state;   // 0 ready, 1 at a barrier, 2 ended
	int turn = -1;
	std::map<long, WorkShare> ws;
	WorkShare* combined = NULL; // the region is a loop or sections: its share is under way from the start
};

struct Self { Team* team; int id; long nshare; int depth; WorkShare* cur; long static_trip; };
thread_local Self self = {NULL, 0, 0, 0, NULL, 0};
thread_local int tl_nthreads = 0;   // omp_set_num_threads of this thread; 0: never set

uint64_t rnd() {
	static thread_local uint64_t s = 0;
	if(!s) s = shim_cfg.seed * 0x9E3779B97F4A7C15ULL + (uint64_t) (uintptr_t) &s + 1;
	uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}

void maybe_delay() {
	if(!shim_cfg.delay) return;
	uint64_t r = rnd();
	if(r % 4 == 0) { struct timespec t = {0, (long) ((r >> 8) % (uint64_t) (shim_cfg.delay * 1000))}; nanosleep(&t, NULL); }
	else if(r % 4 == 1) sched_yield();
}

// with mu held
void pass_baton(Team* t) {
	for(int id : t->order) if(t->state[id] == 0) { t->turn = id; pthread_cond_broadcast(&t->cv); return; }
	t->turn = -1;
}

void barrier(Team* t) {
	if(!t || t->n == 1) return;
	maybe_delay();
	pthread_mutex_lock(&t->mu);
	uint64_t g = t->gen;
	if(t->serial) t->state[self.id] = 1;
	if(++t->waiting == t->n) {
		t->waiting = 0; t->gen++;
		if(t->serial) for(auto& s : t->state) if(s == 1) s = 0;
		pthread_cond_broadcast(&t->cv);
	}
	if(t->serial) {
		pass_baton(t);
		while(t->gen == g || t->turn != self.id) pthread_cond_wait(&t->cv, &t->mu);
	} else while(t->gen == g) pthread_cond_wait(&t->cv, &t->mu);
	pthread_mutex_unlock(&t->mu);
}

struct Start { Team* t; int id; void (*fn)(void*); void* data; int depth; };

void run_member(Team* t, int id, void (*fn)(void*), void* data, int depth) {
	Self saved = self;
	self.team = t; self.id = id; self.nshare = 0; self.depth = depth; self.cur = NULL; self.static_trip = 0;
	if(t->combined) { self.cur = t->combined; self.nshare = 1; }
	if(t->serial) {
		pthread_mutex_lock(&t->mu);
		while(t->turn != id) pthread_cond_wait(&t->cv, &t->mu);
		pthread_mutex_unlock(&t->mu);
	} else maybe_delay();
	fn(data);
	if(t->serial) {
		pthread_mutex_lock(&t->mu);
		t->state[id] = 2;
		pass_baton(t);
		pthread_mutex_unlock(&t->mu);
	}
	self = saved;
}

void* thread_main(void* p) {
	Start* s = (Start*) p;
	run_member(s->t, s->id, s->fn, s->data, s->depth);
	return NULL;
}

int team_size(unsigned req) {
	if(self.depth > 0) return 1;    // nested regions are serialised, as by default
	int n = req ? (int) req : (tl_nthreads ? tl_nthreads : shim_cfg.dflt_threads);
	if(n < 1) n = 1;
	if(shim_cfg.max_team > 0 && n > shim_cfg.max_team) n = shim_cfg.max_team;
	if(shim_cfg.random_team) n = 1 + (int) (rnd() % (uint64_t) n);
	return n;
}

void parallel(void (*fn)(void*), void* data, unsigned req, WorkShare* first = NULL) {
	Team t;
	t.n = team_size(req);
	if(first) { t.ws[0] = *first; t.combined = &t.ws[0]; }
	__atomic_add_fetch(&shim_stat.regions, 1, __ATOMIC_RELAXED);
	__atomic_add_fetch(&shim_stat.members, t.n, __ATOMIC_RELAXED);
	int depth = self.depth + 1;
	int saved_n = tl_nthreads;
	if(t.n == 1) {
		run_member(&t, 0, fn, data, depth);
		return;
	}
	t.serial = shim_cfg.mode == SHIM_SERIAL;
	for(int i = 0; i < t.n; i++) t.order.push_back(i);
	uint64_t sig = 14695981039346656037ULL;
	if(t.serial) {
		if(shim_cfg.order == 1) for(int i = 0; i < t.n / 2; i++) std::swap(t.order[i], t.order[t.n - 1 - i]);
		else if(shim_cfg.order == 2) for(int i = t.n - 1; i > 0; i--) std::swap(t.order[i], t.order[rnd() % (uint64_t) (i + 1)]);
		for(int i : t.order) sig = (sig ^ (uint64_t) (i + 1)) * 1099511628211ULL;
		t.state.assign(t.n, 0);
		t.turn = t.order[0];
		__atomic_xor_fetch(&shim_stat.order_sig, sig * (__atomic_load_n(&shim_stat.regions, __ATOMIC_RELAXED) + 1), __ATOMIC_RELAXED);
	}
	std::vector<pthread_t> th(t.n);
	std::vector<Start> st(t.n);
	for(int i = 1; i < t.n; i++) {
		st[i] = {&t, i, fn, data, depth};
		if(pthread_create(&th[i], NULL, thread_main, &st[i])) { fprintf(stderr, "shim: pthread_create failed\n"); _exit(3); }
	}
	run_member(&t, 0, fn, data, depth);
	for(int i = 1; i < t.n; i++) pthread_join(th[i], NULL);
	tl_nthreads = saved_n;
}

Team* team() {
	static thread_local Team solo;
	if(self.team) return self.team;
	solo.n = 1;
	return &solo;
}

// the next worksharing construct of this thread
WorkShare* share() {
	Team* t = team();
	pthread_mutex_lock(&t->mu);
	WorkShare* w = &t->ws[self.nshare++];
	pthread_mutex_unlock(&t->mu);
	self.cur = w;
	self.static_trip = 0;
	return w;
}

enum { STATIC, DYNAMIC, GUIDED };

bool loop_next(long* s, long* e) {
	WorkShare* w = self.cur;
	Team* t = team();
	pthread_mutex_lock(&t->mu);
	bool ok = false;
	long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
	if(w->kind == STATIC) {
		long total = left, n = t->n;     // next never moves in a static share
		long chunk = w->chunk > 0 ? w->chunk : (total + n - 1) / n;
		long first = (self.static_trip * n + self.id) * chunk;
		if(total > 0 && chunk > 0 && first < total && (w->chunk > 0 || self.static_trip == 0)) {
			long last = first + chunk < total ? first + chunk : total;
			*s = w->next + first * w->incr; *e = w->next + last * w->incr;
			self.static_trip++;
			ok = true;
		}
	} else if(left > 0) {
		long c = w->chunk > 0 ? w->chunk : 1;
		if(w->kind == GUIDED) { long g = left / (2 * t->n); if(g > c) c = g; }
		if(c > left) c = left;
		*s = w->next; *e = w->next + c * w->incr; w->next = *e;
		ok = true;
	}
	pthread_mutex_unlock(&t->mu);
	return ok;
}

bool loop_start(int kind, long start, long end, long incr, long chunk, long* s, long* e) {
	WorkShare* w = share();
	Team* t = team();
	pthread_mutex_lock(&t->mu);
	if(!w->set) { w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->kind = kind; w->set = true; }
	pthread_mutex_unlock(&t->mu);
	return s ? loop_next(s, e) : true;
}

pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, names_mu = PTHREAD_MUTEX_INITIALIZER;
std::map<void**, pthread_mutex_t*>& names() { static std::map<void**, pthread_mutex_t*> m; return m; }
pthread_mutex_t* named(void** p) {
	pthread_mutex_lock(&names_mu);
	pthread_mutex_t*& m = names()[p];
	if(!m) { m = new pthread_mutex_t; pthread_mutex_init(m, NULL); }
	pthread_mutex_unlock(&names_mu);
	return m;
}

} // namespace

shim_cfg_t shim_cfg = {SHIM_THREADS, 0, 0, 0, 0, 1, 4};
shim_stat_t shim_stat;

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); return n; }
void GOMP_barrier() { barrier(team()); }
bool GOMP_barrier_cancel() { barrier(team()); return false; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }

bool GOMP_single_start() {
	WorkShare* w = share();
	Team* t = team();
	pthread_mutex_lock(&t->mu);
	bool mine = !w->single_taken;
	w->single_taken = 1;
	pthread_mutex_unlock(&t->mu);
	return mine;
}
void* GOMP_single_copy_start() {
	WorkShare* w = share();
	Team* t = team();
	pthread_mutex_lock(&t->mu);
	bool mine = !w->single_taken;
	w->single_taken = 1;
	pthread_mutex_unlock(&t->mu);
	if(mine) return NULL;
	barrier(t);
	return w->copy;
}
void GOMP_single_copy_end(void* data) { self.cur->copy = data; barrier(team()); }

#define LOOPS(name, kind) \
bool GOMP_loop_##name##_start(long a, long b, long c, long k, long* s, long* e) { return loop_start(kind, a, b, c, k, s, e); } \
bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long c, long k, unsigned) { \
	WorkShare w = {a, b, c, k, kind, true, 0, NULL}; parallel(fn, d, n, &w); }
LOOPS(static, STATIC)
LOOPS(dynamic, DYNAMIC)
LOOPS(guided, GUIDED)
LOOPS(nonmonotonic_dynamic, DYNAMIC)
LOOPS(nonmonotonic_guided, GUIDED)
#define RLOOPS(name) \
bool GOMP_loop_##name##_start(long a, long b, long c, long* s, long* e) { return loop_start(DYNAMIC, a, b, c, 1, s, e); } \
bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long c, unsigned) { \
	WorkShare w = {a, b, c, 1, DYNAMIC, true, 0, NULL}; parallel(fn, d, n, &w); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
#define ULOOPS(name, kind) \
bool GOMP_loop_ull_##name##_start(bool up, U a, U b, U c, U k, U* s, U* e) { (void) up; return loop_start(kind, (long) a, (long) b, (long) c, (long) k, (long*) s, (long*) e); } \
bool GOMP_loop_ull_##name##_next(U* s, U* e) { return loop_next((long*) s, (long*) e); }
typedef unsigned long long U;
ULOOPS(static, STATIC)
ULOOPS(dynamic, DYNAMIC)
ULOOPS(guided, GUIDED)
ULOOPS(nonmonotonic_dynamic, DYNAMIC)
ULOOPS(nonmonotonic_guided, GUIDED)
#define URLOOPS(name) \
bool GOMP_loop_ull_##name##_start(bool up, U a, U b, U c, U* s, U* e) { (void) up; return loop_start(DYNAMIC, (long) a, (long) b, (long) c, 1, (long*) s, (long*) e); } \
bool GOMP_loop_ull_##name##_next(U* s, U* e) { return loop_next((long*) s, (long*) e); }
URLOOPS(runtime)
URLOOPS(nonmonotonic_runtime)
URLOOPS(maybe_nonmonotonic_runtime)
// ordered loops: the first thread to come does all of the iterations, in order
#define OLOOPS(name) \
bool GOMP_loop_ordered_##name##_start(long a, long b, long c, long, long* s, long* e) { return loop_start(DYNAMIC, a, b, c, 1L << 40, s, e); } \
bool GOMP_loop_ordered_##name##_next(long* s, long* e) { return loop_next(s, e); }
OLOOPS(static)
OLOOPS(dynamic)
OLOOPS(guided)
bool GOMP_loop_ordered_runtime_start(long a, long b, long c, long* s, long* e) { return loop_start(DYNAMIC, a, b, c, 1L << 40, s, e); }
bool GOMP_loop_ordered_runtime_next(long* s, long* e) { return loop_next(s, e); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_loop_end() { barrier(team()); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(team()); return false; }

unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? (unsigned) s : 0; }
unsigned GOMP_sections_start(unsigned count) { loop_start(DYNAMIC, 1, (long) count + 1, 1, 1, NULL, NULL); return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) {
	WorkShare w = {1, (long) count + 1, 1, 1, DYNAMIC, true, 0, NULL}; parallel(fn, d, n, &w); }
void GOMP_sections_end() { barrier(team()); }
void GOMP_sections_end_nowait() {}

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
	if(cpy) {
		void* m = NULL;
		if(posix_memalign(&m, align < 16 ? 16 : align, size)) _exit(3);
		cpy(m, data); fn(m); free(m);
	} else fn(data);
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long) {
	void* m = NULL;
	if(posix_memalign(&m, align < 16 ? 16 : align, size + 16)) _exit(3);
	if(cpy) cpy(m, data); else memcpy(m, data, size);
	((long*) m)[0] = start; ((long*) m)[1] = end;
	fn(m);
	free(m);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }

int omp_get_thread_num() { return self.team ? self.id : 0; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
void omp_set_num_threads(int n) { tl_nthreads = n < 1 ? 1 : n; }
int omp_get_max_threads() { int n = tl_nthreads ? tl_nthreads : shim_cfg.dflt_threads; return n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
int omp_get_level() { return self.depth; }
int omp_get_active_level() { return self.depth > 0; }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }

void omp_init_lock(void** l) { named(l); }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { pthread_mutex_lock(named(l)); }
void omp_unset_lock(void** l) { pthread_mutex_unlock(named(l)); }
int omp_test_lock(void** l) { return pthread_mutex_trylock(named(l)) == 0; }

void omp_init_nest_lock(void** l) {
	pthread_mutexattr_t a;
	pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
	pthread_mutex_t* m = named(l);
	pthread_mutex_destroy(m); pthread_mutex_init(m, &a);
}
void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l) { pthread_mutex_lock(named(l)); }
void omp_unset_nest_lock(void** l) { pthread_mutex_unlock(named(l)); }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_proc_bind() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_cancellation() { return 0; }
int omp_in_final() { return 0; }
void omp_set_wait_policy(int) {}

} // extern C
