// The time the entry points report, judged on a clock the driver owns: it moves on by an
// amount of its choosing at every reading, over second boundaries too. What is reported
// must be the time between two of the readings made during the call.
#include "gemm.h"
#include <sys/time.h>
using namespace vh;

static int64_t now_ns, step_hi = 1000;
static bool owned = false;
static Rng clk(7);
static std::vector<int64_t> readings;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static int64_t tick() {
	pthread_mutex_lock(&mu);
	now_ns += 1000 + (int64_t) (clk.u64() % (uint64_t) step_hi);
	int64_t v = now_ns;
	readings.push_back(v);
	pthread_mutex_unlock(&mu);
	return v;
}
extern "C" int clock_gettime(clockid_t, struct timespec* ts) throw() {
	if(!owned) { ts->tv_sec = 1; ts->tv_nsec = 0; return 0; }
	int64_t v = tick();
	ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
	return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) throw() {
	int64_t v = owned ? tick() : 1000000000;
	tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000;
	return 0;
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, 60);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		bool test = idx % 9 == 8;
		if(test) { c.e = SGEMM; c.mcu = c.kcu = c.ncu = 0; }
		if(r.chance(20)) c.alpha = 2;
		if(r.chance(20)) c.beta = -1;
		set_case(fmt("#%d %s", idx, test ? "test " : "") + c.str());
		Bufs b(c);
		fill(b, c, INTS, r);
		fill_int(b.C.p, b.C.n, 5, r);
		cake_cntx_t x = make_cntx(c);
		now_ns = (int64_t) r.range(1, 1700000000) * 1000000000 + r.range(0, 999999999);
		clk = Rng(r.u64());
		step_hi = r.pick({(int64_t) 1000, (int64_t) 1000000, (int64_t) 400000000, (int64_t) 2500000000LL, (int64_t) 90000000000LL});
		readings.clear();
		owned = true;
		double took = test ? cake_sgemm_test(b.A.p, b.B.p, b.C.p, c.M, c.N, c.K, c.p, &x) : call(c, b.A.p, b.B.p, b.C.p, &x);
		owned = false;
		if(readings.size() < 2) { count("no_clock"); return; }
		bool ok = false;
		for(size_t i = 0; i < readings.size() && !ok; i++) for(size_t j = i + 1; j < readings.size(); j++)
			if(fabs(took - (readings[j] - readings[i]) * 1e-9) <= 5e-6) { ok = true; break; }
		if(!ok) viol("elapsed", fmt("reported %.9f s, which is the time between no two of its %zu clock readings (%.9f s in all)", took, readings.size(),
			(readings.back() - readings[0]) * 1e-9));
		count("judged");
		count("readings", (double) readings.size());
		cover(fmt("%s/%s/step%lld/cross%d", test ? "test" : entry_name[c.e], sch_name[c.sch], (long long) step_hi,
			(int) (readings.back() / 1000000000 - readings[0] / 1000000000 > 2 ? 3 : readings.back() / 1000000000 - readings[0] / 1000000000)));
		if(idx % 50 < 2) sample(fmt("%s: reported %.9f over %zu readings", cur().c_str(), took, readings.size()));
	});
}
