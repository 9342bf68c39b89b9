// The product from whatever surroundings it is called: inside a parallel region (nested or
// not), from a thread with a small stack, under a storm of signals, with floating-point
// flags raised, in any rounding mode, on operands that overlap, after the caller chose its own team size. The team the runtime grants is
// further restricted through the OMP_* environment by the check.
#include "gemm.h"
#include <omp.h>
#include <sys/time.h>
#include <fenv.h>
#include <immintrin.h>
using namespace vh;

static volatile sig_atomic_t ticks;
static void on_tick(int) { ticks = ticks + 1; }

struct Job { const Case* c; float *A, *B, *C; cake_cntx_t* x; };
static void* thread_main(void* a) { Job* j = (Job*) a; call(*j->c, j->A, j->B, j->C, j->x); return NULL; }

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	base_cntx();
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
	sigaction(SIGALRM, &sa, NULL);
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, 260);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		if(!r.chance(25)) snap_dims(c, r, 260);
		int via = (idx / 16) % 8;
		static const char* vn[] = {"direct", "in_parallel", "nested", "small_stack", "signals", "own_team", "rounding", "overlap"};
		if((via == 3 && r.chance(60)) || (via != 3 && idx % 13 == 12)) {   // blocks far larger than a stack
			c.L1 = r.pick({32 << 10, 64 << 10}); c.L2 = r.pick({1 << 20, 2 << 20, 8 << 20}); c.L3 = c.L2 * r.pick({4, 8, 16}); c.ncores = r.pick({4, 16});
			c.M = r.range(200, 700); c.N = r.range(200, 700); c.K = r.range(20, 300);
		}
		if(via == 7 && r.chance(60)) c.N = c.M = c.K;
		set_case(fmt("#%d %s ", idx, vn[via]) + c.str());
		Bufs b(c, r.chance(30));
		Fill f = via == 6 || r.chance(70) ? INTS : UNIT;
		fill(b, c, f, r);
		// half of the whole-number products scaled and added to what C holds
		bool scaled = f == INTS && r.chance(50);
		int R = exact_range(c.K);
		std::vector<float> C0;
		if(scaled) {
			c.alpha = r.pick({1.f, -1.f, 2.f}); c.beta = r.pick({1.f, -1.f, 2.f, 0.f});
			set_case(fmt("#%d %s ", idx, vn[via]) + c.str());
			int lim = (int) sqrt(1e6 / c.K);
			R = lim < 1 ? 1 : lim < R ? lim : R;
			fill_int(b.A.p, b.A.n, R, r); fill_int(b.B.p, b.B.n, R, r); fill_int(b.C.p, b.C.n, 1000, r);
			C0.assign(b.C.p, b.C.p + b.C.n);
		}
		float *A = b.A.p, *B = b.B.p;
		size_t nA = (size_t) c.M * c.K, nB = (size_t) c.K * c.N, off = r.chance(50) ? 0 : r.range(0, (int) nA);
		Guard both(via == 7 ? std::max(nA, off + nB) : 1, r.chance(30));
		if(via == 7) {   // B is A, or begins inside it
			if(f == INTS) fill_int(both.p, both.n, R, r); else fill_unit(both.p, both.n, r);
			A = both.p; B = both.p + off;
		}
		unsigned mode = _mm_getcsr() & ~0x3fu;
		cake_cntx_t x = make_cntx(c);
		auto go = [&]() { call(c, A, B, b.C.p, &x); };
		if(via == 0) { feraiseexcept(FE_ALL_EXCEPT); go(); feclearexcept(FE_ALL_EXCEPT); }
		else if(via == 1 || via == 2) {
			int t = r.range(1, 4), by = r.range(0, t - 1);
			int old = omp_get_max_active_levels();
			omp_set_max_active_levels(via == 1 ? 1 : 3);
			#pragma omp parallel num_threads(t)
			{
				if(omp_get_thread_num() == by % omp_get_num_threads()) go();
			}
			omp_set_max_active_levels(old);
		} else if(via == 3) {
			pthread_attr_t at;
			pthread_attr_init(&at);
			pthread_attr_setstacksize(&at, r.pick({64, 96, 128, 256}) << 10);
			Job j = {&c, A, B, b.C.p, &x};
			pthread_t t;
			if(pthread_create(&t, &at, thread_main, &j)) _exit(3);
			pthread_join(t, NULL);
			pthread_attr_destroy(&at);
		} else if(via == 4) {
			struct itimerval it = {{0, 300}, {0, 300}}, off = {{0, 0}, {0, 0}};
			setitimer(ITIMER_REAL, &it, NULL);
			go();
			setitimer(ITIMER_REAL, &off, NULL);
			counters()["signals"] = ticks;
		} else if(via == 6) {
			fesetround(r.pick({FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}));
			unsigned set = _mm_getcsr() & ~0x3fu;
			go();
			if((_mm_getcsr() & ~0x3fu) != set) viol("fp-mode", fmt("the caller's floating-point mode %x became %x", set, _mm_getcsr() & ~0x3fu));
			fesetround(FE_TONEAREST);
			_mm_setcsr(mode);
		} else if(via == 7) go();
		else {
			omp_set_num_threads(r.range(1, 9));
			omp_set_dynamic(r.range(0, 1));
			go();
			omp_set_dynamic(0);
		}
		if((_mm_getcsr() & ~0x3fu) != mode) { viol("fp-mode", fmt("the caller's floating-point mode %x became %x", mode, _mm_getcsr() & ~0x3fu)); _mm_setcsr(mode); }
		bool right = true;
		if(scaled) {
			std::vector<double> ref(b.C.n);
			ref_mul(A, B, ref.data(), c.M, c.N, c.K);
			for(size_t i = 0; i < b.C.n && right; i++) {
				double want = (double) c.alpha * ref[i] + (c.beta == 0 ? 0 : (double) c.beta * C0[i]);
				if((double) b.C.p[i] != want) { right = false; viol("wrong-scaling", fmt("C[%zu][%zu] = %.9g, expected %.9g", i / c.N, i % c.N, b.C.p[i], want)); }
			}
			count("scaled");
		} else right = check_product(c, A, B, b.C.p, f, "wrong-product");
		if(right && !b.C.canary_ok()) viol("overrun", "wrote beside C");
		count("judged");
		cover(fmt("%s/", vn[via]) + shape_class(c));
		if(idx % 50 < 2) sample(cur());
	});
}
