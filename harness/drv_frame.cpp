// What a call touches: operands in read-only pages, C between canaries, the context's
// description of the machine, and the calling thread's floating-point environment.
// C does not depend on what it held before (beta 0), and all of it is written.
#include "gemm.h"
#include <xmmintrin.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "caller.h"
#include <omp.h>
using namespace vh;

static bool same_hw(const cake_cntx_t& a, const cake_cntx_t& b) {
	return a.mr == b.mr && a.nr == b.nr && a.m_map == b.m_map && a.n_map == b.n_map && a.L1 == b.L1 && a.L2 == b.L2 && a.L3 == b.L3 &&
		a.ncores == b.ncores && a.blis_cntx == b.blis_cntx;
}

// stdout goes to memory, to see whether the library prints
static int said_fd;
static long said() {
	fflush(stdout);
	struct stat st;
	return fstat(said_fd, &st) ? -1 : (long) st.st_size;
}

int main(int argc, char** argv) {
	split_stdout();
	said_fd = memfd_create("said", 0);
	if(said_fd < 0 || dup2(said_fd, 1) < 0) return 3;
	progress_init();
	int maxd = 300;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		bool test_entry = idx % 19 == 18;
		if(test_entry) { c.e = SGEMM; c.sch = KMN; }
		if(r.chance(40) && !test_entry) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(25) && c.e != SMALL2D && !test_entry) { c.mcu = c.mr * r.range(1, 6); c.ncu = c.nr * r.range(1, 4); c.kcu = r.range(1, 60); }
		if(!r.chance(25)) snap_dims(c, r, maxd);
		if(idx % 17 == 16) stretch_dims(c, r);
		if(r.chance(20)) c.alpha = r.pick({2.f, -1.f, 0.5f});
		bool own = idx % 29 == 28 && !test_entry;    // no context given: the call queries the machine itself
		if(own) { c.mr = MR_MIN; c.nr = NR_MIN; c.mcu = c.kcu = c.ncu = 0; }
		set_case(fmt("#%d %s%s", idx, own ? "no context " : "", test_entry ? "cake_sgemm_test " : "") + c.str());
		Bufs b(c, r.chance(40));
		bool ints = r.chance(50);
		fill(b, c, ints ? INTS : UNIT, r);
		b.A.readonly(true); b.B.readonly(true);     // a write is a fault
		// operands packed before are the caller's as well
		bool packed = c.e == SGEMM && !test_entry && !own && r.chance(35), pa = packed && r.chance(60), pb = packed && (!pa || r.chance(60));
		Guard *Ap = NULL, *Bp = NULL;
		if(packed) {
			cake_cntx_t x = make_cntx(c);
			blk_dims_t q; memset(&q, 0, sizeof q);
			init_block_dims(c.M, c.N, c.K, c.p, &q, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
			omp_set_num_threads(c.p);
			if(pa) { Ap = new Guard((cake_sgemm_packed_A_size(c.M, c.K, c.p, &q, &x, q.sch) / 4 + 15) / 16 * 16); pack_A(b.A.p, Ap->p, c.M, c.K, c.p, &q, &x, q.sch); Ap->readonly(true); }
			if(pb) { Bp = new Guard((cake_sgemm_packed_B_size(c.K, c.N, c.p, &q, &x) / 4 + 15) / 16 * 16); pack_B(b.B.p, Bp->p, c.K, c.N, c.p, &q, &x, q.sch); Bp->readonly(true); }
			count("packed_calls", 3);
		}
		std::vector<float> first;
		unsigned csr = _mm_getcsr();
		for(int k = 0; k < 3; k++) {
			// three different earlier contents of C
			if(k == 0) fill_nan(b.C.p, b.C.n);
			else if(k == 1) for(size_t i = 0; i < b.C.n; i++) b.C.p[i] = 0;
			else for(size_t i = 0; i < b.C.n; i++) b.C.p[i] = (i & 1) ? INFINITY : -3.25e30f;
			cake_cntx_t x = make_cntx(c), x0 = x;
			sigset_t mask0, mask1;
			memset(&mask0, 0, sizeof mask0); memset(&mask1, 0, sizeof mask1);
			sigprocmask(SIG_SETMASK, NULL, &mask0);
			int dyn = omp_get_dynamic(), lev = omp_get_max_active_levels(), lim = omp_get_thread_limit();
			Caller was = Caller::now();
			unsigned seed = 77 + idx * 3 + k;
			srand(seed);
			long before = said();
			if(test_entry) cake_sgemm_test(b.A.p, b.B.p, b.C.p, c.M, c.N, c.K, c.p, &x, NULL, 0, 0, c.alpha, c.beta);
			else call(c, pa ? Ap->p : b.A.p, pb ? Bp->p : b.B.p, b.C.p, own ? NULL : &x, pa, pb);
			if(own) count("own_context_calls");
			count("calls");
			int drawn = rand();
			sigprocmask(SIG_SETMASK, NULL, &mask1);
			srand(seed);
			if(drawn != rand()) { viol("rand-drawn", "the call drew from the caller's sequence of random numbers"); break; }
			const char* other = was.differs(Caller::now());
			if(other) { viol("caller-state", fmt("the caller's %s was changed", other)); break; }
			if(said() != before) { viol("printed", fmt("the call wrote %ld bytes to the caller's standard output", said() - before)); break; }
			if(memcmp(&mask0, &mask1, sizeof mask0)) { viol("signal-mask", "the caller's signal mask was changed"); break; }
			if(dyn != omp_get_dynamic() || lev != omp_get_max_active_levels() || lim != omp_get_thread_limit()) { viol("omp-settings", "the caller's OpenMP settings were changed"); break; }
			if(!same_hw(x, x0)) { viol("context-changed", "the caller's description of the machine or tile was changed"); break; }
			if((_mm_getcsr() & 0xffc0) != (csr & 0xffc0)) { viol("fp-environment", "the floating-point control word was changed"); break; }
			if(!b.C.canary_ok()) { viol("outside-C", "memory next to C was written"); break; }
			if(k == 0) {
				uint32_t nanpat = 0x7fc12345u;
				for(size_t i = 0; i < b.C.n; i++) if(!memcmp(&b.C.p[i], &nanpat, 4)) { viol("C-not-written", fmt("C[%zu][%zu] was left as it was", i / c.N, i % c.N)); break; }
				if(ints && c.alpha == 1) check_product(c, b.A.p, b.B.p, b.C.p, INTS, "wrong-product");
				first.assign(b.C.p, b.C.p + b.C.n);
			} else if(memcmp(first.data(), b.C.p, 4 * b.C.n)) {
				size_t i = 0;
				while(!memcmp(&first[i], &b.C.p[i], 4)) i++;
				viol("old-C-leaks", fmt("C[%zu][%zu] = %.9g, after another content of C %.9g", i / c.N, i % c.N, b.C.p[i], first[i]));
				break;
			}
		}
		if(!b.A.canary_ok() || !b.B.canary_ok() || hash(b.A.p, b.A.n * 4) != b.ha || hash(b.B.p, b.B.n * 4) != b.hb) viol("operand-changed", "A or B was changed");
		if(pa && !Ap->canary_ok()) viol("operand-changed", "wrote beside the packed A");
		if(pb && !Bp->canary_ok()) viol("operand-changed", "wrote beside the packed B");
		delete Ap; delete Bp;
		count("judged");
		count("guarded_floats", (double) (b.A.n + b.B.n + b.C.n));
		cover(shape_class(c));
		if(idx % 60 < 2) sample(c.str());
	});
}
