// Results as a function of the operands alone. Natively the driver reports a hash of each
// result, which the check compares between builds and heaps filled differently; under
// memcheck it asks, bit by bit, whether the result is defined.
#include "gemm.h"
#ifdef HAVE_MEMCHECK
#include <valgrind/memcheck.h>
#else
#define VALGRIND_MAKE_MEM_UNDEFINED(a, n)
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, n) 0
#define VALGRIND_COUNT_ERRORS 0
#endif
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int maxd = 200, dirty = 0;
	for(int i = 1; i + 1 < argc; i += 2) {
		if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
		if(!strcmp(argv[i], "--dirty")) dirty = atoi(argv[i + 1]);
	}
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		if(c.p > 8) c.p = 8;
		if(r.chance(30)) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(30) && c.e != SMALL2D) { c.mcu = c.mr * r.range(1, 6); c.ncu = c.nr * r.range(1, 4); c.kcu = r.range(1, 60); }
		if(!r.chance(25)) snap_dims(c, r, maxd);
		bool test = idx % 13 == 12;
		if(test) { c.e = SGEMM; c.mr = MR_MIN; c.nr = NR_MIN; c.mcu = c.kcu = c.ncu = 0; }
		if(!test && r.chance(30)) c.alpha = r.pick({2.5f, -1.0f, 0.3f});
		if(!test && r.chance(25)) c.beta = r.pick({1.0f, 0.5f});
		set_case(fmt("#%d %s", idx, test ? "test " : "") + c.str());
		// what is left behind on the stack and the heap
		if(dirty) {
			std::vector<void*> v;
			for(int i = 0; i < 40; i++) { size_t n = (size_t) 1 << (4 + (i + dirty) % 17); void* q = malloc(n); memset(q, dirty == 1 ? 0x41 : 0xFF, n); v.push_back(q); }
			for(void* q : v) free(q);
			volatile unsigned char pad[65536];
			for(size_t i = 0; i < sizeof pad; i++) pad[i] = (unsigned char) (dirty * 85 + 1);
		}
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		float *A = (float*) malloc(4 * na), *B = (float*) malloc(4 * nb), *C = (float*) malloc(4 * nc);
		fill_unit(A, na, r); fill_unit(B, nb, r);
		if(c.beta != 0) fill_unit(C, nc, r);
		else { if(dirty) memset(C, dirty == 1 ? 0x77 : 0xFF, 4 * nc); else memset(C, 0, 4 * nc); VALGRIND_MAKE_MEM_UNDEFINED(C, 4 * nc); }
		unsigned before = VALGRIND_COUNT_ERRORS;
		cake_cntx_t x;
		if(idx % 5 == 0) { cake_cntx_t* q = cake_query_cntx_torch(c.L2, c.L3); x = *q; free(q); x.L1 = c.L1; x.ncores = c.ncores; update_mr_nr(&x, c.mr, c.nr); }
		else x = make_cntx(c);
		if(test) cake_sgemm_test(A, B, C, c.M, c.N, c.K, c.p, &x); else call(c, A, B, C, &x);
		unsigned at = (unsigned) (VALGRIND_CHECK_MEM_IS_DEFINED(C, 4 * nc) != 0);
		unsigned after = VALGRIND_COUNT_ERRORS;
		if(at || after != before) viol("uninitialised", fmt("%u uses of undefined values, result %s", after - before, at ? "undefined in part" : "defined"));
		fprintf(out(), "H %d %016llx\n", idx, (unsigned long long) hash(C, 4 * nc));
		free(A); free(B); free(C);
		count("judged");
		count("elements", (double) nc);
		cover(shape_class(c));
		if(idx % 50 < 2) sample(cur());
	});
}
