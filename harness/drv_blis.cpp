// The product where packing is done by the BLIS kernels: every entry point of a library
// built to pack with them, and cake_sgemm_test, which always does. These kernels are
// written for the smallest register tile.
#include "gemm.h"
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	bool only_test = false;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--mode")) only_test = !strcmp(argv[i + 1], "test");
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, 420);
		bool test = only_test || idx % 3 == 0;
		c.e = test ? SGEMM : (Entry) (idx % 4);
		c.sch = test ? KMN : (enum sched) ((idx / 4) % 4);
		if(!r.chance(25)) snap_dims(c, r, 420);
		if(idx % 37 == 36) stretch_dims(c, r);
		bool pa = test && r.chance(20), pb = test && r.chance(20);
		set_case(fmt("#%d %s packed=%d%d ", idx, test ? "cake_sgemm_test" : "", pa, pb) + c.str());
		Fill f = r.chance(70) ? INTS : r.chance(50) ? UNIT : WIDE;
		Bufs b(c, r.chance(30));
		fill(b, c, f, r);
		cake_cntx_t x = make_cntx(c);
		if(test) {
			float *Ap = b.A.p, *Bp = b.B.p;
			blk_dims_t d;
			plan(c, &d);
			if(pa) {
				if(posix_memalign((void**) &Ap, 64, cake_sgemm_packed_A_size(c.M, c.K, c.p, &d, &x, KMN))) _exit(3);
				pack_A_single_buf_k_first_blis(b.A.p, Ap, c.M, c.K, c.p, &d, &x);
			}
			if(pb) {
				if(posix_memalign((void**) &Bp, 64, cake_sgemm_packed_B_size(c.K, c.N, c.p, &d, &x))) _exit(3);
				pack_B_k_first_blis(b.B.p, Bp, c.K, c.N, &d, &x);
			}
			cake_sgemm_test(Ap, Bp, b.C.p, c.M, c.N, c.K, c.p, &x, NULL, pa, pb);
			if(pa) free(Ap);
			if(pb) free(Bp);
		} else call(c, b.A.p, b.B.p, b.C.p, &x);
		if(check_product(c, b.A.p, b.B.p, b.C.p, f, "wrong-product") && !b.C.canary_ok()) viol("overrun", "wrote beside C");
		count("judged");
		cover(fmt("%d%d%d/", test, pa, pb) + shape_class(c));
		if(idx % 50 < 2) sample(cur());
	});
}
