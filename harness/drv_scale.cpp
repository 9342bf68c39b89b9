// BLAS scaling: C = alpha*A*B + beta*C for every entry point.
#include "gemm.h"
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int maxd = 260;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		bool test_entry = idx % 11 == 10;     // cake_sgemm_test takes the same arguments
		if(test_entry) { c.e = SGEMM; c.sch = KMN; }
		if(!r.chance(25)) snap_dims(c, r, maxd);
		if(idx % 31 == 30) { c.M = r.range(1, 3); c.N = r.range(1, 3); c.K = r.pick({1, 2, c.K}); if(r.chance(50)) c.M = c.N = 1; }
		bool exact = r.chance(70);
		if(exact) {
			c.alpha = r.pick({1.f, -1.f, 2.f, 0.5f, -3.f, 0.f, 4.f, 1.f});
			c.beta = r.pick({0.f, 1.f, -1.f, 2.f, 0.5f, -2.f, 3.f, 1.f});
		} else {
			c.alpha = (float) (r.unit() * 6 - 3);
			c.beta = r.chance(25) ? 0.f : (float) (r.unit() * 6 - 3);
		}
		bool big = exact && r.chance(15);   // alpha and beta far apart
		if(big) { c.alpha = r.pick({1024.f, 0.0009765625f}); c.beta = r.pick({0.f, 1.f, 0.0009765625f}); }
		// alpha and beta next to 1, tiny and huge, with C as large as makes both terms count
		bool odd = !big && r.chance(12);
		double cs = 1;
		if(odd) {
			exact = false;
			c.K = r.range(1, 4);
			c.alpha = r.pick({1.f + 0x1p-19f, 1.f - 0x1p-19f, 1.f, 1e-10f, 1e10f, -1e-20f, 1e-30f, 0x1p20f, 1.f + 0x1p-17f});
			c.beta = r.pick({1.f + 0x1p-19f, 1.f - 0x1p-19f, 1e-9f, -1e-8f, 1e-20f, 1e12f, -1e-3f, 0x1p-30f, 0.f, 1e-6f});
			cs = c.beta == 0 ? 1 : r.pick({1.f, 0.01f, 100.f}) * fabs((double) c.alpha / c.beta);
			if(cs < 1e-25) cs = 1e-25;
			if(cs > 1e25) cs = 1e25;
		}
		Bufs b(c, r.chance(30));
		int R = 1;
		if(exact) {
			// |alpha A B| + |beta C| in halves below 2^23: exact however it is rounded
			R = (int) floor(sqrt(400000.0 / c.K)); if(R < 1) R = 1; if(R > 30) R = 30;
			fill_int(b.A.p, b.A.n, R, r); fill_int(b.B.p, b.B.n, R, r);
		} else if(odd) {
			for(size_t i = 0; i < b.A.n; i++) b.A.p[i] = r.range(1, 9);
			for(size_t i = 0; i < b.B.n; i++) b.B.p[i] = r.range(1, 9);
		} else if(r.chance(50)) { fill_unit(b.A.p, b.A.n, r); fill_unit(b.B.p, b.B.n, r); }
		else { fill_wide(b.A.p, b.A.n, r); fill_wide(b.B.p, b.B.n, r); }
		std::vector<float> C0(b.C.n);
		if(exact) fill_int(C0.data(), C0.size(), big ? 15 : 100, r); else fill_unit(C0.data(), C0.size(), r);
		if(odd) for(auto& v : C0) v = (float) (r.range(-50, 50) * cs);
		// infinities and NaNs in C count when beta asks for C
		bool odd_C = exact && c.beta != 0 && r.chance(20);
		for(int q = odd_C ? r.range(1, 4) : 0; q > 0; q--) C0[r.u64() % C0.size()] = r.pick({(float) NAN, (float) INFINITY, -(float) INFINITY});
		if(odd_C) count("special_C");
		if(c.beta == 0) fill_nan(C0.data(), C0.size());
		memcpy(b.C.p, C0.data(), 4 * C0.size());
		set_case(fmt("#%d %s", idx, test_entry ? "cake_sgemm_test " : "") + c.str());
		cake_cntx_t x = make_cntx(c);
		if(test_entry) cake_sgemm_test(b.A.p, b.B.p, b.C.p, c.M, c.N, c.K, c.p, &x, NULL, 0, 0, c.alpha, c.beta);
		else call(c, b.A.p, b.B.p, b.C.p, &x);
		std::vector<double> ref(b.C.n), ab;
		ref_mul(b.A.p, b.B.p, ref.data(), c.M, c.N, c.K);
		if(!exact) { ab.resize(b.C.n); ref_abs(b.A.p, b.B.p, ab.data(), c.M, c.N, c.K); }
		double u = 5.9604644775390625e-8, g = (c.K + 2) * u / (1 - (c.K + 2) * u);
		for(size_t i = 0; i < b.C.n; i++) {
			double bc = c.beta == 0 ? 0 : (double) c.beta * C0[i];
			double want = (double) c.alpha * ref[i] + bc;
			double tol = 0;
			if(!exact) tol = fabs(c.alpha) * ab[i] * g * 1.01 + 4 * u * (fabs(c.alpha) * ab[i] + fabs(bc)) + 1e-36;
			else if(big) tol = 4 * u * (fabs((double) c.alpha * ref[i]) + fabs(bc));
			bool same = std::isnan(want) ? std::isnan(b.C.p[i]) : std::isinf(want) ? (double) b.C.p[i] == want : fabs((double) b.C.p[i] - want) <= tol;
			if(!same) {
				viol("wrong-scaling", fmt("C[%zu][%zu] = %.9g, alpha*AB+beta*C = %.9g (AB %.9g, C before %.9g)", i / c.N, i % c.N, b.C.p[i], want, ref[i], C0[i]));
				break;
			}
		}
		count("judged");
		count("elements", b.C.n);
		int ac = c.alpha == 1 ? 1 : c.alpha == 0 ? 0 : c.alpha < 0 ? 3 : 2, bc = c.beta == 0 ? 0 : c.beta == 1 ? 1 : c.beta < 0 ? 3 : 2;
		cover(fmt("a%db%d%s/", ac, bc, test_entry ? "T" : "") + shape_class(c));
		if(idx % 50 < 2) sample(c.str());
	});
}
