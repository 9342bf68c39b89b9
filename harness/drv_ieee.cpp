// Special values: every element of C has the class (NaN, +Inf, -Inf, finite) that its
// own row of A and column of B give it, finite elements keep the bits they have without
// the special values elsewhere, and subnormal products are not flushed.
#include "gemm.h"
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int maxd = 180;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		if(r.chance(40)) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(!r.chance(25)) snap_dims(c, r, maxd);
		int kind = r.range(0, 3);    // 3: subnormals
		set_case(fmt("#%d kind=%d ", idx, kind) + c.str());
		Bufs b(c, r.chance(30));
		size_t nc = b.C.n;
		if(kind == 3) {
			fill_int(b.A.p, b.A.n, 7, r); fill_int(b.B.p, b.B.n, 7, r);
			std::vector<double> ref(nc);
			ref_mul(b.A.p, b.B.p, ref.data(), c.M, c.N, c.K);
			int ea = r.range(-80, -69), eb = -149 - ea + r.range(0, 3);   // products near or below the smallest normal
			for(size_t i = 0; i < b.A.n; i++) b.A.p[i] = ldexpf(b.A.p[i], ea);
			for(size_t i = 0; i < b.B.n; i++) b.B.p[i] = ldexpf(b.B.p[i], eb);
			fill_nan(b.C.p, nc);
			cake_cntx_t x = make_cntx(c);
			call(c, b.A.p, b.B.p, b.C.p, &x);
			for(size_t i = 0; i < nc; i++) if((double) b.C.p[i] != ldexp(ref[i], ea + eb)) {
				viol("subnormal", fmt("C[%zu][%zu] = %g, expected %g", i / c.N, i % c.N, b.C.p[i], ldexp(ref[i], ea + eb)));
				break;
			}
			count("judged"); count("elements", nc);
			cover("sub/" + shape_class(c));
			return;
		}
		fill(b, c, UNIT, r);
		// rows, columns or blocks of one operand that hold nothing but zeros: what is
		// multiplied by them still counts
		if(r.chance(40)) {
			auto zero = [&](Guard& g, int R, int C) {
				int how = r.range(0, 3);
				int y0 = how == 1 ? 0 : r.range(0, R - 1), y1 = how == 1 ? R : how == 0 ? y0 + 1 : y0 + r.range(1, R - y0);
				int z0 = how == 0 ? 0 : r.range(0, C - 1), z1 = how == 0 ? C : how == 1 ? z0 + 1 : z0 + r.range(1, C - z0);
				if(how == 3) { y0 = z0 = 0; y1 = R; z1 = C; }
				for(int y = y0; y < y1; y++) for(int z = z0; z < z1; z++) g.p[(size_t) y * C + z] = 0;
			};
			if(kind != 0) zero(b.A, c.M, c.K);
			if(kind != 1) zero(b.B, c.K, c.N);
		}
		std::vector<float> A0(b.A.p, b.A.p + b.A.n), B0(b.B.p, b.B.p + b.B.n), clean;
		cake_cntx_t x = make_cntx(c);
		call(c, b.A.p, b.B.p, b.C.p, &x);
		clean.assign(b.C.p, b.C.p + nc);
		// special values at a few places of A, B or both; corners and edges preferred
		auto special_value = [&]() { return r.pick({(float) NAN, (float) INFINITY, (float) -INFINITY}); };
		auto place = [&](Guard& g, int R, int C) {
			int n = r.range(1, 3);
			for(int i = 0; i < n; i++) {
				int y = r.chance(40) ? r.pick({0, R - 1}) : r.range(0, R - 1), z = r.chance(40) ? r.pick({0, C - 1}) : r.range(0, C - 1);
				g.p[(size_t) y * C + z] = special_value();
			}
		};
		if(kind != 1) place(b.A, c.M, c.K);
		if(kind != 0) place(b.B, c.K, c.N);
		if(r.chance(30)) for(int i = 0; i < 5; i++) { b.A.p[r.range(0, (int) b.A.n - 1)] = 0; b.B.p[r.range(0, (int) b.B.n - 1)] = 0; }
		fill_nan(b.C.p, nc);
		cake_cntx_t y = make_cntx(c);
		call(c, b.A.p, b.B.p, b.C.p, &y);
		// rows of A and columns of B that were changed at all
		std::vector<char> rowc(c.M, 0), colc(c.N, 0);
		for(size_t i = 0; i < b.A.n; i++) if(memcmp(&A0[i], &b.A.p[i], 4)) rowc[i / c.K] = 1;
		for(size_t i = 0; i < b.B.n; i++) if(memcmp(&B0[i], &b.B.p[i], 4)) colc[i % c.N] = 1;
		size_t special = 0;
		for(int i = 0; i < c.M; i++) for(int j = 0; j < c.N; j++) {
			float got = b.C.p[(size_t) i * c.N + j];
			if(!rowc[i] && !colc[j]) {
				if(memcmp(&got, &clean[(size_t) i * c.N + j], 4)) { viol("not-local", fmt("C[%d][%d] = %.9g was %.9g; its row of A and column of B are the same", i, j, got, clean[(size_t) i * c.N + j])); i = c.M; break; }
				continue;
			}
			bool nan = false, pi = false, ni = false;
			for(int k = 0; k < c.K; k++) {
				float v = b.A.p[(size_t) i * c.K + k] * b.B.p[(size_t) k * c.N + j];
				if(v != v) nan = true; else if(v == INFINITY) pi = true; else if(v == -INFINITY) ni = true;
			}
			int want = nan || (pi && ni) ? 1 : pi ? 2 : ni ? 3 : 0, have = got != got ? 1 : got == INFINITY ? 2 : got == -INFINITY ? 3 : 0;
			if(want) special++;
			if(want != have) {
				static const char* nm[] = {"finite", "NaN", "+Inf", "-Inf"};
				viol("wrong-class", fmt("C[%d][%d] = %g, should be %s", i, j, got, nm[want]));
				i = c.M; break;
			}
		}
		count("judged"); count("elements", nc); count("special_elements", special);
		cover(fmt("k%d/", kind) + shape_class(c));
		if(idx % 60 < 2) sample(fmt("kind=%d special=%zu ", kind, special) + c.str());
	});
}
