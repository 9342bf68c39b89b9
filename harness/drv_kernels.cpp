// The generated micro-kernels by themselves: C += A*B on one register tile, for any k,
// and the packing kernels that feed them.
//   --mode dense | pack | blocks | blis6x16 | blis8x12
#include "gemm.h"
#include <omp.h>
using namespace vh;

static const int NM = sizeof kernel_map / sizeof kernel_map[0], NN = sizeof kernel_map[0] / sizeof kernel_map[0][0];

// a panel whose end is at a page that cannot be read, 64-aligned at its start if that is asked
struct Panel {
	Guard g; float* p;
	Panel(size_t n, bool aligned) : g(aligned ? (n + 15) / 16 * 16 : n), p(g.p) { fill_nan(g.p, g.n); }
};

static void dense(int idx, Rng& r) {
	int i = idx % NM, j = (idx / NM) % NN;
	int mr = MR_MIN + MR_FACT * i, nr = NR_MIN + NR_FACT * j;
	int k = idx < 40 * NM * NN ? idx / (NM * NN) : r.pick({r.range(0, 90), r.range(0, 90), r.range(100, 3000), r.range(100, 3000), r.range(3000, 9000)});
	if(idx % 101 == 100) k = r.range(9000, 80000);
	set_case(fmt("#%d kernel %dx%d k=%d", idx, mr, nr, k));
	cake_cntx_t x = *base_cntx();
	x.m_map = x.n_map = 1000;
	update_mr_nr(&x, mr, nr);
	if(x.mr != mr || x.nr != nr || x.m_map != i || x.n_map != j) { viol("tile-selection", fmt("tile %dx%d gives kernel [%d][%d] for [%d][%d]", mr, nr, x.m_map, x.n_map, i, j)); return; }
	Panel A((size_t) mr * k, false), B((size_t) nr * k, true);
	Guard C((size_t) mr * nr, r.chance(50));
	int kind = r.range(0, 2), R = exact_range(k < 1 ? 1 : k);
	if(R > 60) R = 60;
	auto fillp = [&](float* p, size_t n) { if(kind == 0) fill_int(p, n, R, r); else if(kind == 1) fill_unit(p, n, r); else fill_wide(p, n, r); };
	fillp(A.p, (size_t) mr * k); fillp(B.p, (size_t) nr * k);
	std::vector<float> C0((size_t) mr * nr);
	if(kind == 0) fill_int(C0.data(), C0.size(), 1000, r); else fillp(C0.data(), C0.size());
	memcpy(C.p, C0.data(), 4 * C0.size());
	A.g.readonly(true); B.g.readonly(true);
	kernel_map[x.m_map][x.n_map](A.p, B.p, C.p, mr, nr, k);
	double u = 5.9604644775390625e-8, g = (k + 2) * u / (1 - (k + 2) * u);
	for(int m = 0; m < mr; m++) for(int n = 0; n < nr; n++) {
		double s = C0[m * nr + n], ab = fabs(s);
		for(int q = 0; q < k; q++) { double t = (double) A.p[q * mr + m] * B.p[q * nr + n]; s += t; ab += fabs(t); }
		double got = C.p[m * nr + n];
		if(kind == 0 ? got != s : !(fabs(got - s) <= g * ab + 1e-37)) { viol("wrong-tile", fmt("C[%d][%d] = %.9g, expected %.9g", m, n, got, s)); return; }
		count("elements");
	}
	if(!C.canary_ok()) viol("tile-overrun", "wrote outside the tile");
	count("judged");
	cover(fmt("%dx%d/k%d/%d", mr, nr, k < 12 ? k : 12 + k % 8, kind));
	if(idx % 97 == 0) sample(fmt("kernel %dx%d k=%d kind=%d", mr, nr, k, kind));
}

// every element of a cd x k panel from strided memory to p[k*cd + i], and no other access
template <class F> static void pack_kernel(int idx, Rng& r, const char* name, int cd, bool unit_cd, bool unit_k, F f) {
	int k = idx % 50 < 40 ? idx % 40 : r.range(1, 300);
	// along which dimension the source is contiguous, and the stride of the other
	bool along_cd = unit_cd && unit_k ? r.chance(50) : unit_cd;
	int stride = (along_cd ? cd : k < 1 ? 1 : k) + r.range(0, 60);
	int inca = along_cd ? 1 : stride, lda = along_cd ? stride : 1;
	set_case(fmt("#%d %s cd=%d k=%d inca=%d lda=%d", idx, name, cd, k, inca, lda));
	size_t n = k ? (size_t) (cd - 1) * inca + (size_t) (k - 1) * lda + 1 : 0;
	Guard A(n, r.chance(50)), P((size_t) cd * k, r.chance(50));
	for(size_t i = 0; i < n; i++) A.p[i] = (float) (i + 1);
	A.readonly(true);
	f(cd, k, A.p, inca, lda, P.p);
	for(int q = 0; q < k; q++) for(int i = 0; i < cd; i++) {
		float want = A.p[(size_t) i * inca + (size_t) q * lda];
		if(P.p[q * cd + i] != want) { viol("wrong-panel", fmt("%s: panel[%d][%d] = %g, not %g", name, q, i, P.p[q * cd + i], want)); return; }
		count("elements");
	}
	if(!P.canary_ok()) viol("panel-overrun", fmt("%s wrote outside the panel", name));
	count("judged");
	cover(fmt("%s/%d/k%d/%d", name, cd, k < 20 ? k : 20 + k % 8, along_cd));
	if(idx % 97 == 0) sample(cur());
}

// The block routines of packing.h by themselves: a block of a matrix to register-tile panels
// and back, what lies outside the matrix padded with zero or left alone.
static void blocks(int idx, Rng& r) {
	static const char* name[] = {"A_single", "A_multiple", "B_single", "B_parallel", "C_single", "C_multiple", "unpack_single", "unpack_multiple"};
	int w = idx % 8;
	int mr = r.chance(70) ? MR_MIN + MR_FACT * r.range(0, NM - 1) : r.range(1, 20), nr = r.chance(70) ? NR_MIN + NR_FACT * r.range(0, NN - 1) : r.range(1, 40);
	// rows r0.. and columns c0.. of an R x S matrix, in tiles of tr x tc
	bool isA = w < 2, isB = w == 2 || w == 3, isC = w >= 4;
	int tr = isB ? 1 : mr, tc = isA ? 1 : nr;
	int br = isB ? r.range(1, 60) : tr * r.range(1, 6), bc = isA ? r.range(1, 60) : tc * r.range(1, 5);
	bool inside = r.chance(35);   // no padding asked for: the block lies in the matrix
	int r0 = r.range(0, 30), c0 = r.range(0, 30);
	int R = r0 + br, S = c0 + bc;
	if(inside) { R += r.range(0, 20); S += r.range(0, 20); }
	else {
		if(!isB) R -= r.range(0, r.chance(80) ? tr - 1 : br - 1);
		else R += r.range(0, 9);
		if(!isA) S -= r.range(0, r.chance(80) ? tc - 1 : bc - 1);
		else S += r.range(0, 9);
	}
	set_case(fmt("#%d %s matrix %dx%d block %dx%d at %d,%d tile %dx%d", idx, name[w], R, S, br, bc, r0, c0, tr, tc));
	Guard X((size_t) R * S, r.chance(50));
	Panel P((size_t) br * bc, true);
	for(size_t i = 0; i < X.n; i++) X.p[i] = (float) (i + 1);
	for(int i = 0; i < br * bc; i++) P.p[i] = w >= 6 ? -(float) (i + 1) : NAN;
	// the origin of the block is given in two parts
	int ra = r.range(0, r0), rb = r0 - ra;
	bool pr = R < r0 + br, pc = S < c0 + bc;
	float* at = X.p + (size_t) r0 * S + c0;
	if(w < 6) X.readonly(true); else P.g.readonly(true);
	omp_set_num_threads(r.range(1, 4));
	switch(w) {
		case 0: pack_ob_A_single_buf(at, P.p, R, S, ra, rb, br, bc, mr, pr); break;
		case 1: pack_ob_A_multiple_buf(X.p, P.p, R, S, ra, c0, rb, br, bc, mr, pr); break;
		case 2: pack_ob_B_single_buf(at, P.p, R, S, c0, br, bc, nr, pc); break;
		case 3: pack_ob_B_parallel(at, P.p, R, S, c0, br, bc, nr, pc); break;
		case 4: pack_ob_C_single_buf(at, P.p, R, S, ra, c0, rb, br, bc, mr, nr, pr, pc); break;
		case 5: pack_ob_C_multiple_buf(X.p, P.p, R, S, ra, c0, rb, br, bc, mr, nr, pr || pc); break;
		case 6: unpack_ob_C_single_buf(at, P.p, R, S, ra, c0, rb, br, bc, mr, nr); break;
		case 7: unpack_ob_C_multiple_buf(X.p, P.p, R, S, ra, c0, rb, br, bc, mr, nr); break;
	}
	// where (i, j) of the block is among the panels
	auto place = [&](int i, int j) -> size_t {
		if(isA) return (size_t) (i / mr * mr) * bc + j * mr + i % mr;
		if(isB) return (size_t) (j / nr * nr) * br + i * nr + j % nr;
		return (size_t) (j / nr * nr) * br + (size_t) (i / mr * mr) * nr + i % mr * nr + j % nr;
	};
	if(w < 6) {
		for(int i = 0; i < br; i++) for(int j = 0; j < bc; j++) {
			float want = r0 + i < R && c0 + j < S ? X.p[(size_t) (r0 + i) * S + c0 + j] : 0, got = P.p[place(i, j)];
			if(!(got == want)) { viol("wrong-block", fmt("%s: element %d,%d of the block is %g, not %g", name[w], i, j, got, want)); return; }
			count("block_elements");
		}
	} else for(int i = 0; i < R; i++) for(int j = 0; j < S; j++) {
		bool in = i >= r0 && i < r0 + br && j >= c0 && j < c0 + bc;
		float want = in ? P.p[place(i - r0, j - c0)] : (float) ((size_t) i * S + j + 1), got = X.p[(size_t) i * S + j];
		if(!(got == want)) { viol("wrong-block", fmt("%s: element %d,%d of the matrix is %g, not %g", name[w], i, j, got, want)); return; }
		count("block_elements");
	}
	for(size_t i = (size_t) br * bc; i < P.g.n; i++) if(!std::isnan(P.p[i])) { viol("block-overrun", fmt("%s wrote past the packed block", name[w])); return; }
	if(!P.g.canary_ok() || !X.canary_ok()) viol("block-overrun", fmt("%s wrote outside", name[w]));
	(void) isC;
	count("judged");
	cover(fmt("%s/%d/%d/%d%d/%d,%d", name[w], tr, tc, pr, pc, br / tr, bc / tc));
	if(idx % 397 == 0) sample(cur());
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	std::string mode = "dense";
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--mode")) mode = argv[i + 1];
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		if(mode == "dense") dense(idx, r);
		else if(mode == "blocks") blocks(idx, r);
		else if(mode == "pack") {
			// A panels gather rows (unit along k), B panels copy rows (unit along the panel)
			if(idx % 2) pack_kernel(idx / 2, r, "pack_A", MR_MIN + MR_FACT * r.range(0, NM - 1), false, true,
				[](int cd, int k, float* a, int inca, int, float* p) { pack_A_mr_x_kc(a, p, inca, k, cd); });
			else pack_kernel(idx / 2, r, "pack_B", NR_MIN + NR_FACT * r.range(0, NN - 1), true, false,
				[](int cd, int k, float* a, int, int lda, float* p) { pack_B_nr_x_kc(a, p, lda, k, cd); });
		}
#ifdef USE_CAKE_HASWELL
		else {
			float one = 1;
			if(idx % 2) pack_kernel(idx / 2, r, "blis_6xk", 6, true, true, [&](int cd, int k, float* a, int inca, int lda, float* p) { bli_spackm_haswell_asm_6xk_new(cd, k, &one, a, inca, lda, p, cd); });
			else pack_kernel(idx / 2, r, "blis_16xk", 16, true, true, [&](int cd, int k, float* a, int inca, int lda, float* p) { bli_spackm_haswell_asm_16xk_new(cd, k, &one, a, inca, lda, p, cd); });
		}
#else
		else {
			float one = 1;
			if(idx % 2) pack_kernel(idx / 2, r, "blis_8xk", 8, true, true, [&](int cd, int k, float* a, int inca, int lda, float* p) { bli_spackm_armv8a_int_8xk(cd, k, &one, a, inca, lda, p, cd); });
			else pack_kernel(idx / 2, r, "blis_12xk", 12, true, true, [&](int cd, int k, float* a, int inca, int lda, float* p) { bli_spackm_armv8a_int_12xk(cd, k, &one, a, inca, lda, p, cd); });
		}
#endif
	});
}
