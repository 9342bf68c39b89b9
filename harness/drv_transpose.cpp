// transpose_mat and its two kernels: every shape and tile size, every element once, nothing
// else touched; with -DWITH_SHIM the accesses of its parallel loop are ordered by
// ThreadSanitizer through the OpenMP stand-in.
#include "gemm.h"
#include <omp.h>
#ifdef WITH_SHIM
#include "gomp_shim.h"
#endif
using namespace vh;

// not declared in any header: judged when it is there
void transpose(float* At, float* A, int M, int K) __attribute__((weak));

static void judge(const float* A, const float* T, int K, int N, int lda, int ldb, const char* what) {
	for(int n = 0; n < N; n++) for(int k = 0; k < K; k++)
		if(memcmp(&T[(size_t) n * ldb + k], &A[(size_t) k * lda + n], 4)) {
			viol("wrong-transpose", fmt("%s: T[%d][%d] is not A[%d][%d]", what, n, k, k, n));
			return;
		}
	count("elements", (double) N * K);
}

static void whole(int idx, Rng& r) {
	int K = r.pick({r.range(1, 20), r.range(1, 70), 8 * r.range(1, 20), r.range(1, 300)});
	int N = r.pick({r.range(1, 20), r.range(1, 70), 8 * r.range(1, 20), r.range(1, 300)});
	if(r.chance(8)) K = r.range(1000, 5000), N = r.range(1, 30);
	else if(r.chance(8)) N = r.range(1000, 5000), K = r.range(1, 30);
	auto tile = [&](int d) { return r.pick({r.range(1, 8), 8, 16, r.range(1, 64), d, d + 8, 8 * r.range(1, 40), r.range(1, 400)}); };
	int Kt = tile(K), Nt = tile(N), nt = r.pick({1, 2, 3, 4, 8});
	set_case(fmt("#%d transpose_mat K=%d N=%d Kt=%d Nt=%d threads=%d", idx, K, N, Kt, Nt, nt));
	Guard A((size_t) K * N, r.chance(50)), T((size_t) K * N, r.chance(50));
	for(size_t i = 0; i < A.n; i++) A.p[i] = (float) (i + 1);
	fill_nan(T.p, T.n);
	A.readonly(true);
	omp_set_num_threads(nt);
#ifdef WITH_SHIM
	shim_cfg.mode = SHIM_THREADS; shim_cfg.delay = r.pick({0, 20}); shim_cfg.seed = idx;
#endif
	transpose_mat(A.p, T.p, K, N, Kt, Nt);
	omp_set_num_threads(1);
	judge(A.p, T.p, K, N, N, K, "transpose_mat");
	if(!T.canary_ok()) viol("transpose-overrun", "wrote outside the result");
	count("judged");
	auto c = [](int d) { return d < 8 ? 0 : d % 8 ? 1 : 2; };
	cover(fmt("mat/K%d/N%d/Kt%d/Nt%d/b%d%d/%d", c(K), c(N), c(Kt), c(Nt), K > Kt, N > Nt, nt));
	if(idx % 97 == 0) sample(cur());
}

static void kernel(int idx, Rng& r) {
	bool full = r.chance(50);
	int m = full ? 8 : r.range(0, 12), n = full ? 8 : r.range(0, 12);   // m columns, n rows of the source
	int lda = (m < 1 ? 1 : m) + r.range(0, 40), ldb = (n < 1 ? 1 : n) + r.range(0, 40);
	set_case(fmt("#%d %s m=%d n=%d lda=%d ldb=%d", idx, full ? "transpose_8x8" : "transpose_mxn", m, n, lda, ldb));
	Guard A(n && m ? (size_t) (n - 1) * lda + m : 0, r.chance(50)), T(n && m ? (size_t) (m - 1) * ldb + n : 0, r.chance(50));
	for(size_t i = 0; i < A.n; i++) A.p[i] = (float) (i + 1);
	fill_nan(T.p, T.n);
	std::vector<float> before(T.p, T.p + T.n);
	A.readonly(true);
	if(full) transpose_8x8(A.p, T.p, lda, ldb); else transpose_mxn(A.p, T.p, lda, ldb, m, n);
	judge(A.p, T.p, n, m, lda, ldb, "kernel");
	for(size_t i = 0; i < T.n; i++)
		if((int) (i % ldb) >= n && memcmp(&T.p[i], &before[i], 4)) { viol("transpose-gap", fmt("wrote element %zu, between two rows of the result", i)); break; }
	if(!T.canary_ok()) viol("transpose-overrun", "wrote outside the result");
	count("judged");
	cover(fmt("kernel/%d/%d/%d/%d", full, m, n, lda == m || ldb == n));
}

static void plain(int idx, Rng& r) {
	int M = r.range(1, 90), K = r.range(1, 90);
	set_case(fmt("#%d transpose M=%d K=%d", idx, M, K));
	Guard A((size_t) M * K), T((size_t) M * K);
	for(size_t i = 0; i < A.n; i++) A.p[i] = (float) (i + 1);
	A.readonly(true);
	transpose(T.p, A.p, M, K);
	judge(A.p, T.p, M, K, K, M, "transpose");
	if(!T.canary_ok()) viol("transpose-overrun", "wrote outside the result");
	count("judged");
	cover(fmt("plain/%d/%d", M % 8, K % 8));
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		int w = r.range(0, 9);
		if(w < 6) whole(idx, r);
		else if(w < 9 || !transpose) kernel(idx, r);
		else plain(idx, r);
	});
}
