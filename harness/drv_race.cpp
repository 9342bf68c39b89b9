// Every entry point, schedule and parallel helper over the OpenMP stand-in.
//   --mode race   teams of real threads, for the race detector (and products judged)
//   --mode order  one thread at a time, in random and reversed orders and team sizes,
//                 against the ascending order: the same bits
#include "gemm.h"
#include "gomp_shim.h"
using namespace vh;

static void helpers(int idx, Rng& r) {
	// parallel helpers outside the entry points
	int K = r.range(1, 70), N = r.range(1, 70);
	omp_set_num_threads(r.range(1, 6));
	std::vector<float> A(K * N), T(K * N), T2(K * N);
	fill_unit(A.data(), A.size(), r);
	int kt = r.range(1, 40), nt = r.range(1, 40);
	set_case(fmt("#%d transpose_mat K=%d N=%d Kt=%d Nt=%d", idx, K, N, kt, nt));
	transpose_mat(A.data(), T.data(), K, N, kt, nt);
	for(int k = 0; k < K; k++) for(int n = 0; n < N; n++)
		if(T[n * K + k] != A[k * N + n]) { viol("wrong-transpose", fmt("At[%d][%d]", n, k)); k = K; break; }
	cover(fmt("transpose/%d%d/%d%d", K % 8 ? 1 : 0, N % 8 ? 1 : 0, kt < K, nt < N));
	int M = r.range(1, 20);
	std::vector<float> B(N * M), C(K * M);
	fill_int(A.data(), A.size(), 3, r); fill_int(B.data(), B.size(), 3, r);
	std::vector<double> ref(K * M);
	ref_mul(A.data(), B.data(), ref.data(), K, M, N);
	for(int i = 0; i < K * M; i++) C[i] = (float) ref[i];
	set_case(fmt("#%d checker M=%d N=%d K=%d", idx, K, M, N));
	if(cake_sgemm_checker(A.data(), B.data(), C.data(), M, K, N)) viol("checker-rejects", "a right product");
	cover("checker");
}

static void pack_helpers(Case c, int idx, Rng& r) {
	// the parallel packing routines by themselves
	blk_dims_t b;
	memset(&b, 0, sizeof b);
	cake_cntx_t x = make_cntx(c);
	init_block_dims(c.M, c.N, c.K, c.p, &b, &x, c.sch, NULL, 4);
	omp_set_num_threads(c.p);
	size_t sa = cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, &x, b.sch), sb = cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, &x),
		sc = cake_sgemm_packed_C_size(c.M, c.N, c.p, &b, &x, b.sch);
	float *A = (float*) malloc((size_t) c.M * c.K * 4), *B = (float*) malloc((size_t) c.K * c.N * 4), *C = (float*) malloc((size_t) c.M * c.N * 4),
		*C2 = (float*) malloc((size_t) c.M * c.N * 4);
	float *Ap, *Bp, *Cp;
	if(posix_memalign((void**) &Ap, 64, sa) || posix_memalign((void**) &Bp, 64, sb) || posix_memalign((void**) &Cp, 64, sc)) _exit(3);
	fill_unit(A, (size_t) c.M * c.K, r); fill_unit(B, (size_t) c.K * c.N, r); fill_unit(C, (size_t) c.M * c.N, r);
	pack_A(A, Ap, c.M, c.K, c.p, &b, &x, b.sch);
	pack_B(B, Bp, c.K, c.N, c.p, &b, &x, b.sch);
	memset(C2, 0, (size_t) c.M * c.N * 4);
	pack_C(C, Cp, c.M, c.N, c.p, &b, &x, b.sch);
	unpack_C(C2, Cp, c.M, c.N, c.p, &b, &x, b.sch);
	if(memcmp(C, C2, (size_t) c.M * c.N * 4)) viol("pack-C-roundtrip", "unpack_C(pack_C(C)) differs from C");
	free(A); free(B); free(C); free(C2); free(Ap); free(Bp); free(Cp);
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	bool race = true;
	int maxd = 150;
	for(int i = 1; i + 1 < argc; i += 2) {
		if(!strcmp(argv[i], "--mode")) race = !strcmp(argv[i + 1], "race");
		if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
		if(!strcmp(argv[i], "--seed")) shim_cfg.seed = strtoull(argv[i + 1], 0, 10) + 77;
	}
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		if(idx % 23 == 22) {
			shim_cfg.mode = SHIM_THREADS; shim_cfg.delay = 0; shim_cfg.max_team = 0; shim_cfg.random_team = 0;
			helpers(idx, r);
			count("judged");
			return;
		}
		Case c = rnd_case(r, maxd);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		c.p = r.range(2, 6);
		c.L2 = r.pick({8 << 10, 8 << 10, 16 << 10});    // several blocks
		c.L1 = r.pick({4 << 10, 8 << 10});
		c.L3 = c.L2 * r.pick({1, 8, 32});
		if(r.chance(30)) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(30) && c.e != SMALL2D) { c.mcu = c.mr * r.range(1, 4); c.ncu = c.nr * r.range(1, 3); c.kcu = r.range(1, 40); }
		if(r.chance(20)) { c.alpha = r.pick({-1, 2}); c.beta = r.pick({0, 1, -2}); }
		if(!r.chance(25)) snap_dims(c, r, maxd);
		set_case(fmt("#%d ", idx) + c.str());
		if(race && idx % 7 == 6 && c.e == SGEMM) {
			shim_cfg.mode = SHIM_THREADS; shim_cfg.max_team = 0; shim_cfg.random_team = 0; shim_cfg.delay = r.pick({0, 20});
			c.mcu = c.kcu = c.ncu = 0;
			pack_helpers(c, idx, r);
			cover("pack/" + shape_class(c));
			count("judged");
			return;
		}
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		std::vector<float> A(na), B(nb), C0(nc), C(nc), C1;
		bool ints = race || r.chance(30);
		if(ints) { int R = exact_range(c.K); R = R > 20 ? 20 : R; fill_int(A.data(), na, R, r); fill_int(B.data(), nb, R, r); fill_int(C0.data(), nc, 20, r); }
		else { fill_unit(A.data(), na, r); fill_unit(B.data(), nb, r); fill_unit(C0.data(), nc, r); }
		if(race) {
			shim_cfg.mode = SHIM_THREADS; shim_cfg.max_team = r.chance(20) ? r.range(2, 3) : 0; shim_cfg.random_team = 0;
			shim_cfg.delay = r.chance(50) ? 0 : r.pick({5, 50});
			C = C0;
			cake_cntx_t x = make_cntx(c);
			call(c, A.data(), B.data(), C.data(), &x);
			std::vector<double> ref(nc);
			ref_mul(A.data(), B.data(), ref.data(), c.M, c.N, c.K);
			for(size_t i = 0; i < nc; i++) {
				double want = c.alpha * ref[i] + (c.beta != 0 ? c.beta * C0[i] : 0);
				if((double) C[i] != want) { viol("wrong-product", fmt("C[%zu] = %g, expected %g", i, C[i], want)); break; }
			}
			count("judged");
			cover(shape_class(c));
		} else {
			const int NV = 6;
			for(int v = 0; v < NV; v++) {
				shim_cfg.delay = 0; shim_cfg.max_team = 0; shim_cfg.random_team = 0;
				shim_cfg.mode = SHIM_SERIAL; shim_cfg.order = v == 0 ? 0 : v == 1 ? 1 : 2;
				if(v == 3) shim_cfg.max_team = r.range(1, c.p);
				if(v == 4) shim_cfg.random_team = 1;
				if(v == 5) { shim_cfg.mode = SHIM_THREADS; shim_cfg.delay = r.pick({0, 10, 60}); }
				C = C0;
				cake_cntx_t x = make_cntx(c);
				call(c, A.data(), B.data(), C.data(), &x);
				if(v == 0) C1 = C;
				else if(memcmp(C.data(), C1.data(), nc * 4)) {
					size_t i = 0;
					while(!memcmp(&C[i], &C1[i], 4)) i++;
					viol("order-dependent", fmt("variant %d: C[%zu] = %.9g, in ascending order %.9g", v, i, C[i], C1[i]));
					break;
				}
				count("executions");
			}
			count("judged");
			cover(shape_class(c));
		}
		if(idx % 60 < 2) sample(c.str());
		if(idx % 20 == 0) { counters()["regions"] = shim_stat.regions; counters()["team_members"] = shim_stat.members; }
	});
}
