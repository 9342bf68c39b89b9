// What calls leave behind, and how much they use.
//   --mode leak       repeated calls: heap blocks, descriptors, children and threads settle
//   --mode workspace  peak heap use: the in-place entries do not grow with the matrices,
//                     cake_sgemm stays within one padded copy of each operand
#include "gemm.h"
#include "alloc_mon.h"
using namespace vh;

static int count_dir(const char* d) {
	DIR* p = opendir(d);
	int n = 0;
	if(!p) return -1;
	while(readdir(p)) n++;
	closedir(p);
	return n;
}

static const char* opname[] = {"call", "test-entry", "pack", "null-context", "query", "query-torch", "transpose", "checkers", "helpers", "plan"};
enum { CALL, TEST, PACK, NULLCTX, QUERY, TORCH, TRANS, CHECK, HELP, PLAN, NOPS };

static bool only_queries = false;
static void leak(int argc, char** argv) {
	run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		int op = idx % 16 < 8 ? (int) CALL : idx % 16 < 10 ? (int) PACK : idx % 16 == 10 ? (int) TEST : idx % 16 == 11 ? (int) TRANS : idx % 16 == 12 ? (int) CHECK :
			idx % 16 == 13 ? (int) HELP : idx % 16 == 14 ? (int) PLAN : (int) (idx % 48 == 15 ? NULLCTX : idx % 48 == 31 ? QUERY : TORCH);
		if(only_queries) op = idx % 3 == 0 ? (int) NULLCTX : idx % 3 == 1 ? (int) QUERY : (int) TORCH;
		Case c = rnd_case(r, 120);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) r.range(0, 3);
		if(c.p > 8) c.p = 8;
		if(r.chance(30) && op == CALL) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(30) && c.e != SMALL2D) { c.mcu = c.mr * r.range(1, 5); c.ncu = c.nr * r.range(1, 4); c.kcu = r.range(1, 60); }
		if(r.chance(40)) { c.alpha = r.pick({1.f, 2.f, 0.f}); c.beta = r.pick({0.f, 1.f, -1.f}); }
		if(!r.chance(25)) snap_dims(c, r, 120);
		if(idx % 27 == 26) stretch_dims(c, r);
		set_case(fmt("#%d %s ", idx, opname[op]) + c.str());
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		std::vector<float> A(na), B(nb), C(nc), T(nb);
		fill_int(A.data(), na, 4, r); fill_int(B.data(), nb, 4, r); fill_int(C.data(), nc, 4, r);
		cake_cntx_t x = make_cntx(c);
		blk_dims_t b; memset(&b, 0, sizeof b);
		float *Ap = NULL, *Bp = NULL;
		bool nullpack = op == NULLCTX && idx % 96 >= 48;    // the library's own context for operands packed before
		if(only_queries && op == NULLCTX) nullpack = idx % 2;
		if(nullpack) {
			cake_cntx_t* own = cake_query_cntx();
			x = *own;
			free(own);
			c.e = SGEMM; c.p = 2;
			if(c.mcu) { c.mcu = x.mr * r.range(1, 5); c.ncu = x.nr * r.range(1, 4); }
		}
		if(op == PACK || nullpack) {
			c.e = SGEMM;
			init_block_dims(c.M, c.N, c.K, c.p, &b, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
			if(posix_memalign((void**) &Ap, 64, cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, &x, b.sch)) ||
				posix_memalign((void**) &Bp, 64, cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, &x))) _exit(3);
		}
		auto once = [&]() {
			switch(op) {
			case CALL: call(c, A.data(), B.data(), C.data(), &x); break;
			case TEST: cake_sgemm_test(A.data(), B.data(), C.data(), c.M, c.N, c.K, c.p, &x, NULL, 0, 0, c.alpha, c.beta); break;
			case PACK: {
				omp_set_num_threads(c.p);
				pack_A(A.data(), Ap, c.M, c.K, c.p, &b, &x, b.sch);
				pack_B(B.data(), Bp, c.K, c.N, c.p, &b, &x, b.sch);
				bool pa = idx / 16 & 1, pb = idx / 16 & 2;
				call(c, pa ? Ap : A.data(), pb ? Bp : B.data(), C.data(), &x, pa, pb);
				break;
			}
			case NULLCTX: {
				Case d = c; d.p = 2;
				int w = nullpack ? idx / 96 % 3 : 3;
				bool pa = w == 0 || w == 2, pb = w == 1 || w == 2;
				if(pa) { omp_set_num_threads(2); pack_A(A.data(), Ap, c.M, c.K, 2, &b, &x, b.sch); }
				if(pb) { omp_set_num_threads(2); pack_B(B.data(), Bp, c.K, c.N, 2, &b, &x, b.sch); }
				call(d, pa ? Ap : A.data(), pb ? Bp : B.data(), C.data(), NULL, pa, pb);
				break;
			}
			case QUERY: free(cake_query_cntx()); break;
			case TORCH: free(cake_query_cntx_torch(c.L2, c.L3)); break;
			case TRANS: omp_set_num_threads(c.p); transpose_mat(B.data(), T.data(), c.K, c.N, 24, 24); break;
			case CHECK: cake_sgemm_checker(A.data(), B.data(), C.data(), c.N, c.M, c.K); mat_equals(A.data(), A.data(), c.M, c.K); break;
			case HELP: rand_init(T.data(), c.K, c.N); lcm(c.M, c.N); grid_dims_2d(c.M, c.N, c.K, c.p, c.ncores); break;
			case PLAN: {
				blk_dims_t q; memset(&q, 0, sizeof q);
				init_block_dims(c.M, c.N, c.K, c.p, &q, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
				init_block_dims_2d(c.M, c.N, c.K, c.p, &q, &x, KMN, NULL, 4, c.mcu, c.kcu, c.ncu);
				init_block_dims_2d_small(c.M, c.N, c.K, c.p, &q, &x, KMN, NULL);
				free(get_cache_dims(c.M, c.N, c.K, c.p, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu));
				break;
			}
			}
		};
		const int R = 6;
		alloc_stat_t s[R];
		int fds[R], thr[R];
		for(int k = 0; k < R; k++) {
			once();
			alloc_mon_read(&s[k]);
			fds[k] = count_dir("/proc/self/fd");
			thr[k] = count_dir("/proc/self/task");
			count("repetitions");
		}
		// a leak of a block per call shows in each later repetition; what is kept once
		// (the runtime's threads, stdio buffers) does not
		bool grow = true, growb = true, growf = true, growt = true;
		for(int k = 2; k < R; k++) {
			if(s[k].live_blocks <= s[k - 1].live_blocks) grow = false;
			if(s[k].live_bytes <= s[k - 1].live_bytes) growb = false;
			if(fds[k] <= fds[k - 1]) growf = false;
			if(thr[k] <= thr[k - 1]) growt = false;
		}
		if(!grow && s[R - 1].live_blocks > s[1].live_blocks) {   // now and then?
			alloc_stat_t m, e;
			for(int k = 0; k < 12; k++) once();
			alloc_mon_read(&m);
			for(int k = 0; k < 12; k++) once();
			alloc_mon_read(&e);
			count("repetitions", 24);
			if(m.live_blocks >= s[R - 1].live_blocks + 2 && e.live_blocks >= m.live_blocks + 2) grow = true;
		}
		if(grow || growb) viol("heap-grows", fmt("%s: %ld bytes in %ld blocks after the 2nd repetition, %ld in %ld after the %dth", opname[op], s[1].live_bytes, s[1].live_blocks, s[R - 1].live_bytes, s[R - 1].live_blocks, R));
		if(growf || fds[R - 1] > fds[0] + 1) viol("descriptors-grow", fmt("%s: %d descriptors, later %d", opname[op], fds[0], fds[R - 1]));
		if(growt) viol("threads-grow", fmt("%s: %d threads, later %d", opname[op], thr[1], thr[R - 1]));
		if(s[R - 1].bad_frees) viol("bad-free", fmt("%s: %ld frees of what is not allocated", opname[op], s[R - 1].bad_frees));
		int stat_;
		pid_t pid = waitpid(-1, &stat_, WNOHANG);
		if(pid != -1 || errno != ECHILD) viol("child-left", fmt("%s left a child process", opname[op]));
		if(Ap) free(Ap);
		if(Bp) free(Bp);
		count("judged");
		cover(fmt("%s/b%d/", opname[op], c.beta != 0) + (op >= NULLCTX && op != PLAN ? std::string(entry_name[c.e]) : shape_class(c)));
		if(idx % 40 < 2) sample(fmt("%s live=%ld blocks=%ld fds=%d threads=%d ", opname[op], s[R - 1].live_bytes, s[R - 1].live_blocks, fds[R - 1], thr[R - 1]) + c.str());
	});
}

static long peak_of(const Case& c, float* A, float* B, float* C, bool pa, bool pb) {
	cake_cntx_t x = make_cntx(c);
	call(c, A, B, C, &x, pa, pb);       // the runtime's own threads first
	alloc_stat_t s0, s1;
	alloc_mon_read(&s0);
	alloc_mon_reset_peak();
	call(c, A, B, C, &x, pa, pb);
	alloc_mon_read(&s1);
	return s1.peak_bytes - s0.live_bytes;
}

static void workspace(int argc, char** argv) {
	const long SLACK = 16 << 10;
	run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, 200);
		c.sch = (enum sched) ((idx / 4) % 4);
		if(r.chance(30)) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(c.p > 6) c.p = 6;
		c.L2 = r.pick({8 << 10, 12 << 10, 16 << 10, 24 << 10}); c.L1 = r.pick({4 << 10, 8 << 10});
		c.L3 = c.L2 * r.pick({2, 8, 16});
		if(idx % 3 == 0) {
			// cake_sgemm: the copies it announces
			c.e = SGEMM;
			if(r.chance(30)) { c.mcu = c.mr * r.range(1, 5); c.ncu = c.nr * r.range(1, 4); c.kcu = r.range(1, 60); }
			if(!r.chance(25)) snap_dims(c, r, 300);
			set_case(fmt("#%d ", idx) + c.str());
			cake_cntx_t x = make_cntx(c);
			blk_dims_t b; memset(&b, 0, sizeof b);
			init_block_dims(c.M, c.N, c.K, c.p, &b, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
			// operands padded to whole register tiles, as they would be packed
			size_t sa = cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, &x, b.sch), sb = cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, &x), sc = cake_sgemm_packed_C_size(c.M, c.N, c.p, &b, &x, b.sch);
			size_t ra = (size_t) (c.M + c.mr * c.p) * c.K * 4, rb = (size_t) c.K * (c.N + c.nr) * 4, rc = (size_t) (c.M + c.mr * c.p) * (c.N + c.nr) * 4;
			if(sa > ra || sb > rb || sc > rc) viol("packed-size", fmt("announced %zu %zu %zu, padded operands %zu %zu %zu", sa, sb, sc, ra, rb, rc));
			if(sa < (size_t) c.M * c.K * 4 || sb < (size_t) c.K * c.N * 4 || sc < (size_t) c.M * c.N * 4) viol("packed-size", fmt("announced %zu %zu %zu, less than the operands", sa, sb, sc));
			{   // the announced sizes of far larger operands
				Case h = c;
				h.M = r.range(1, 300000); h.N = r.range(1, 2.0e9 / h.M > 300000 ? 300000 : (int) (2.0e9 / h.M)); h.K = r.range(1, 300000);
				h.mcu = h.mr * r.range(1, 40); h.ncu = h.nr * r.range(1, 40); h.kcu = r.range(1, 500);
				while((double) (h.M + h.mr * h.p) * h.K > 2.1e9 || (double) (h.N + h.nr) * h.K > 2.1e9) h.K = (h.K + 1) / 2;
				if((double) (h.M + h.mr * h.p) * (h.N + h.nr) < 2.1e9) {
					blk_dims_t q; memset(&q, 0, sizeof q);
					init_block_dims(h.M, h.N, h.K, h.p, &q, &x, h.sch, NULL, 4, h.mcu, h.kcu, h.ncu);
					size_t la = cake_sgemm_packed_A_size(h.M, h.K, h.p, &q, &x, q.sch), lb = cake_sgemm_packed_B_size(h.K, h.N, h.p, &q, &x), lc = cake_sgemm_packed_C_size(h.M, h.N, h.p, &q, &x, q.sch);
					size_t M = h.M, N = h.N, K = h.K, mp = M + h.mr * h.p, np = N + h.nr;
					if(la < M * K * 4 || lb < K * N * 4 || lc < M * N * 4 || la > mp * K * 4 || lb > K * np * 4 || lc > mp * np * 4)
						viol("packed-size", fmt("announced %zu %zu %zu for %s", la, lb, lc, h.str().c_str()));
					count("large_sizes");
				}
			}
			std::vector<float> C((size_t) c.M * c.N);
			float *A, *B;   // as large as packed ones; contents do not matter here
			if(posix_memalign((void**) &A, 64, ra) || posix_memalign((void**) &B, 64, rb)) _exit(3);
			memset(A, 0, ra); memset(B, 0, rb);
			size_t blocks = (size_t) c.p * b.m_c * b.n_c * 4;
			long bound_c = (long) (b.sch == KMN ? blocks : rc);
			long pk[4];
			for(int k = 0; k < 4; k++) {
				pk[k] = peak_of(c, A, B, C.data(), k & 1, k & 2);
				long bound = (k & 1 ? 0 : (long) ra) + (k & 2 ? 0 : (long) rb) + bound_c + SLACK;
				if(pk[k] > bound) { viol("workspace", fmt("packedA=%d packedB=%d used %ld bytes, more than %ld", k & 1, k >> 1, pk[k], bound)); break; }
				count("measured");
			}
			free(A); free(B);
			count("judged");
			cover(shape_class(c));
			if(idx % 60 < 3) sample(fmt("peaks %ld %ld %ld %ld ", pk[0], pk[1], pk[2], pk[3]) + c.str());
			return;
		}
		c.e = idx % 3 == 1 ? ONLINE : GRID2D;
		c.sch = KMN;
		// matrices that fill the caches' blocks several times over, and larger ones
		blk_dims_t b;
		c.M = c.N = c.K = 4000;
		plan(c, &b);
		int um = (b.pm > 0 ? b.pm : 1) * b.m_c, un = (b.pn > 0 ? b.pn : 1) * b.n_c, uk = b.k_c;
		int f = r.range(2, 3);
		c.M = um * f + r.range(0, um); c.N = un * f + r.range(0, un); c.K = uk * f + r.range(0, uk);
		if(c.e == GRID2D) c.M = c.N = (c.M > c.N ? c.M : c.N);     // the same grid for both
		Case d = c;
		int g = r.range(2, 4);
		if(c.e == GRID2D) d.M = d.N = c.M * g; else { d.M = c.M * r.range(1, g); d.N = c.N * r.range(1, g); }
		d.K = c.K * r.range(1, g);
		if((double) d.M * d.N > 6e6 || (double) d.M * d.K > 6e6 || (double) d.N * d.K > 6e6 || (double) d.M * d.N * d.K > 8e8) { count("skipped_large"); return; }
		set_case(fmt("#%d ", idx) + d.str());
		std::vector<float> A((size_t) d.M * d.K), B((size_t) d.K * d.N), C((size_t) d.M * d.N);
		long p1 = peak_of(c, A.data(), B.data(), C.data(), 0, 0), p2 = peak_of(d, A.data(), B.data(), C.data(), 0, 0);
		count("measured", 2);
		if(p2 > p1 + p1 / 20 + SLACK) viol("workspace-grows", fmt("%dx%dx%d used %ld bytes, %dx%dx%d %ld", c.M, c.N, c.K, p1, d.M, d.N, d.K, p2));
		count("judged");
		cover(shape_class(d));
		if(idx % 60 < 3) sample(fmt("small %ld large %ld ", p1, p2) + d.str());
	});
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	bool l = true;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--mode")) { l = strcmp(argv[i + 1], "workspace"); only_queries = !strcmp(argv[i + 1], "query"); }
	base_cntx();
	if(l) leak(argc, argv); else workspace(argc, argv);
	return 0;
}
