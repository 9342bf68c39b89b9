// What a product call (alpha 1, beta 0) moves, counted at every access of the library.
//   --mode traffic  how often each element of A and B is read and each of C written
//   --mode share    how packing, multiplication and unpacking divide over the threads
#include "gemm.h"
#include "trace.h"
#include <sys/file.h>
#include <fcntl.h>
using namespace vh;

static void watch(int i, float* p, size_t n) {
	trace_range_t& t = trace_range[i];
	free(t.rd); free(t.wr);
	t.lo = (uintptr_t) p; t.hi = (uintptr_t) (p + n);
	t.rd = (uint16_t*) calloc(n + 1, 2); t.wr = (uint16_t*) calloc(n + 1, 2);
}

// How often the snake over (n, m, k) comes to a block of A and of B without being on it
// already: the order of m turns with n, that of k with each step of m.
struct Snake { std::vector<int> a, b; };
static Snake snake(int Mb, int Nb, int Kb) {
	Snake s;
	s.a.assign((size_t) Mb * Kb, 0); s.b.assign((size_t) Nb * Kb, 0);
	int pm = -1, pn = -1, pk = -1;
	for(int n = 0; n < Nb; n++) for(int mi = 0; mi < Mb; mi++) {
		int m = n % 2 ? Mb - 1 - mi : mi;
		bool down = (n + m) % 2;
		for(int ki = 0; ki < Kb; ki++) {
			int k = down ? Kb - 1 - ki : ki;
			if(m != pm || k != pk) s.a[(size_t) m * Kb + k]++;
			if(n != pn || k != pk) s.b[(size_t) n * Kb + k]++;
			pm = m; pn = n; pk = k;
		}
	}
	return s;
}

static double share(int w) {
	uint64_t tot = 0, mx = 0;
	for(int t = 0; t < TRACE_THREADS; t++) { tot += trace_share[w][t]; mx = std::max(mx, trace_share[w][t]); }
	return tot ? (double) mx / tot : 0;
}

static bool mirror;
static void traced(const Case& c, float* A, float* B, float* C) {
	cake_cntx_t x = make_cntx(c);
	trace_reset();
	trace_on = 1;
	if(mirror) cake_sgemm_test(A, B, C, c.M, c.N, c.K, c.p, &x, NULL, 0, 0, 1, 0);
	else call(c, A, B, C, &x);
	trace_on = 0;
}

static void traffic(int argc, char** argv) {
	run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, 260);
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		mirror = idx % 64 == 32;
		if(mirror) { c.sch = KMN; }
		if(c.p > 8) c.p = 8;
		if(r.chance(60)) { c.L2 = r.pick({8 << 10, 16 << 10, 32 << 10}); c.L1 = r.pick({4 << 10, 8 << 10}); c.L3 = c.L2 * r.pick({1, 8, 32}); }
		if(r.chance(25) && !mirror) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(25) && c.e != SMALL2D && !mirror) { c.mcu = c.mr * r.range(1, 4); c.ncu = c.nr * r.range(1, 3); c.kcu = r.range(1, 40); }
		if(!r.chance(25)) snap_dims(c, r, 260);
		set_case(fmt("#%d %s", idx, mirror ? "test " : "") + c.str());
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		std::vector<float> A(na), B(nb), C(nc);
		int R = exact_range(c.K); R = R > 20 ? 20 : R;
		fill_int(A.data(), na, R, r); fill_int(B.data(), nb, R, r); fill_nan(C.data(), nc);
		watch(0, A.data(), na); watch(1, B.data(), nb); watch(2, C.data(), nc);
		blk_dims_t b;
		plan(c, &b);
		traced(c, A.data(), B.data(), C.data());
		std::vector<double> ref(nc);
		ref_mul(A.data(), B.data(), ref.data(), c.M, c.N, c.K);
		for(size_t i = 0; i < nc; i++) if((double) C[i] != ref[i]) { viol("wrong-product", fmt("C[%zu] = %g, expected %g", i, C[i], ref[i])); break; }
		const uint16_t *ra = trace_range[0].rd, *rb = trace_range[1].rd, *rc = trace_range[2].rd, *wc = trace_range[2].wr;
		bool walk = c.e == ONLINE || c.e == GRID2D;
		Snake s;
		int um = 1, un = 1, uk = 1;
		if(walk) {
			s = snake(b.Mb, b.Nb, b.Kb);
			um = c.e == ONLINE ? c.p * b.m_c : b.pm * b.m_c; un = c.e == ONLINE ? b.n_c : b.pn * b.n_c; uk = b.k_c;
		}
		for(size_t i = 0; i < na; i++) {
			int lim = walk ? s.a[(size_t) std::min((int) (i / c.K) / um, b.Mb - 1) * b.Kb + std::min((int) (i % c.K) / uk, b.Kb - 1)] : 1;
			if(ra[i] > lim) { viol("A-read-again", fmt("A[%zu][%zu] is read %d times, the schedule comes to it %d times", i / c.K, i % c.K, ra[i], lim)); break; }
			count("reads", ra[i]);
		}
		for(size_t i = 0; i < nb; i++) {
			int lim = walk ? s.b[(size_t) std::min((int) (i % c.N) / un, b.Nb - 1) * b.Kb + std::min((int) (i / c.N) / uk, b.Kb - 1)] : 1;
			if(rb[i] > lim) { viol("B-read-again", fmt("B[%zu][%zu] is read %d times, the schedule comes to it %d times", i / c.N, i % c.N, rb[i], lim)); break; }
			count("reads", rb[i]);
		}
		for(size_t i = 0; i < nc; i++) {
			if(wc[i] > 1) { viol("C-written-again", fmt("C[%zu][%zu] is written %d times", i / c.N, i % c.N, wc[i])); break; }
			if(rc[i]) { viol("C-read", fmt("C[%zu][%zu] is read %d times, with beta 0", i / c.N, i % c.N, rc[i])); break; }
			count("writes", wc[i]);
		}
		cover((mirror ? "test/" : "") + shape_class(c));
		if(idx % 60 < 2) sample(c.str());
		count("judged");
	});
}

// Regular problems: every dimension many blocks and register tiles per thread
static void sharing(int argc, char** argv) {
	int lock = open("/proc/self/exe", O_RDONLY);
	if(lock < 0) _exit(3);
	run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c;
		c.e = (Entry) (idx % 4);
		c.sch = (enum sched) ((idx / 4) % 4);
		mirror = idx % 20 == 16;
		c.p = r.pick({4, 4, 5, 6, 8, 8});
		if(mirror) { c.sch = KMN; c.p = r.pick({4, 8}); c.L2 = 8 << 10; c.L1 = 4 << 10; c.L3 = 64 << 10; }
		else if(c.e != SMALL2D) { c.mcu = c.mr * (c.e == GRID2D ? c.p : r.range(1, 2)); c.ncu = c.e == SGEMM ? c.nr : c.nr * c.p; c.kcu = r.range(6, 16); }
		if(r.chance(50)) c.ncores = c.p;
		int um = c.mr * (c.mcu ? c.mcu / c.mr : 2), uk = c.kcu ? c.kcu : 16, un = c.ncu ? c.ncu : c.nr;
		// whole blocks throughout: every stage offers each thread the same
		c.M = um * c.p * r.range(2, 3);
		c.K = uk * c.p * r.range(2, 3);
		c.N = un * (c.e == SGEMM || c.e == SMALL2D ? c.p * r.range(2, 3) : r.range(2, 3));
		// or, now and then, a remainder after many blocks
		bool rest = false;
		if(!mirror && r.chance(35)) {
			int q = r.range(9, 12), d = r.range(0, 2);
			if(d == 0) c.M = um * c.p * q + r.range(1, um * c.p - 1);
			else if(d == 1) c.K = uk * c.p * q + r.range(1, uk * c.p - 1);
			else { int u = un * (c.e == SGEMM || c.e == SMALL2D ? c.p : 1); c.N = u * q + r.range(1, u - 1); }
			rest = true;
		}
		// or few blocks: no stage is left to one thread alone
		bool few = !mirror && !rest && r.chance(25);
		if(few) { c.M = um * r.range(2, 4); c.K = uk * r.range(2, 4); c.N = un * r.range(2, 4); }
		set_case(fmt("#%d share%s %s", idx, few ? " few" : "", mirror ? "test " : "") + c.str());
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		std::vector<float> A(na), B(nb), C(nc);
		fill_int(A.data(), na, 3, r); fill_int(B.data(), nb, 3, r); fill_nan(C.data(), nc);
		watch(0, A.data(), na); watch(1, B.data(), nb); watch(2, C.data(), nc);
		static const char* what[] = {"reads of A", "reads of B", "writes of C", "accesses to panels"};
		static const int col[] = {0, 1, TRACE_RANGES + 2, 2 * TRACE_RANGES};
		double best[4] = {2, 2, 2, 2}, lim = few ? 0.85 : 1.9 / c.p;
		bool bad = true;
		for(int t = 0; t < 60 && bad && nviol() < 5; t++) {
			// a second look is taken while the other shards stand still
			flock(lock, t ? LOCK_EX : LOCK_SH);
			traced(c, A.data(), B.data(), C.data());
			flock(lock, LOCK_UN);
			count("executions");
			bad = false;
			for(int i = 0; i < 4; i++) { best[i] = std::min(best[i], share(col[i])); bad |= best[i] > lim; }
		}
		blk_dims_t b;
		plan(c, &b);
		for(int i = 0; i < 4; i++) {
			if(getenv("VH_SHOW")) fprintf(stderr, "%s %s p%d %s %.2f  M%d N%d K%d mc%d kc%d nc%d pm%d pn%d\n", mirror ? "test" : entry_name[c.e], sch_name[b.sch], c.p, what[i], best[i], c.M, c.N, c.K, b.m_c, b.k_c, b.n_c, b.pm, b.pn);
			if(best[i] > lim) viol("one-thread-does-it", fmt("of the %s one thread of %d makes %.0f%%, in each of 60 calls", what[i], c.p, best[i] * 100));
		}
		cover(fmt("share%s/%s/%s/p%d/%dx%d", rest ? "-rest" : few ? "-few" : "", mirror ? "test" : entry_name[c.e], sch_name[b.sch], c.p, b.pm, b.pn));
		count("judged");
	});
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	base_cntx();
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--mode") && !strcmp(argv[i + 1], "share")) { sharing(argc, argv); return 0; }
	traffic(argc, argv);
}
