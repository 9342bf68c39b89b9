// Operands of several gigabytes, from 2^29 up to 2^31 elements: sizes in bytes that no int
// holds. One operand is huge and mostly zero (pages never written), the others small, so
// that the product is known everywhere and only what a call writes takes memory.
//   --mode sgemm|online|2d|2d_small --which A|B|C|all --beta 0|1 --deep 0|1
//   --mode beyond   operands of more than 2^31 elements, in a child each
#include "gemm.h"
using namespace vh;

static const size_t MOAT = 64 << 12;
struct Map {
	float* p; size_t bytes; char* base;
	size_t moat;
	Map(size_t n, size_t moat_ = MOAT) : moat(moat_) {
		bytes = ((n * 4 + 4095) / 4096) * 4096;
		base = (char*) mmap(NULL, bytes + 2 * moat, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(base == (char*) MAP_FAILED || mprotect(base + moat, bytes, PROT_READ | PROT_WRITE)) { fprintf(stderr, "mmap failed\n"); _exit(3); }
		p = (float*) (base + moat + bytes - n * 4);     // flush against the upper guard
	}
	~Map() { munmap(base, bytes + 2 * moat); }
};

static void beyond(int argc, char** argv) {
	run_cases(argc, argv, 8, [&](int idx, Rng& r) {
		Case c;
		c.e = (Entry) (idx % 4);
		bool a = (idx / 4) % 2 == 0;
		c.sch = KMN; c.p = 2;
		int u = r.range(40000, 60000), v = (int) (2.2e9 / u);
		if(a) { c.M = u; c.K = v; c.N = 4; } else { c.K = u; c.N = v; c.M = 4; }
		if(c.e != SMALL2D) { c.mcu = c.mr * 16; c.kcu = 256; c.ncu = c.nr * 30; }
		std::string name = fmt("beyond-%c/%s", a ? 'A' : 'B', entry_name[c.e]);
		set_case(fmt("#%d %s ", idx, name.c_str()) + c.str());
		fflush(out());
		pid_t pid = fork();
		if(pid == 0) {
			// wrapped offsets fall into the moats
			Map H((size_t) u * v, (size_t) 10 << 30), S(a ? (size_t) c.K * c.N : (size_t) c.M * c.K), C((size_t) c.M * c.N);
			for(size_t i = 0; i < S.bytes / 4 - 1024; i++) S.p[i] = 1;
			H.p[(size_t) u * v - 1] = 3; H.p[0] = 2;
			cake_cntx_t x = make_cntx(c);
			alarm(200);
			call(c, a ? H.p : S.p, a ? S.p : H.p, C.p, &x);
			bool ok = a ? C.p[0] == 2 * S.p[0] && C.p[(size_t) c.M * c.N - 1] == 3 * S.p[(size_t) c.K * c.N - 1]
				: C.p[0] == 2 * S.p[0] && C.p[(size_t) c.M * c.N - 1] == 3 * S.p[(size_t) c.M * c.K - 1];
			_exit(ok ? 0 : 9);
		}
		int st;
		if(pid < 0 || waitpid(pid, &st, 0) != pid) _exit(3);
		if(!WIFEXITED(st) || WEXITSTATUS(st)) viol("int-index", fmt("%s: %s", name.c_str(), WIFSIGNALED(st) ? "reads or writes far outside the operand" :
			WEXITSTATUS(st) == 9 ? "wrong product" : "gives up"));
		count("judged");
		cover(name);
	});
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	std::string mode = "sgemm", which = "all";
	bool beta = false, deep = false;
	for(int i = 1; i + 1 < argc; i += 2) {
		if(!strcmp(argv[i], "--mode")) mode = argv[i + 1];
		if(!strcmp(argv[i], "--which")) which = argv[i + 1];
		if(!strcmp(argv[i], "--beta")) beta = atoi(argv[i + 1]);
		if(!strcmp(argv[i], "--deep")) deep = atoi(argv[i + 1]);
	}
	base_cntx();
	if(mode == "beyond") { beyond(argc, argv); return 0; }
	return run_cases(argc, argv, 9, [&](int idx, Rng& r) {
		Case c;
		c.e = mode == "online" ? ONLINE : mode == "2d" ? GRID2D : mode == "2d_small" ? SMALL2D : SGEMM;
		int w = which == "A" ? 0 : which == "B" ? 1 : which == "C" ? 2 : idx % 3;
		c.sch = (enum sched) ((idx / 3 + idx) % 3);
		if(c.e != SGEMM) c.sch = KMN;
		c.p = r.range(2, 4);
		c.L1 = 32 << 10; c.L2 = 1 << 20; c.L3 = 8 << 20; c.ncores = 4;
		// the huge operand: u by v, w the other dimension
		double total = 5.37e8 * (1.0 + r.unit() * 0.25);
		if(deep || (c.e != SGEMM && w != 2)) total *= 1 + 2.7 * r.unit();   // nothing is written: up to the last int
		int u = r.chance(60) ? r.range(9000, 60000) : r.range(65537, 200000), v = (int) (total / u), o = r.range(1, 6);
		if(w == 0) { c.M = u; c.K = v; c.N = o; } else if(w == 1) { c.K = u; c.N = v; c.M = o; } else { c.M = u; c.N = v; c.K = o; }
		// few rows would make tiny blocks, and millions of parallel regions
		if(w == 1 && c.e != SMALL2D) { c.mcu = c.mr * r.range(10, 20); c.kcu = r.range(150, 300); c.ncu = c.nr * r.range(20, 60); }
		set_case(fmt("#%d huge %c ", idx, "ABC"[w]) + c.str());
		size_t nc = (size_t) c.M * c.N;
		Map A((size_t) c.M * c.K), B((size_t) c.K * c.N), C(nc);
		cake_cntx_t x = make_cntx(c);
		std::vector<double> ref;
		if(w == 2) { fill_int(A.p, (size_t) c.M * c.K, 20, r); fill_int(B.p, (size_t) c.K * c.N, 20, r); }
		else {
			Map& H = w == 0 ? A : B; Map& S = w == 0 ? B : A;
			int R = w == 0 ? c.M : c.K, Cc = w == 0 ? c.K : c.N;
			size_t ns = w == 0 ? (size_t) c.K * c.N : (size_t) c.M * c.K;
			fill_int(S.p, ns, 20, r);
			ref.assign(nc, 0);
			fill_nan(C.p, nc);
			for(int k = 0; k < 4000; k++) {
				int y = k < 40 ? (k & 1 ? R - 1 : 0) : r.range(0, R - 1), z = k < 40 ? (k & 2 ? Cc - 1 : r.range(0, Cc - 1)) : r.range(0, Cc - 1);
				float& e = H.p[(size_t) y * Cc + z];
				if(e != 0) continue;
				e = (float) r.range(1, 20);
				if(w == 0) for(int n = 0; n < c.N; n++) ref[(size_t) y * c.N + n] += (double) e * S.p[(size_t) z * c.N + n];
				else for(int m = 0; m < c.M; m++) ref[(size_t) m * c.N + z] += (double) S.p[(size_t) m * c.K + y] * e;
			}
		}
		if(beta) {
			c.alpha = -1; c.beta = 2;
			if(w == 2) { fill_int(C.p, nc, 5, r); ref.resize(0); }
			else { for(size_t i = 0; i < nc; i++) { C.p[i] = (float) (i % 11); ref[i] = -ref[i] + 2 * C.p[i]; } }
			set_case(fmt("#%d huge %c ", idx, "ABC"[w]) + c.str());
		}
		std::vector<float> C0;
		if(beta && w == 2) C0.assign(C.p, C.p + nc);
		call(c, A.p, B.p, C.p, &x);
		for(int m = 0; m < c.M; m++) {
			const float* row = C.p + (size_t) m * c.N;
			bool bad = false;
			for(int n = 0; n < c.N; n++) {
				float want = 0;
				if(w == 2) for(int k = 0; k < c.K; k++) want += A.p[(size_t) m * c.K + k] * B.p[(size_t) k * c.N + n];
				if(w == 2 && beta) want = -want + 2 * C0[(size_t) m * c.N + n];
				if(w != 2) want = (float) ref[(size_t) m * c.N + n];
				if(row[n] != want) { viol("wrong-product", fmt("C[%d][%d] = %.9g, expected %.9g", m, n, row[n], want)); bad = true; break; }
			}
			if(bad) break;
		}
		count("judged"); count("huge_products"); count("elements", (double) nc);
		cover(fmt("huge%c/", "ABC"[w]) + shape_class(c));
		sample(cur());
	});
}
