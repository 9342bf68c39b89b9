// A call's result depends on its arguments only. A long-lived process makes a sequence
// of calls on one context, with other library calls between; another process, forked
// fresh, makes each call alone on a fresh context. The bits must agree.
// The parent never enters an OpenMP region, so that children start from nothing.
#include "gemm.h"
#include <sys/wait.h>
using namespace vh;

struct Op { int kind; Case c; uint64_t seed; bool arena; int tweak; };
// operands the caller keeps in place, and changes an element of between calls
static float* arena[3];
static const size_t ARENA = 1 << 20;
struct Slot { uint64_t h; int done; };
static const char* kinds[] = {"call", "packed", "test", "helpers", "small"};

// the operation on context x; the hash of what it produced
static uint64_t perform(const Op& o, cake_cntx_t* x) {
	Rng r(o.seed);
	const Case& c = o.c;
	size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
	bool kept = o.arena && na <= ARENA && nb <= ARENA && nc <= ARENA;
	float *A = kept ? arena[0] : (float*) malloc(na * 4), *B = kept ? arena[1] : (float*) malloc(nb * 4), *C = kept ? arena[2] : (float*) malloc(nc * 4);
	fill_unit(A, na, r); fill_unit(B, nb, r); fill_unit(C, nc, r);
	Rng q(o.seed ^ 77);
	for(int k = 0; k < o.tweak; k++) {   // somewhere in the middle
		if(q.chance(60) && nb > 2) B[1 + q.u64() % (nb - 2)] += 0.5f;
		else if(na > 2) A[1 + q.u64() % (na - 2)] += 0.5f;
		else A[0] += 0.5f;
	}
	uint64_t h = 0;
	if(o.kind == 0) { call(c, A, B, C, x); h = hash(C, nc * 4); }
	else if(o.kind == 1) {
		blk_dims_t b; memset(&b, 0, sizeof b);
		init_block_dims(c.M, c.N, c.K, c.p, &b, x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
		omp_set_num_threads(c.p);
		float *Ap, *Bp;
		size_t sa = cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, x, b.sch), sb = cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, x);
		if(posix_memalign((void**) &Ap, 64, sa) || posix_memalign((void**) &Bp, 64, sb)) _exit(3);
		pack_A(A, Ap, c.M, c.K, c.p, &b, x, b.sch);
		pack_B(B, Bp, c.K, c.N, c.p, &b, x, b.sch);
		h = hash(Ap, sa) ^ (hash(Bp, sb) << 1);
		call(c, Ap, Bp, C, x, true, true);
		h ^= hash(C, nc * 4) << 2;
		free(Ap); free(Bp);
	} else if(o.kind == 2) { cake_sgemm_test(A, B, C, c.M, c.N, c.K, c.p, x, NULL, 0, 0, c.alpha, c.beta); h = hash(C, nc * 4); }
	else if(o.kind == 3) {
		float* T = (float*) malloc(nb * 4);
		transpose_mat(B, T, c.K, c.N, 24, 24);
		h = hash(T, nb * 4);
		std::vector<double> ref(nc);
		ref_mul(A, B, ref.data(), c.M, c.N, c.K);
		for(size_t i = 0; i < nc; i++) C[i] = (float) ref[i];
		h += cake_sgemm_checker(A, B, C, c.N, c.M, c.K);
		C[nc - 1] += 5;
		h += 2 * (uint64_t) cake_sgemm_checker(A, B, C, c.N, c.M, c.K);
		free(T);
	} else {   // the plan itself
		blk_dims_t b; memset(&b, 0, sizeof b);
		if(o.seed & 1) init_block_dims(c.M, c.N, c.K, c.p, &b, x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
		else init_block_dims_2d(c.M, c.N, c.K, c.p, &b, x, KMN, NULL, 4, c.mcu, c.kcu, c.ncu);
		h = hash(&b, sizeof b) + 17;
	}
	if(!kept) { free(A); free(B); free(C); }
	return h;
}

static void set_cntx(cake_cntx_t* x, const Case& c) {   // the same machine for the whole sequence
	if(x->mr != c.mr || x->nr != c.nr) update_mr_nr(x, c.mr, c.nr);
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int maxd = 200;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	base_cntx();
	for(float*& a : arena) a = (float*) mmap(NULL, ARENA * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	const int MAXOPS = 24;
	Slot* s = (Slot*) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		// now and then a long life: small calls, hundreds of them
		int n = r.range(4, 12), idle = idx % 16 == 15 ? r.range(150, 600) : 0;
		std::vector<Op> ops;
		Case hw = rnd_case(r, maxd);
		for(int k = 0; k < n; k++) {
			Op o;
			if(k && r.chance(45)) {   // an earlier call once more, or a variation of it
				o = ops[r.range(0, k - 1)];
				if(r.chance(40)) o.tweak += r.range(1, 2);
				else if(r.chance(50)) { int w = r.range(0, 3); if(w == 0) o.c.p = r.range(1, 8); else if(w == 1) o.c.sch = (enum sched) r.range(0, 3); else if(w == 2) o.c.K = r.range(1, maxd); else o.c.M = r.range(1, maxd); }
			} else {
				o.c = rnd_case(r, maxd);
				o.kind = r.pick({0, 0, 0, 0, 1, 1, 2, 3, 4});
				if(r.chance(30)) {
					o.c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
					o.c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
				}
				if(r.chance(30)) { o.c.mcu = o.c.mr * r.range(1, 5); o.c.ncu = o.c.nr * r.range(1, 4); o.c.kcu = r.range(1, 60); }
				if(r.chance(25)) { o.c.alpha = r.pick({2.f, -1.f, 0.3f}); o.c.beta = r.pick({0.f, 1.f, -0.7f}); }
				o.seed = r.u64();
				o.arena = r.chance(60); o.tweak = 0;
				if(r.chance(3)) stretch_dims(o.c, r);
			}
			if(o.kind == 1) o.c.e = SGEMM;
			if(o.kind == 2) { o.c.mr = MR_MIN; o.c.nr = NR_MIN; }   // its packing is made for the smallest tile
			if(o.c.e == SMALL2D || o.kind == 2) o.c.mcu = o.c.kcu = o.c.ncu = 0;
			o.c.L1 = hw.L1; o.c.L2 = hw.L2; o.c.L3 = hw.L3; o.c.ncores = hw.ncores;
			ops.push_back(o);
		}
		memset(s, 0, 4096);
		auto child = [&](int from, int to, int base) {
			fflush(out());
			pid_t pid = fork();
			if(pid == 0) {
				cake_cntx_t x = make_cntx(hw);
				std::vector<uint64_t> first(n, 0);
				if(!base) for(int k = 0; k < idle; k++) {
					Op o = ops[k % n];
					Case small = o.c;
					if(small.M > 24) small.M = 24;
					if(small.N > 24) small.N = 24;
					if(small.K > 24) small.K = 24;
					if(small.p > 3) small.p = 3;
					o.c = small;
					set_case(fmt("#%d idling %d: %s ", idx, k, kinds[o.kind]) + o.c.str());
					set_cntx(&x, o.c);
					uint64_t h = perform(o, &x);
					if(k < n) first[k] = h;
					else if(first[k % n] != h) _exit(9);   // the same small call, later in life
				}
				for(int k = from; k < to; k++) {
					set_case(fmt("#%d %s op %d of %d: %s ", idx, base ? "alone," : "in sequence,", k, n, kinds[ops[k].kind]) + ops[k].c.str());
					set_cntx(&x, ops[k].c);
					s[base + k].h = perform(ops[k], &x);
					s[base + k].done = 1;
				}
				_exit(0);
			}
			int st;
			if(pid < 0 || waitpid(pid, &st, 0) != pid) _exit(3);
			if(!WIFEXITED(st) || WEXITSTATUS(st)) {
				std::string where = progress_page() ? progress_page() : "";
				if(WIFEXITED(st) && WEXITSTATUS(st) == 9) { viol("history-dependent", "the same call gave other bits later: " + where); return false; }
				viol("child-died", fmt("status %x while: %s", st, where.c_str()));
				return false;
			}
			return true;
		};
		if(!child(0, n, 0)) return;
		for(int k = 0; k < n; k++) {
			if(!child(k, k + 1, MAXOPS)) return;
			if(s[k].h != s[MAXOPS + k].h) {
				std::string prev;
				for(int q = 0; q < k; q++) prev += fmt("%s %s; ", kinds[ops[q].kind], ops[q].c.str().c_str()).substr(0, 150);
				viol("history-dependent", fmt("call %d (%s %s) gives other bits alone than after: %s", k, kinds[ops[k].kind], ops[k].c.str().c_str(), prev.substr(0, 900).c_str()));
				return;
			}
			count("calls_compared"); if(ops[k].arena && ops[k].tweak) count("calls_after_a_change_in_place");
			cover(fmt("%s/after-%s/", kinds[ops[k].kind], k ? kinds[ops[k - 1].kind] : "nothing") + shape_class(ops[k].c));
		}
		count("judged"); count("idle_calls", idle);
		if(idx % 60 < 2) sample(fmt("%d ops, first %s %s", n, kinds[ops[0].kind], ops[0].c.str().c_str()));
	});
}
