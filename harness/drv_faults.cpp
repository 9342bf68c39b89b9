// Calls while memory or processes run out. Every allocation of every call is made to fail
// in turn, in a process of its own: the call ends the process with a message and an error,
// or gives the right result; it does not crash, hang, or go on to a wrong one.
#ifdef WITH_LINEAR
#include "vh.h"
#include <torch/torch.h>
void vh_bind(torch::Module& m);
#else
#include "gemm.h"
#endif
#include <dlfcn.h>
#include <link.h>
using namespace vh;

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start, etext;
}
enum { LIB_ONE, LIB_ON, ANY_ON, PIPE_ONE, KINDS };
static const char* kind_name[] = {"one allocation", "allocations from one on", "allocations by anyone from one on", "one subprocess"};
static volatile int armed, kind, nth, hit;
static volatile int seen;

static bool fails(void* caller) {
	if(!armed || kind == PIPE_ONE) return false;
	bool lib = (char*) caller >= &__executable_start && (char*) caller < &etext;
	if(kind != ANY_ON && !lib) return false;
	int n = __atomic_add_fetch(&seen, 1, __ATOMIC_SEQ_CST);
	if(kind == LIB_ONE ? n != nth : n < nth) return false;
	hit = 1;
	if(n - nth > 3000000) raise(SIGALRM);    // asked again and again: it will not end
	errno = ENOMEM;
	return true;
}
#define CALLER __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return fails(CALLER) ? NULL : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return fails(CALLER) ? NULL : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return fails(CALLER) ? NULL : __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return fails(CALLER) ? NULL : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return fails(CALLER) ? NULL : __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
	if(fails(CALLER)) return ENOMEM;
	void* p = __libc_memalign(a, n);
	if(!p) return ENOMEM;
	*r = p;
	return 0;
}
FILE* popen(const char* c, const char* m) {
	static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "popen");
	if(armed && kind == PIPE_ONE && __atomic_add_fetch(&seen, 1, __ATOMIC_SEQ_CST) == nth) { hit = 1; errno = EMFILE; return NULL; }
	return real(c, m);
}
}
enum { OK = 41, WRONG = 42, NOT_REACHED = 43 };

// Runs f with the fault; true when f ran without meeting it
static bool faulted(int k, int n, const char* what, std::function<bool()> f) {
	static int hangs = 0;
	if(hangs) return true;     // decided; each further one would take its minute
	int fd = memfd_create("out", 0);
	pid_t pid = fork();
	if(pid < 0) _exit(3);
	if(!pid) {
		dup2(fd, 1); dup2(fd, 2);
		fclose(out());
		stdout = fdopen(1, "w");
		alarm(60);
		kind = k; nth = n; seen = 0; hit = 0;
		armed = 1;
		bool right = f();
		armed = 0;
		_exit(!hit ? NOT_REACHED : right ? OK : WRONG);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
	off_t len = lseek(fd, 0, SEEK_END);
	char said[4096];
	ssize_t m = pread(fd, said, sizeof said - 1, 0);
	said[m > 0 ? m : 0] = 0;
	close(fd);
	count("faults");
	std::string place = fmt("%s, %s #%d fails: ", what, kind_name[k], n);
	if(WIFSIGNALED(st)) {
		int s = WTERMSIG(st);
		if(s == SIGKILL || s == SIGTERM) _exit(3);
		// an exception nobody catches ends the process with a message and an error too
		if(s == SIGABRT && strstr(said, "bad_alloc")) { count("ended"); return false; }
		if(s == SIGALRM) hangs++;
		viol(s == SIGALRM ? "hang-after-fault" : "crash-after-fault", place + strsignal(s));
	} else if(WEXITSTATUS(st) == NOT_REACHED) return true;
	else if(WEXITSTATUS(st) == OK) count("completed");
	else if(WEXITSTATUS(st) == WRONG) viol("wrong-after-fault", place + "the call returned, with a wrong result");
	else if(WEXITSTATUS(st) == 0) viol("status-0", place + "the process ended with status 0");
	else if(len == 0) viol("silent-end", place + fmt("exit status %d and no message", WEXITSTATUS(st)));
	else count("ended");
	return false;
}

// every place a fault can strike
static int sweep(int k, const char* what, int limit, Rng& r, std::function<bool()> f) {
	int n = 1;
	while(n <= limit && !faulted(k, n, what, f) && nviol() < 40) n++;
	return n - 1;
}

#ifdef WITH_LINEAR
using torch::Tensor;
typedef Tensor fwd(Tensor&, Tensor&, Tensor&, const Tensor&);
typedef std::vector<Tensor> bwd(Tensor&, Tensor&, Tensor&, Tensor&, const Tensor&);
int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	torch::Module m;
	vh_bind(m);
	fwd* forward = std::any_cast<fwd*>(m.f.at("forward"));
	bwd* backward = std::any_cast<bwd*>(m.f.at("backward"));
	return run_cases(argc, argv, 10, [&](int idx, Rng& r) {
		int batch = r.range(1, 40), in = r.range(1, 40), outf = r.range(1, 40);
		bool bias = r.chance(50);
		Tensor sizes = Tensor::of_ints({16 << 10, 128 << 10}), x = Tensor::empty({batch, in}), w = Tensor::empty({outf, in}), g = Tensor::empty({batch, outf}), b;
		fill_int(x.st.get(), x.numel(), 5, r); fill_int(w.st.get(), w.numel(), 5, r); fill_int(g.st.get(), g.numel(), 5, r);
		if(bias) { b = Tensor::empty({outf}); fill_int(b.st.get(), outf, 5, r); }
		int k = idx / 2 % 2 ? PIPE_ONE : LIB_ONE;
		set_case(fmt("#%d linear %s batch=%d in=%d out=%d", idx, idx % 2 ? "backward" : "forward", batch, in, outf));
		int n = sweep(k, idx % 2 ? "backward" : "forward", 400, r, [&]() {
			if(idx % 2) {
				std::vector<Tensor> o = backward(sizes, g, x, w, b);
				double s = 0;
				for(int j = 0; j < batch; j++) for(int i = 0; i < in; i++) {
					s = 0;
					for(int q = 0; q < outf; q++) s += g.at((size_t) j * outf + q) * w.at((size_t) q * in + i);
					if(s != o[0].at((size_t) j * in + i)) return false;
				}
				return true;
			}
			Tensor o = forward(sizes, x, w, b);
			for(int j = 0; j < batch; j++) for(int q = 0; q < outf; q++) {
				double s = bias ? b.at(q) : 0;
				for(int i = 0; i < in; i++) s += x.at((size_t) j * in + i) * w.at((size_t) q * in + i);
				if(s != o.at((size_t) j * outf + q)) return false;
			}
			return true;
		});
		cover(fmt("linear/%d/%s/%d", idx % 2, kind_name[k], n));
		count("judged");
	});
}
#else
enum { CALL, PACKED, TEST, NULLCTX, QUERY, TORCH, CHECKER, ADDCHECK, PLAN, NOPS };
static const char* opname[] = {"call", "packed call", "test entry", "call without context", "query", "query-torch", "product checker", "sum checker", "plan"};

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	base_cntx();
	return run_cases(argc, argv, 40, [&](int idx, Rng& r) {
		int op = idx % 24 < 13 ? (int) CALL : idx % 24 < 15 ? (int) PACKED : idx % 24 == 15 ? (int) TEST : idx % 24 - 16 < 2 ? (int) NULLCTX : idx % 24 == 18 ? (int) QUERY : idx % 24 == 19 ? (int) TORCH :
			idx % 24 == 20 ? (int) CHECKER : idx % 24 == 21 ? (int) ADDCHECK : idx % 24 == 22 ? (int) PLAN : (int) CALL;
		Case c = rnd_case(r, 90);
		c.e = (Entry) ((idx + idx / 24) % 4);
		c.sch = (enum sched) ((idx / 4 + idx / 24) % 4);
		if(c.p > 6) c.p = 6;
		if(op == PACKED || op == TEST) { c.e = SGEMM; c.sch = op == TEST ? KMN : c.sch; }
		if(op == NULLCTX) c.p = 2;
		if(r.chance(50)) { c.alpha = r.pick({1.f, 2.f}); c.beta = r.pick({1.f, -1.f}); }
		if(op != NULLCTX && !r.chance(25)) snap_dims(c, r, 90);
		bool query = op == NULLCTX || op == QUERY || op == TORCH;
		int k = query ? (idx / 24 % 2 ? (int) LIB_ONE : (int) PIPE_ONE) : r.pick({(int) LIB_ONE, (int) LIB_ONE, (int) LIB_ON, (int) ANY_ON});
		set_case(fmt("#%d %s ", idx, opname[op]) + c.str());
		size_t na = (size_t) c.M * c.K, nb = (size_t) c.K * c.N, nc = (size_t) c.M * c.N;
		std::vector<float> A(na), B(nb), C(nc), S(nc);
		fill_int(A.data(), na, 4, r); fill_int(B.data(), nb, 4, r); fill_int(C.data(), nc, 4, r);
		std::vector<double> ref(nc);
		ref_mul(A.data(), B.data(), ref.data(), c.M, c.N, c.K);
		for(size_t i = 0; i < nc; i++) S[i] = (float) ref[i];
		cake_cntx_t x = make_cntx(c);
		std::vector<float> C0 = C;
		auto right = [&]() {
			for(size_t i = 0; i < nc; i++) if((double) C[i] != c.alpha * ref[i] + (c.beta != 0 ? (double) c.beta * C0[i] : 0)) return false;
			return true;
		};
		int n = sweep(k, opname[op], query ? 30 : 400, r, [&]() {
			switch(op) {
			case CALL: call(c, A.data(), B.data(), C.data(), &x); return right();
			case PACKED: {
				armed = 0;
				blk_dims_t b; memset(&b, 0, sizeof b);
				init_block_dims(c.M, c.N, c.K, c.p, &b, &x, c.sch, NULL, 4);
				float* Ap = (float*) __libc_memalign(64, cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, &x, b.sch));
				float* Bp = (float*) __libc_memalign(64, cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, &x));
				omp_set_num_threads(c.p);
				pack_A(A.data(), Ap, c.M, c.K, c.p, &b, &x, b.sch);
				pack_B(B.data(), Bp, c.K, c.N, c.p, &b, &x, b.sch);
				armed = 1;
				bool pa = idx / 24 % 3 == 2 || (idx & 1), pb = idx / 24 % 3 == 2 || !(idx & 1);
				call(c, pa ? Ap : A.data(), pb ? Bp : B.data(), C.data(), &x, pa, pb);
				return right();
			}
			case TEST: cake_sgemm_test(A.data(), B.data(), C.data(), c.M, c.N, c.K, c.p, &x, NULL, 0, 0, c.alpha, c.beta); return right();
			case NULLCTX: call(c, A.data(), B.data(), C.data(), NULL); return right();
			case QUERY: { cake_cntx_t* q = cake_query_cntx(); return q && q->mr == base_cntx()->mr && q->L2 == base_cntx()->L2 && q->ncores == base_cntx()->ncores; }
			case TORCH: { cake_cntx_t* q = cake_query_cntx_torch(c.L2, c.L3); return q && q->L2 == c.L2 && q->L3 == c.L3 && q->mr == base_cntx()->mr; }
			case CHECKER: {
				std::vector<float>& W = S;
				bool good = !cake_sgemm_checker(A.data(), B.data(), W.data(), c.N, c.M, c.K);
				W[nc / 2] += 1;
				return good && cake_sgemm_checker(A.data(), B.data(), W.data(), c.N, c.M, c.K);
			}
			case ADDCHECK: {
				float* parts[2] = {S.data(), C.data()};
				armed = 0;
				std::vector<float> T(nc);
				armed = 1;
				for(size_t i = 0; i < nc; i++) T[i] = S[i] + C[i];
				bool good = !add_checker(parts, T.data(), c.M, c.N, 2);
				T[nc / 2] += 1;
				return good && add_checker(parts, T.data(), c.M, c.N, 2);
			}
			default: {
				cache_dims_t* d = get_cache_dims(c.M, c.N, c.K, c.p, &x, c.sch, NULL, 4, 0, 0, 0);
				return d && d->m_c > 0 && d->k_c > 0 && d->n_c > 0;
			}
			}
		});
		counters()["places"] += n;
		cover(fmt("%s/%s/%s/%s/b%d/p%d", opname[op], kind_name[k], op <= NULLCTX ? entry_name[c.e] : "-", op <= NULLCTX ? sch_name[c.sch] : "-", c.beta != 0, op == CALL ? c.p : 0));
		if(idx % 29 == 0) sample(fmt("%s: %d places, ", opname[op], n) + c.str());
		count("judged");
	});
}
#endif
