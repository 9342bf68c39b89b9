// Several threads of the caller use the library at once, each with its own context and
// its own C, over operands that some of them share (read-only pages). Every result has
// the bits of the same call made alone.
#include "gemm.h"
#ifdef WITH_SHIM
#include "gomp_shim.h"
#endif
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

struct Job { Case c; float *A, *B; float *C0, *C; bool packed; float *Ap, *Bp; int other; bool ok; bool query; };
struct Worker { std::vector<Job> jobs; pthread_barrier_t* bar; };

static void run_job(Job& j) {
	j.ok = true;
	if(j.query) {   // asks what machine this is, as a call without a context does
		cake_cntx_t *q = cake_query_cntx(), *b = base_cntx();
		j.ok = q->L1 == b->L1 && q->L2 == b->L2 && q->L3 == b->L3 && q->ncores == b->ncores && q->mr == b->mr && q->nr == b->nr;
		free(q);
	}
	cake_cntx_t x = make_cntx(j.c);
	size_t nc = (size_t) j.c.M * j.c.N;
	memcpy(j.C, j.C0, nc * 4);
	if(j.packed) call(j.c, j.Ap, j.Bp, j.C, &x, true, true);
	else call(j.c, j.A, j.B, j.C, &x);
	if(j.other) {   // helpers with parallel loops in them
		int k = j.c.K, n = j.c.N;
		float* t = (float*) malloc((size_t) k * n * 4);
		transpose_mat(j.B, t, k, n, 24, 24);
		for(int y = 0; y < k && j.ok; y++) for(int z = 0; z < n; z++) if(memcmp(&t[(size_t) z * k + y], &j.B[(size_t) y * n + z], 4)) { j.ok = false; break; }
		free(t);
	}
}
static void* body(void* a) {
	Worker* w = (Worker*) a;
	pthread_barrier_wait(w->bar);
	for(auto& j : w->jobs) run_job(j);
	return NULL;
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int maxd = 140;
	bool first = false;
	for(int i = 1; i + 1 < argc; i += 2) if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]); else if(!strcmp(argv[i], "--first")) first = atoi(argv[i + 1]);
	if(first) {   // the callers are the first in this process to use the library: another one asks what machine this is
		int fd[2];
		static cake_cntx_t told;
		if(pipe(fd)) return 3;
		pid_t pid = fork();
		if(pid == 0) { told = *cake_query_cntx(); _exit(write(fd[1], &told, sizeof told) != (ssize_t) sizeof told); }
		int st;
		if(pid < 0 || waitpid(pid, &st, 0) != pid || st || read(fd[0], &told, sizeof told) != (ssize_t) sizeof told) return 3;
		close(fd[0]); close(fd[1]);
		base_slot() = &told;
	}
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		int T = r.range(2, 4), per = r.range(1, 4);
#ifdef WITH_SHIM
		shim_cfg.mode = SHIM_THREADS; shim_cfg.delay = r.pick({0, 0, 20}); shim_cfg.max_team = 3;
#endif
		bool share = r.chance(60);
		Case base = rnd_case(r, maxd);
		bool large = first ? idx % 4 == 1 : idx % 23 == 11;   // results of several megabytes
		if(large) { share = true; per = 2; base.M = r.range(900, 1300); base.N = r.range(900, 1300); base.K = r.range(1, 6); }
		std::vector<Worker> w(T);
		pthread_barrier_t bar;
		pthread_barrier_init(&bar, NULL, T);
		std::vector<std::vector<float>*> keep;
		auto vec = [&](size_t n) { auto v = new std::vector<float>(n); keep.push_back(v); return v->data(); };
		std::vector<Guard*> guards;
		std::vector<std::vector<float>> early;
		auto ro = [&](size_t n) { Guard* g = new Guard(n); guards.push_back(g); fill_unit(g->p, n, r); return g; };
		float *SA = NULL, *SB = NULL;
		std::vector<float*> mem;
		for(int t = 0; t < T; t++) {
			w[t].bar = &bar;
			for(int k = 0; k < per; k++) {
				Job j;
				j.c = share ? base : rnd_case(r, maxd);
				Case q = rnd_case(r, maxd);
				j.c.e = q.e; j.c.sch = q.sch; j.c.p = r.range(1, 5);
				j.c.L1 = q.L1; j.c.L2 = q.L2; j.c.L3 = q.L3; j.c.ncores = q.ncores;
				if(r.chance(large ? 70 : 30)) { j.c.alpha = -1; j.c.beta = r.pick({0, 1}); }
				if(r.chance(30)) {
					j.c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
					j.c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
				}
				if(share) {
					if(!SA) { SA = ro((size_t) base.M * base.K)->p; SB = ro((size_t) base.K * base.N)->p; }
					j.A = SA; j.B = SB;
				} else { j.A = ro((size_t) j.c.M * j.c.K)->p; j.B = ro((size_t) j.c.K * j.c.N)->p; }
				j.C0 = vec((size_t) j.c.M * j.c.N); j.C = vec((size_t) j.c.M * j.c.N);
				fill_unit(j.C0, (size_t) j.c.M * j.c.N, r);
				j.packed = j.c.e == SGEMM && !first && r.chance(40);
				j.Ap = j.Bp = NULL; j.ok = true;
				j.other = r.chance(15);
				j.query = k == 0 && (first ? idx % 4 == 2 : idx % 9 == 4);
				if(j.packed) {
					cake_cntx_t x = make_cntx(j.c);
					blk_dims_t b; memset(&b, 0, sizeof b);
					init_block_dims(j.c.M, j.c.N, j.c.K, j.c.p, &b, &x, j.c.sch, NULL, 4);
					omp_set_num_threads(j.c.p);
					if(posix_memalign((void**) &j.Ap, 64, cake_sgemm_packed_A_size(j.c.M, j.c.K, j.c.p, &b, &x, b.sch)) ||
						posix_memalign((void**) &j.Bp, 64, cake_sgemm_packed_B_size(j.c.K, j.c.N, j.c.p, &b, &x))) _exit(3);
					mem.push_back(j.Ap); mem.push_back(j.Bp);
					pack_A(j.A, j.Ap, j.c.M, j.c.K, j.c.p, &b, &x, b.sch);
					pack_B(j.B, j.Bp, j.c.K, j.c.N, j.c.p, &b, &x, b.sch);
				}
				w[t].jobs.push_back(j);
			}
		}
		for(auto g : guards) g->readonly(true);
		set_case(fmt("#%d T=%d per=%d share=%d first: ", idx, T, per, share) + w[0].jobs[0].c.str());
		if(first) {
			std::vector<pthread_t> th(T);
			for(int t = 0; t < T; t++) if(pthread_create(&th[t], NULL, body, &w[t])) _exit(3);
			for(int t = 0; t < T; t++) pthread_join(th[t], NULL);
			for(auto& q : w) for(auto& j : q.jobs) {
				if(!j.ok) viol("wrong-helper", "transposition or machine query wrong with other callers running");
				early.push_back(std::vector<float>(j.C, j.C + (size_t) j.c.M * j.c.N));
				count("first_calls");
			}
		}
		// alone
		std::vector<std::vector<std::vector<float>>> want(T);
		for(int t = 0; t < T; t++) for(auto& j : w[t].jobs) {
			run_job(j);
			if(!j.ok) viol("wrong-helper", "transposition or machine query wrong, alone");
			want[t].push_back(std::vector<float>(j.C, j.C + (size_t) j.c.M * j.c.N));
		}
		if(first) {
			size_t e = 0;
			for(int t = 0; t < T; t++) for(size_t k = 0; k < w[t].jobs.size(); k++, e++)
				if(memcmp(want[t][k].data(), early[e].data(), early[e].size() * 4))
					viol("caller-interference", fmt("caller %d of %d among the first in the process, %s: the result differs from the same call made alone", t, T, w[t].jobs[k].c.str().c_str()));
		}
		// together
		for(int round = 0; round < 2; round++) {
			std::vector<pthread_t> th(T);
			for(int t = 0; t < T; t++) if(pthread_create(&th[t], NULL, body, &w[t])) _exit(3);
			for(int t = 0; t < T; t++) pthread_join(th[t], NULL);
			bool bad = false;
			for(int t = 0; t < T && !bad; t++) for(size_t k = 0; k < w[t].jobs.size(); k++) {
				Job& j = w[t].jobs[k];
				if(!j.ok) viol("wrong-helper", "transposition or machine query wrong with other callers running");
				if(memcmp(want[t][k].data(), j.C, want[t][k].size() * 4)) {
					viol("caller-interference", fmt("caller %d of %d, %s: the result differs from the same call made alone", t, T, j.c.str().c_str()));
					bad = true; break;
				}
				count("concurrent_calls");
			}
			if(bad) break;
		}
		for(auto& q : w) for(auto& j : q.jobs) cover(fmt("T%d/s%d/k%d/", T, share, j.packed) + shape_class(j.c));
		count("judged");
		if(idx % 60 < 2) sample(fmt("T=%d per=%d share=%d ", T, per, share) + w[0].jobs[0].c.str());
		pthread_barrier_destroy(&bar);
		for(auto v : keep) delete v;
		for(auto g : guards) delete g;
		for(auto m : mem) free(m);
	});
}
