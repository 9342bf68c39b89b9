// The library's self-test over products and verdicts of the monitor's making. The library is
// a shared object here, so that the definitions below take the place of its own.
#include "vh.h"
#include "cake.h"
#include <map>
#include <set>
#include <tuple>
#include <sys/mman.h>
using namespace vh;

typedef std::tuple<std::string, int, int, int, int> Test;   // name, p, M, K, N
static std::map<float*, std::pair<int, int>> filled;
static std::multiset<Test> ran, failed;
static struct { Test t; float *A, *B, *C; bool open; } last;
static int cores, percent;
static Rng* rng;
static bool met;

static bool holds(float* p, int r, int c) { auto i = filled.find(p); return i != filled.end() && i->second == std::make_pair(r, c); }
static double product(const char* name, float* A, float* B, float* C, int M, int N, int K, int p, float alpha, float beta) {
	Test t(name, p, M, K, N);
	std::string s = fmt("%s p=%d M=%d K=%d N=%d", name, p, M, K, N);
	if(!holds(A, M, K) || !holds(B, K, N)) viol("operands", s + ": the operands are not matrices of these sizes just filled");
	if(p < 2 || p > cores) viol("team", s + fmt(": the machine has %d cores", cores));
	if(alpha != 1) viol("alpha", s);
	if(last.open) viol("unchecked", s + ": the product before was not checked");
	last = {t, A, B, C, true};
	ran.insert(t);
	count("products");
	return 0;
}

double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* x, char**, bool pa, bool pb, float alpha, float beta, enum sched s, int, int, int) {
	if(pa || pb) viol("packed", "an operand is announced as packed");
	return product(s == KMN ? "K-first" : s == MKN ? "M-first" : s == NKM ? "N-first" : "?", A, B, C, M, N, K, p, alpha, beta);
}
double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* x, char**, bool, bool, float alpha, float beta, enum sched, int, int, int) {
	return product("2d", A, B, C, M, N, K, p, alpha, beta);
}
double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* x, char**, bool, bool, float alpha, float beta, enum sched, int, int, int) {
	return product("online", A, B, C, M, N, K, p, alpha, beta);
}
void rand_init(float* m, int r, int c) { met = true; filled[m] = {r, c}; m[0] = m[(size_t) r * c - 1] = 1; }
bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
	met = true;
	if(!last.open) { viol("checked-nothing", "a check without a product before it"); return false; }
	last.open = false;
	if(A != last.A || B != last.B || C != last.C || std::get<2>(last.t) != M || std::get<3>(last.t) != K || std::get<4>(last.t) != N)
		viol("checked-else", fmt("checked as M=%d K=%d N=%d: not the product just made", M, K, N));
	bool bad = percent == 101 ? ran.size() == 1 : rng->chance(percent);
	if(bad) failed.insert(last.t);
	// other matrices may come to lie where these do
	filled.erase(A); filled.erase(B);
	return bad;
}
cake_cntx_t* cake_query_cntx() {
	cake_cntx_t* x = (cake_cntx_t*) calloc(1, sizeof(cake_cntx_t));
	x->ncores = cores; x->L1 = 32 << 10; x->L2 = 1 << 20; x->L3 = 8 << 20;
	update_mr_nr(x, 6, 16);
	return x;
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int fd = memfd_create("out", 0);
	dup2(fd, 1);
	stdout = fdopen(1, "w");
	return run_cases(argc, argv, 6, [&](int idx, Rng& r) {
		cores = r.range(2, 7);
		percent = idx % 4 == 0 ? 0 : idx % 4 == 1 ? 101 : r.pick({1, 3, 50, 100});
		set_case(fmt("#%d self-test on %d cores, %s", idx, cores, percent == 101 ? "the first product wrong" : fmt("%d%% wrong", percent).c_str()));
		rng = &r;
		filled.clear(); ran.clear(); failed.clear(); last.open = false; met = false;
		if(ftruncate(1, 0)) _exit(3);
		lseek(1, 0, SEEK_SET);
		run_tests();
		fflush(stdout);
		if(!met) { fprintf(stderr, "run_tests does not call what stands in\n"); _exit(3); }
		off_t n = lseek(fd, 0, SEEK_END);
		std::string s(n, 0);
		if(pread(fd, &s[0], n, 0) != n) _exit(3);
		if(last.open) viol("unchecked", "the last product was not checked");
		std::multiset<Test> told;
		bool passed = false, fell = false;
		for(size_t at = 0; at < s.size();) {
			size_t e = s.find('\n', at);
			if(e == std::string::npos) e = s.size();
			std::string l = s.substr(at, e - at);
			at = e + 1;
			int p, M, K, N;
			size_t q = l.find("p=");
			if(q != std::string::npos && sscanf(l.c_str() + q, "p=%d M=%d K=%d N=%d", &p, &M, &K, &N) == 4) {
				std::string name = l.find("2d") < q ? "2d" : l.find("online") < q ? "online" : l.find("M-first") < q ? "M-first" : l.find("N-first") < q ? "N-first" : l.find("K-first") < q ? "K-first" : "?";
				told.insert(Test(name, p, M, K, N));
			} else if(l.find("PASSED") != std::string::npos) passed = true;
			else if(l.find("FAILED") != std::string::npos) fell = true;
		}
		if(told != failed) viol("report", fmt("%zu products failed, %zu are reported, and not the same", failed.size(), told.size()));
		if(passed != failed.empty() || fell != !failed.empty()) viol("verdict", fmt("%zu products failed, and the verdict says %s%s", failed.size(), passed ? "passed " : "", fell ? "failed" : ""));
		// every entry point on every shape and team
		static const char* names[] = {"2d", "online", "K-first", "M-first", "N-first"};
		std::set<int> D;
		for(auto& t : ran) D.insert(std::get<2>(t));
		for(const char* nm : names) for(int p = 2; p <= cores; p++) for(int M : D) for(int K : D) for(int N : D)
			if(!ran.count(Test(nm, p, M, K, N))) { viol("left-out", fmt("%s p=%d M=%d K=%d N=%d is not tried", nm, p, M, K, N)); goto out; }
		if(D.size() < 6) viol("left-out", fmt("%zu sizes only", D.size()));
out:
		cover(fmt("selftest/cores%d/%d", cores, percent));
		count("judged");
		sample(cur() + fmt(": %zu products", ran.size()));
	});
}
