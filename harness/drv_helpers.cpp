// The helpers that make and show test data: what they fill, what they print.
#include "gemm.h"
#include <sys/wait.h>
using namespace vh;

// declared in no header: judged when they are there
void rand_gaussian(float* mat, int r, int c) __attribute__((weak));

static std::string printed(std::function<void()> f) {
	fflush(stdout);
	int keep = dup(1), fd = memfd_create("out", 0);
	dup2(fd, 1);
	f();
	fflush(stdout);
	dup2(keep, 1);
	close(keep);
	off_t n = lseek(fd, 0, SEEK_END);
	std::string s(n, 0);
	if(n && pread(fd, &s[0], n, 0) != n) _exit(3);
	close(fd);
	return s;
}

static std::vector<std::vector<std::string>> lines(const std::string& s) {
	std::vector<std::vector<std::string>> v;
	size_t at = 0;
	while(at < s.size()) {
		size_t e = s.find('\n', at);
		if(e == std::string::npos) e = s.size();
		std::vector<std::string> w;
		std::string t;
		for(size_t i = at; i <= e; i++) {
			if(i < e && !isspace((unsigned char) s[i])) t += s[i];
			else if(!t.empty()) { w.push_back(t); t.clear(); }
		}
		if(!w.empty()) v.push_back(w);
		at = e + 1;
	}
	return v;
}

static void fill(int idx, Rng& r, bool gauss) {
	int rows = r.pick({1, r.range(1, 20), r.range(1, 400)}), cols = r.pick({1, r.range(1, 20), r.range(1, 400)});
	if(r.chance(10)) { rows = r.range(1, 3); cols = r.range(20000, 300000); if(r.chance(50)) std::swap(rows, cols); }
	size_t n = (size_t) rows * cols;
	unsigned seed = (unsigned) r.u64();
	const char* what = gauss ? "rand_gaussian" : "rand_init";
	set_case(fmt("#%d %s %dx%d", idx, what, rows, cols));
	Guard A(n, r.chance(50));
	std::vector<float> B(n), D(n);
	fill_nan(A.p, n); fill_nan(B.data(), n); fill_int(D.data(), n, 5, r);
	auto f = gauss ? rand_gaussian : rand_init;
	srand(seed); f(A.p, rows, cols);
	srand(seed); f(B.data(), rows, cols);
	srand(seed + 1); f(D.data(), rows, cols);
	double s = 0, q = 0, lo = 1e9, hi = -1e9, in = 0, diff = 0;
	for(size_t i = 0; i < n; i++) {
		float x = A.p[i];
		if(!std::isfinite(x) || (!gauss && (x < -1 || x > 1)) || fabs(x) > 20) { viol("bad-element", fmt("%s: element %zu of %zu is %g", what, i, n, x)); return; }
		if(memcmp(&x, &B[i], 4)) { viol("not-repeatable", fmt("%s: element %zu differs after the same srand", what, i)); return; }
		s += x; q += (double) x * x; lo = std::min(lo, (double) x); hi = std::max(hi, (double) x); in += fabs(x) < (gauss ? 1 : .5); diff += x != D[i];
	}
	if(!A.canary_ok()) viol("outside", fmt("%s: wrote outside the matrix", what));
	if(n >= 40 && diff < n * .9) viol("seed-ignored", fmt("%s: %.0f of %zu elements differ after another srand", what, diff, n));
	if(n >= 20000) {   // five to eight standard errors
		double m = s / n, v = q / n - m * m, sd = gauss ? 1 : 1 / sqrt(3.);
		if(fabs(m) > 6 * sd / sqrt(n)) viol("mean", fmt("%s: mean %g of %zu elements", what, m, n));
		if(fabs(v / (sd * sd) - 1) > 8 * 1.5 / sqrt(n)) viol("variance", fmt("%s: variance %g of %zu elements", what, v, n));
		if(fabs(in / n - (gauss ? .6827 : .5)) > 6 * .5 / sqrt(n)) viol("shape", fmt("%s: %g of the elements in the middle", what, in / n));
		count("distributions");
	}
	if(!gauss && n >= 400 && (lo > -.9 || hi < .9)) viol("range", fmt("%s: from %g to %g", what, lo, hi));
	count("elements", n);
	cover(fmt("%s/%d/%d", what, ilogb(rows), ilogb(cols)));
}

static void print(int idx, Rng& r) {
	int rows = r.range(1, 12), cols = r.range(1, 12);
	bool array = r.chance(50);
	if(array) rows = 1, cols = r.range(1, 100);
	set_case(fmt("#%d %s %dx%d", idx, array ? "print_array" : "print_mat", rows, cols));
	std::vector<float> A((size_t) rows * cols);
	for(float& x : A) x = (float) (r.chance(50) ? r.range(-9, 9) : r.range(-100000, 100000) / 1024.);
	std::vector<float> A0 = A;
	auto L = lines(printed([&]() { if(array) print_array(A.data(), cols); else print_mat(A.data(), rows, cols); }));
	bool ok = (int) L.size() == rows;
	for(int i = 0; ok && i < rows; i++) {
		ok = (int) L[i].size() == cols;
		for(int j = 0; ok && j < cols; j++) ok = fabs(atof(L[i][j].c_str()) - A0[(size_t) i * cols + j]) <= 1e-3 + 1e-5 * fabs(A0[(size_t) i * cols + j]);
	}
	if(!ok) viol("wrong-print", fmt("%zu lines, %zu words in the first", L.size(), L.empty() ? 0 : L[0].size()));
	if(memcmp(A.data(), A0.data(), 4 * A.size())) viol("changed", "the matrix printed has changed");
	cover(fmt("print/%d/%d/%d", array, array ? 1 : rows, cols > 12 ? cols / 10 * 10 : cols));
}

static void schedules(int idx, Rng& r) {
	static const enum sched s[] = {KMN, MKN, NKM};
	static const char* name[] = {"KMN", "MKN", "NKM"};
	int i = idx / 8 % 3;
	set_case(fmt("#%d print_schedule %s", idx, name[i]));
	std::string t = printed([&]() { print_schedule(s[i]); });
	for(int j = 0; j < 3; j++) if((t.find(name[j]) != std::string::npos) != (i == j)) viol("wrong-schedule", fmt("%s is printed as '%s'", name[i], t.c_str()));
	if(fflush(NULL)) _exit(3);
	pid_t pid = fork();
	if(!pid) { print_schedule(NA); _exit(0); }
	int st;
	waitpid(pid, &st, 0);
	if(!WIFEXITED(st) || !WEXITSTATUS(st)) viol("unknown-schedule", "no error for a schedule that is none");
	cover(fmt("schedule/%d", i));
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		int k = idx % 8;
		if(k == 7) schedules(idx, r);
		else if(k > 4) print(idx, r);
		else fill(idx, r, k > 2 && rand_gaussian);
		if(idx % 50 < 2) sample(cur());
		count("judged");
	});
}
