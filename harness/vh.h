// Common parts of the verification drivers: PRNG, guarded buffers, exact matrices,
// the reference product, the case loop and the report protocol.
//
// Protocol on stdout (read by lib/common.py), one record per line:
//   V <key>\t<detail>     a violation (the current case is added)
//   C <class>             coverage class of a non-trivial case that was judged
//   S <name> <number>     a counter (summed over the run)
//   X <text>              a sample case
//   DONE                  the run reached its end
// The case under way is kept in the file named by VH_PROGRESS, so that a crash or a
// hang can be attributed.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <pthread.h>
#include <dirent.h>
#include <malloc.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace vh {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t u64() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	int range(int lo, int hi) { return lo + (int)(u64() % (uint64_t)(hi - lo + 1)); }
	bool chance(int percent) { return range(0, 99) < percent; }
	double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
	template <class T> T pick(std::initializer_list<T> l) {
		return *(l.begin() + range(0, (int) l.size() - 1));
	}
};

inline char*& progress_page() { static char* p = NULL; return p; }

inline void progress_init() {
	const char* f = getenv("VH_PROGRESS");
	if(!f) return;
	int fd = open(f, O_RDWR | O_CREAT, 0600);
	if(fd < 0) return;
	if(ftruncate(fd, 4096) == 0) {
		void* m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if(m != MAP_FAILED) progress_page() = (char*) m;
	}
	close(fd);
}

inline std::string& cur() { static std::string c; return c; }
inline int& nviol() { static int n = 0; return n; }
inline std::map<std::string, double>& counters() { static std::map<std::string, double> m; return m; }

inline void set_case(const std::string& s) {
	cur() = s;
	if(progress_page()) {
		size_t n = s.size() < 4095 ? s.size() : 4095;
		memcpy(progress_page(), s.data(), n);
		progress_page()[n] = 0;
	}
}

inline FILE*& out() { static FILE* f = stdout; return f; }

inline std::string fmt(const char* f, ...) {
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

inline void viol(const char* key, const std::string& detail) {
	nviol()++;
	if(nviol() <= 40) fprintf(out(), "V %s\t%s [case %s]\n", key, detail.c_str(), cur().c_str());
	fflush(out());
}
inline void cover(const std::string& c) { fprintf(out(), "C %s\n", c.c_str()); }
inline void sample(const std::string& c) { fprintf(out(), "X %s\n", c.c_str()); }
inline void count(const char* name, double n = 1) { counters()[name] += n; }

// The library prints to stdout ("CORRECT!", "lscpu error"...): the protocol goes to a
// duplicate of it and stdout itself to /dev/null, unless a driver reads it.
inline void split_stdout() {
	int fd = dup(1);
	out() = fdopen(fd, "w");
	if(!freopen("/dev/null", "w", stdout)) _exit(3);
}

// Case loop: cases are a pure function of (seed, index), so "--only I" replays one.
inline int run_cases(int argc, char** argv, int dflt, std::function<void(int, Rng&)> f) {
	long n = dflt, only = -1, shard = 0, shards = 1;
	uint64_t seed = 1;
	for(int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i];
		if(a == "--n") n = atol(argv[i + 1]);
		else if(a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
		else if(a == "--only") only = atol(argv[i + 1]);
		else if(a == "--shard") sscanf(argv[i + 1], "%ld/%ld", &shard, &shards);
	}
	for(long i = 0; i < n; i++) {
		if(only >= 0 ? i != only : (i % shards) != shard) continue;
		Rng r(seed * 1000003ULL + (uint64_t) i * 7919ULL + 12345);
		r.u64(); r.u64();
		set_case(fmt("#%ld", i));
		f((int) i, r);
		count("cases");
		if(nviol() >= 40) break;
	}
	for(auto& c : counters()) fprintf(out(), "S %s %.0f\n", c.first.c_str(), c.second);
	fprintf(out(), "DONE\n");
	fflush(out());
	return 0;
}

// A buffer of n floats between two inaccessible pages; flush against the upper one, or
// (low) against the lower one. The slack on the other side holds a canary.
struct Guard {
	char* base = NULL; size_t maplen = 0; float* p = NULL; size_t n = 0;
	char* lo = NULL; char* hi = NULL;
	Guard() {}
	Guard(const Guard&) = delete;
	Guard& operator=(const Guard&) = delete;
	Guard(size_t n_, bool low = false) { init(n_, low); }
	void init(size_t n_, bool low = false) {
		n = n_;
		size_t bytes = n * sizeof(float), pg = 4096, body = (bytes + pg - 1) / pg * pg;
		if(body == 0) body = pg;
		maplen = body + 2 * 64 * pg;
		base = (char*) mmap(NULL, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(base == (char*) MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
		lo = base + 64 * pg; hi = lo + body;
		if(mprotect(lo, body, PROT_READ | PROT_WRITE)) { fprintf(stderr, "mprotect failed\n"); _exit(3); }
		memset(lo, 0xA5, body);
		p = (float*) (low ? lo : hi - bytes);
	}
	bool canary_ok() const {
		for(const char* c = lo; c < (char*) p; c++) if((unsigned char) *c != 0xA5) return false;
		for(const char* c = (char*) (p + n); c < hi; c++) if((unsigned char) *c != 0xA5) return false;
		return true;
	}
	void readonly(bool ro) { mprotect(lo, hi - lo, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
	~Guard() { if(base) munmap(base, maplen); }
};

// largest R with K*R*R < 2^24: products of integers in [-R,R] summed over K terms are
// exact in float whatever the order of summation
inline int exact_range(int K) {
	int R = (int) floor(sqrt(16777215.0 / (K < 1 ? 1 : K)));
	return R > 100 ? 100 : (R < 1 ? 1 : R);
}

inline void fill_int(float* a, size_t n, int R, Rng& r) {
	for(size_t i = 0; i < n; i++) a[i] = (float) r.range(-R, R);
}
inline void fill_unit(float* a, size_t n, Rng& r) {
	for(size_t i = 0; i < n; i++) a[i] = (float) (r.unit() * 2 - 1);
}
inline void fill_wide(float* a, size_t n, Rng& r) {
	for(size_t i = 0; i < n; i++) a[i] = (float) ldexp(r.unit() * 2 - 1, r.range(-20, 20));
}
inline void fill_nan(float* a, size_t n) {
	uint32_t v = 0x7fc12345u;
	for(size_t i = 0; i < n; i++) memcpy(&a[i], &v, 4);
}

// reference: row-major A (MxK), B (KxN); exact for fill_int data
inline void ref_mul(const float* A, const float* B, double* C, int M, int N, int K) {
	for(long i = 0; i < (long) M * N; i++) C[i] = 0;
	for(int m = 0; m < M; m++)
		for(int k = 0; k < K; k++) {
			double a = A[(long) m * K + k];
			const float* b = B + (long) k * N;
			double* c = C + (long) m * N;
			for(int n = 0; n < N; n++) c[n] += a * b[n];
		}
}
inline void ref_abs(const float* A, const float* B, double* C, int M, int N, int K) {
	for(long i = 0; i < (long) M * N; i++) C[i] = 0;
	for(int m = 0; m < M; m++)
		for(int k = 0; k < K; k++) {
			double a = fabs(A[(long) m * K + k]);
			const float* b = B + (long) k * N;
			double* c = C + (long) m * N;
			for(int n = 0; n < N; n++) c[n] += a * fabs(b[n]);
		}
}

inline uint64_t hash(const void* p, size_t n) {
	const unsigned char* c = (const unsigned char*) p;
	uint64_t h = 1469598103934665603ULL;
	size_t i = 0;
	for(; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, c + i, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
	for(; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	return h;
}

} // namespace vh
