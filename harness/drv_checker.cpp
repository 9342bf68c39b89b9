// The library's own judges: they must accept every right result and reject every result
// with an element off by more than the tolerance, wherever it is and whatever it is.
#include "gemm.h"
#include <omp.h>
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		int which = idx % 3;
		int M = r.pick({1, r.range(1, 9), r.range(1, 60), r.range(1, 130)}), N = r.pick({1, r.range(1, 9), r.range(1, 60), r.range(1, 130)});
		int K = r.pick({1, r.range(1, 9), r.range(1, 80), r.range(1, 400)}), p = r.range(1, 6);
		if(r.chance(4)) { M = r.range(600, 2200); N = r.range(1, 6); K = r.range(1, 20); if(r.chance(50)) std::swap(M, N); }
		if(idx % 61 == 60) { M = r.range(1, 12); N = r.range(1, 12); K = r.range(400, 9000); }   // deep
		if(idx % 149 == 148) { M = r.range(500, 1500); N = r.range(500, 1500); K = r.range(1, 4); }   // large
		int R = exact_range(K * p);
		if(R > 15) R = 15;
		size_t n = (size_t) M * N;
		Guard A((size_t) M * K), B((size_t) K * N), C(n, r.chance(50));
		std::vector<float*> parts;
		std::vector<Guard*> pg;
		std::vector<double> want(n, 0.0);
		bool real = false, odd = false;
		const char* name = which == 0 ? "cake_sgemm_checker" : which == 1 ? "mat_equals" : "add_checker";
		if(which == 2) {
			for(int i = 0; i < p; i++) {
				Guard* g = new Guard(n);
				fill_int(g->p, n, R, r);
				if(r.chance(10)) { odd = true; g->p[r.u64() % n] = r.pick({(float) NAN, (float) INFINITY, -(float) INFINITY}); }
				for(size_t q = 0; q < n; q++) want[q] += g->p[q];
				g->readonly(true);
				pg.push_back(g); parts.push_back(g->p);
			}
		} else {
			if(which == 0 && r.chance(15)) { real = true; fill_unit(A.p, A.n, r); fill_unit(B.p, B.n, r); }
			else { fill_int(A.p, A.n, R, r); fill_int(B.p, B.n, R, r); }
			if(r.chance(25)) {   // operands with zeros, NaNs and infinities that meet each other
				odd = true;
				for(int q = r.range(0, 4); q > 0; q--) A.p[r.u64() % A.n] = r.pick({0.f, 0.f, (float) NAN, (float) INFINITY, -(float) INFINITY});
				for(int q = r.range(1, 4); q > 0; q--) B.p[r.u64() % B.n] = r.pick({0.f, (float) NAN, (float) INFINITY, -(float) INFINITY});
				for(int q = r.range(0, 6); q > 0; q--) A.p[r.u64() % A.n] = 0;
				for(int m = 0; m < M; m++) if(r.chance(20)) A.p[(size_t) m * K + r.range(0, K - 1)] = 0;
			}
			ref_mul(A.p, B.p, want.data(), M, N, K);
			A.readonly(true); B.readonly(true);
		}
		std::vector<float> ref(n);
		for(size_t i = 0; i < n; i++) ref[i] = (float) want[i];
		float special = r.pick({NAN, -NAN, INFINITY, -INFINITY});
		// what is wrong with the result, if anything
		int kind = r.range(0, 9);
		size_t at = r.pick({(size_t) 0, n - 1, (size_t) (r.u64() % n), (size_t) (r.u64() % n), (size_t) N - 1, (size_t) ((M - 1) * (size_t) N)});
		for(size_t i = 0; i < n; i++) C.p[i] = ref[i];
		// the sign of a zero is no error
		bool signs = r.chance(40);
		for(size_t i = 0; signs && i < n; i++) if(C.p[i] == 0 && r.chance(50)) C.p[i] = r.chance(50) ? -0.f : 0.f;
		bool wrong = true;
		if(!std::isfinite(ref[at])) kind = r.pick({0, 10, 10});
		else if(odd) kind = r.pick({0, 1, 2, 3, 4, 5, 6});
		double mag = fabs(want[at]);
		switch(kind) {
		case 0: case 1: wrong = false; break;
		case 2:   // rounding noise well within the tolerance, where floats are fine enough
			for(size_t i = 0; i < n; i++) if(fabs(want[i]) < 256) C.p[i] += (float) ((r.unit() - 0.5) * (real ? 1e-3 : 1.8e-3));
			wrong = false; break;
		case 3: C.p[at] = special; break;
		case 4: C.p[at] += r.chance(50) ? 1 : -1; break;
		case 5: C.p[at] = mag < 256 ? C.p[at] + (r.chance(50) ? 1 : -1) * (float) (r.chance(50) ? 1.1e-3 + 1e-4 * r.unit() : 2e-3 + r.unit()) : -C.p[at]; break;
		case 6: C.p[at] = mag > 0.5 ? -C.p[at] : 3e38f; break;
		case 10:   // a number for a NaN or infinity, or one of these for another
			C.p[at] = r.pick({0.f, 3e38f, (float) NAN, (float) INFINITY, -(float) INFINITY});
			if(C.p[at] == ref[at] || (std::isnan(ref[at]) && std::isnan(C.p[at]))) C.p[at] = -1;
			break;
		case 7: for(size_t i = 0; i < n; i++) C.p[i] += r.chance(50) ? 1 : -1; break;
		case 8:   // as if never written
			if(n < 2) C.p[at] += 5; else { for(size_t i = 0; i < n; i++) C.p[i] = special; } break;
		default: {  // two elements off by opposite amounts
			C.p[at] += 7; C.p[(at + 1) % n] -= 7;
			if(n == 1) C.p[0] += 1;
			} break;
		}
		set_case(fmt("#%d %s M=%d N=%d K=%d p=%d kind=%d at=%zu", idx, name, M, N, K, p, kind, at));
		C.readonly(true);
		omp_set_num_threads(r.range(1, 4));
		bool said;
		if(which == 0) said = cake_sgemm_checker(A.p, B.p, C.p, N, M, K);
		else if(which == 1) {
			Guard E(n);
			memcpy(E.p, ref.data(), 4 * n);
			E.readonly(true);
			said = r.chance(50) ? mat_equals(C.p, E.p, M, N) : mat_equals(E.p, C.p, M, N);
			if(kind == 3 && std::isnan(special)) {   // the same NaN on both sides, or on the other
				E.readonly(false); C.readonly(false);
				E.p[at] = special; C.p[at] = ref[at];
				if(!odd && !mat_equals(C.p, E.p, M, N)) viol("accepted-wrong", "mat_equals: accepted a number for a NaN");
			}
		} else said = add_checker(parts.data(), C.p, M, N, p);
		omp_set_num_threads(1);
		if(said && !wrong) viol("rejected-right", fmt("%s rejected a right result", name));
		if(!said && wrong) viol("accepted-wrong", fmt("%s accepted C[%zu] = %g for %g", name, at, C.p[at], ref[at]));
		for(Guard* g : pg) delete g;
		count("judged");
		count(wrong ? "wrong_results" : "right_results");
		auto lev = [](int v) { return v == 1 ? 1 : v < 10 ? 2 : 3; };
		cover(fmt("%s/k%d%s%s/%d%d%d/%s", name, kind, real ? "r" : "", odd ? "o" : "", lev(M), lev(N), lev(K), at == 0 ? "first" : at == n - 1 ? "last" : "mid"));
		if(idx % 97 == 0) sample(cur());
	});
}
