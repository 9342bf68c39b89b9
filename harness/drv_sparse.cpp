// The sparse outer-product micro-kernels by themselves: C += A*B for a tile of A given by
// its non-zeros, column by column, as the generator writes them (rosko_kernels.h).
#include "vh.h"
#include "rosko_kernels.h"
typedef unsigned char idx_t;
using namespace vh;

typedef void kern(float*, float*, float*, int, int, int, idx_t*, int*, idx_t*);
struct Kern { std::string name; int mr, nr; kern* f; bool zeros_anywhere; };

template <class T> struct GuardT {   // n items of T ending at a page that cannot be read
	Guard g; T* p;
	explicit GuardT(size_t n) : g((n * sizeof(T) + 3) / 4), p((T*) ((char*) (g.p + g.n) - n * sizeof(T))) {}
};

static void one(int idx, Rng& r, const Kern& kn) {
	int mr = kn.mr, nr = kn.nr;
	int k = idx % 3 == 0 ? idx / 3 % 24 : r.pick({r.range(0, 30), r.range(0, 90), r.range(100, 1500)});
	if(idx % 51 == 50) k = r.range(1500, 70000);
	int kb = k + r.range(0, 40);   // rows of B; the columns of A that are kept name k of them
	if(kb < 1) kb = 1;
	int zeros = r.range(0, 3), density = r.pick({5, 20, 50, 80, 100});
	std::vector<int> rows;         // which rows of B, in order or not
	std::vector<int> all(kb);
	for(int i = 0; i < kb; i++) all[i] = i;
	if(r.chance(60)) for(int i = kb - 1; i > 0; i--) std::swap(all[i], all[r.range(0, i)]);
	rows.assign(all.begin(), all.begin() + k);
	std::vector<std::vector<int> > loc(k);
	for(int q = 0; q < k; q++) {
		for(int m = 0; m < mr; m++) if(r.chance(density)) loc[q].push_back(m);
		if(loc[q].empty()) loc[q].push_back(r.range(0, mr - 1));
		if(r.chance(10)) std::swap(loc[q][0], loc[q][loc[q].size() - 1]);   // any order within the column
	}
	// columns without a non-zero: at the end for the kernels that stop at them
	int nz = zeros == 0 || k == 0 ? 0 : zeros == 1 ? r.range(0, k) : zeros == 2 ? r.range(0, k < 7 ? k : 7) : r.range(0, 1);
	if(kn.zeros_anywhere && r.chance(70)) for(int i = 0; i < nz; i++) loc[r.range(0, k - 1)].clear();
	else for(int i = 0; i < nz; i++) loc[k - 1 - i].clear();
	size_t nnz = 0;
	for(auto& l : loc) nnz += l.size();
	set_case(fmt("#%d %s k=%d of %d nnz=%zu empty=%d", idx, kn.name.c_str(), k, kb, nnz, nz));

	int kind = r.range(0, 2), R = exact_range(k < 1 ? 1 : k);
	if(R > 60) R = 60;
	Guard A(nnz), B((size_t) kb * nr), C((size_t) mr * nr, r.chance(50));
	GuardT<idx_t> cnt(k), lm(nnz);
	GuardT<int> ki(k);
	auto fillp = [&](float* p, size_t n) { if(kind == 0) fill_int(p, n, R, r); else if(kind == 1) fill_unit(p, n, r); else fill_wide(p, n, r); };
	fillp(A.p, nnz); fillp(B.p, B.n);
	size_t at = 0;
	std::vector<double> D((size_t) mr * k, 0);
	for(int q = 0; q < k; q++) {
		cnt.p[q] = (idx_t) loc[q].size(); ki.p[q] = rows[q];
		for(int m : loc[q]) { D[(size_t) m * k + q] = A.p[at]; lm.p[at++] = (idx_t) m; }
	}
	std::vector<float> C0((size_t) mr * nr);
	if(kind == 0) fill_int(C0.data(), C0.size(), 1000, r); else fillp(C0.data(), C0.size());
	memcpy(C.p, C0.data(), 4 * C0.size());
	A.readonly(true); B.readonly(true); cnt.g.readonly(true); lm.g.readonly(true); ki.g.readonly(true);
	kn.f(A.p, B.p, C.p, mr, nr, k, cnt.p, ki.p, lm.p);
	double u = 5.9604644775390625e-8, g = (k + 2) * u / (1 - (k + 2) * u);
	for(int m = 0; m < mr; m++) for(int n = 0; n < nr; n++) {
		double s = C0[m * nr + n], ab = fabs(s);
		for(int q = 0; q < k; q++) { double t = D[(size_t) m * k + q] * B.p[(size_t) rows[q] * nr + n]; s += t; ab += fabs(t); }
		double got = C.p[m * nr + n];
		if(kind == 0 ? got != s : !(fabs(got - s) <= g * ab + 1e-37)) { viol("wrong-tile", fmt("C[%d][%d] = %.9g, expected %.9g", m, n, got, s)); return; }
		count("elements");
	}
	if(!C.canary_ok()) viol("tile-overrun", "wrote outside the tile");
	count("judged");
	count("empty_columns", nz);
	cover(fmt("%s/k%d/e%d/d%d/%d", kn.name.c_str(), k < 12 ? k : 12 + k % 8, nz > 2 ? 3 : nz, density, kind));
	if(idx % 97 == 0) sample(cur());
}

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	std::vector<Kern> ks;
	const int NM = sizeof kernel_map_sp / sizeof kernel_map_sp[0], NN = sizeof kernel_map_sp[0] / sizeof kernel_map_sp[0][0];
	for(int i = 0; i < NM; i++) for(int j = 0; j < NN; j++) {
		int mr = MR_MIN + MR_FACT * i, nr = NR_MIN + NR_FACT * j;
		ks.push_back({fmt("plain_%dx%d", mr, nr), mr, nr, (kern*) kernel_map_sp[i][j], false});
		ks.push_back({fmt("new_%dx%d", mr, nr), mr, nr, (kern*) kernel_map_sp_new[i][j], true});
	}
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) { one(idx, r, ks[idx % ks.size()]); });
}
