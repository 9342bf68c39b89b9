// GEMM cases over the public interface (cake.h).
#pragma once
#include "vh.h"
#include "cake.h"
// the library's assembler macros take these short names
#undef ah
#undef al
#undef ax
#undef bh
#undef bl
#undef bp
#undef bx
#undef ch
#undef cl
#undef cx
#undef dh
#undef di
#undef dl
#undef dx
#undef si
#undef sp
#undef st

namespace vh {

enum Entry { SGEMM = 0, ONLINE = 1, GRID2D = 2, SMALL2D = 3, NENTRY = 4 };
static const char* entry_name[] = {"sgemm", "online", "2d", "2d_small"};
static const char* sch_name[] = {"KMN", "MKN", "NKM", "NA"};

struct Case {
	Entry e = SGEMM;
	enum sched sch = NA;
	int M = 1, N = 1, K = 1, p = 1;
	int mr = MR_MIN, nr = NR_MIN;
	int L1 = 32 << 10, L2 = 1 << 20, L3 = 8 << 20, ncores = 4;
	int mcu = 0, kcu = 0, ncu = 0;
	float alpha = 1, beta = 0;
	std::string str() const {
		return fmt("%s %s M=%d N=%d K=%d p=%d mr=%d nr=%d L1=%d L2=%d L3=%d ncores=%d tiles=%d,%d,%d alpha=%g beta=%g",
			entry_name[e], sch_name[sch], M, N, K, p, mr, nr, L1, L2, L3, ncores, mcu, kcu, ncu, alpha, beta);
	}
};

// A context as the library makes it, with the hardware description of the case.
inline cake_cntx_t*& base_slot() { static cake_cntx_t* c = NULL; return c; }
inline cake_cntx_t* base_cntx() {
	if(!base_slot()) base_slot() = cake_query_cntx();
	return base_slot();
}
inline cake_cntx_t make_cntx(const Case& c) {
	cake_cntx_t x = *base_cntx();
	x.L1 = c.L1; x.L2 = c.L2; x.L3 = c.L3; x.ncores = c.ncores;
	update_mr_nr(&x, c.mr, c.nr);
	return x;
}

inline double call(const Case& c, float* A, float* B, float* C, cake_cntx_t* x,
                   bool packedA = false, bool packedB = false) {
	switch(c.e) {
	case SGEMM: return cake_sgemm(A, B, C, c.M, c.N, c.K, c.p, x, NULL, packedA, packedB, c.alpha, c.beta, c.sch, c.mcu, c.kcu, c.ncu);
	case ONLINE: return cake_sgemm_online(A, B, C, c.M, c.N, c.K, c.p, x, NULL, 0, 0, c.alpha, c.beta, c.sch, c.mcu, c.kcu, c.ncu);
	case GRID2D: return cake_sgemm_2d(A, B, C, c.M, c.N, c.K, c.p, x, NULL, 0, 0, c.alpha, c.beta, c.sch, c.mcu, c.kcu, c.ncu);
	default: return cake_sgemm_2d_small(A, B, C, c.M, c.N, c.K, c.p, x, NULL, 0, 0, c.alpha, c.beta, c.sch);
	}
}

// The plan the library would use, for choosing dimensions and for coverage only.
inline bool plan(const Case& c, blk_dims_t* b) {
	cake_cntx_t x = make_cntx(c);
	memset(b, 0, sizeof *b);
	if(c.e == GRID2D) init_block_dims_2d(c.M, c.N, c.K, c.p, b, &x, KMN, NULL, 4, c.mcu, c.kcu, c.ncu);
	else if(c.e == SMALL2D) init_block_dims_2d_small(c.M, c.N, c.K, c.p, b, &x, KMN, NULL);
	else init_block_dims(c.M, c.N, c.K, c.p, b, &x, c.e == ONLINE ? KMN : c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
	return true;
}

inline std::string shape_class(const Case& c) {
	blk_dims_t b;
	plan(c, &b);
	auto lev = [](int v) { return v <= 1 ? 1 : v == 2 ? 2 : v % 2 ? 3 : 4; };
	return fmt("%s/%s/p%d/M%d%d/N%d%d/K%d%d/pl%d/r%dx%d/t%d", entry_name[c.e], sch_name[b.sch > NA ? NA : b.sch], c.p > 6 ? 7 : c.p,
		lev(b.Mb), b.m_pad ? 1 : 0, lev(b.Nb), b.n_pad ? 1 : 0, lev(b.Kb), b.k_pad ? 1 : 0,
		(c.e == SGEMM || c.e == ONLINE) ? (b.p_l == 0 ? 0 : b.p_l < c.p ? 1 : 2) : 0, c.mr, c.nr, c.mcu ? 1 : 0);
}

inline int rnd_dim(Rng& r, int maxd, int unit) {
	int d;
	switch(r.range(0, 9)) {
	case 0: d = r.range(1, 3); break;
	case 1: d = r.range(1, 40); break;
	case 2: case 3: d = r.range(1, 130); break;
	case 4: case 5: d = unit * r.range(1, maxd / unit > 0 ? maxd / unit : 1) + r.range(-1, 1); break;
	default: d = r.range(1, maxd); break;
	}
	return d < 1 ? 1 : d > maxd ? maxd : d;
}

// Caches from the smallest for which a register tile fits up to the tests' own; small
// ones make many CB blocks out of small matrices.
inline void rnd_caches(Case& c, Rng& r) {
	if(r.chance(8)) {   // large machines
		c.L1 = r.pick({32 << 10, 64 << 10, 128 << 10});
		c.L2 = r.pick({1 << 20, 2 << 20, 4 << 20, 16 << 20});
		c.L3 = c.L2 * r.pick({1, 4, 16, 32});
		c.ncores = r.pick({4, 16, 24, 64, 128});
		return;
	}
	c.L1 = r.pick({4 << 10, 8 << 10, 16 << 10, 32 << 10, 32 << 10, 48 << 10});
	c.L2 = r.pick({8 << 10, 8 << 10, 12 << 10, 16 << 10, 24 << 10, 32 << 10, 64 << 10, 256 << 10, 1 << 20});
	c.L3 = c.L2 * r.pick({1, 2, 8, 8, 32, 64});
	c.ncores = r.pick({1, 2, 4, 4, 8, 10, 16});
}

inline Case rnd_case(Rng& r, int maxd = 400) {
	Case c;
	c.e = (Entry) r.range(0, 3);
	c.sch = (enum sched) r.range(0, 3);
	rnd_caches(c, r);
	c.p = r.chance(4) ? r.pick({11, 13, 16, 17, 24, 32, 33}) : r.pick({1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12});
	c.M = rnd_dim(r, maxd, c.mr);
	c.N = rnd_dim(r, maxd, c.nr);
	c.K = rnd_dim(r, maxd, 8);
	return c;
}

// One dimension far beyond the others, or two
inline void stretch_dims(Case& c, Rng& r) {
	int d[3] = {r.range(1, 40), r.range(1, 40), r.range(1, 40)};
	int w = r.range(0, 2);
	d[w] = r.pick({4095, 4096, 4097, 8191, 8192, 16384, r.range(1000, 30000), r.range(1000, 30000), 65535 / 2, r.range(30000, 70000),
		65536 + r.range(-1, 600), r.range(65537, 200000), r.range(65537, 200000), r.range(65537, 200000)});
	while((double) d[0] * d[1] * d[2] > 2e7 || ((double) d[0] * d[1] + (double) d[1] * d[2] + (double) d[0] * d[2]) > 3e6)
		for(int i = 0; i < 3; i++) if(i != w && d[i] > 1) d[i] = (d[i] + 1) / 2;
	if(r.chance(30)) {   // two long ones
		int v = (w + 1 + r.range(0, 1)) % 3;
		d[w] = r.range(500, 1600); d[v] = r.range(500, 1600); d[3 - w - v] = r.range(1, 9);
	}
	c.M = d[0]; c.N = d[1]; c.K = d[2];
}

// Operands of several million elements, on a machine that makes few or many blocks of them
inline void big_dims(Case& c, Rng& r) {
	int w = r.range(0, 2), d[3];
	d[w] = r.range(1, 12);
	int u = (w + 1) % 3, v = (w + 2) % 3;
	if(r.chance(50)) std::swap(u, v);
	d[u] = r.range(1000, 5000);
	d[v] = (int) (r.range(2000000, 9000000) / d[u]);
	if(r.chance(25)) { d[w] = r.range(500, 900); d[u] = r.range(500, 900); d[v] = r.range(500, 900); }
	c.M = d[0]; c.N = d[1]; c.K = d[2];
	c.mcu = c.kcu = c.ncu = 0;
	if(r.chance(60)) { c.L1 = 32 << 10; c.L2 = 1 << 20; c.L3 = 8 << 20; c.ncores = 4; c.p = r.range(1, 4); }
}

// Dimensions at, just below and just above multiples of the plan's own blocks, so that
// every combination of full, partial and absent remainder blocks comes up.
inline void snap_dims(Case& c, Rng& r, int maxd) {
	blk_dims_t b;
	plan(c, &b);
	int pm = b.pm > 0 ? b.pm : 1, pn = b.pn > 0 ? b.pn : 1;
	int um, un, uk;
	if(c.e == GRID2D || c.e == SMALL2D) { um = pm * b.m_c; un = pn * b.n_c; uk = b.k_c; }
	else if(b.sch == KMN) { um = c.p * b.m_c; un = b.n_c; uk = b.k_c; }
	else if(b.sch == MKN) { um = b.m_c; un = b.n_c; uk = c.p * b.k_c; }
	else { um = c.p * b.m_c; un = b.n_c; uk = c.p * b.k_c; }
	auto one = [&](int u, int sub, int old) {
		if(u < 1 || u > maxd || r.chance(25)) return old;
		int base = u * r.range(1, maxd / u);
		int d = base + r.pick({0, 0, -1, 1, -sub, sub, u / 2, r.range(-u, u)});
		return d < 1 ? 1 : d > maxd + sub ? maxd : d;
	};
	c.M = one(um, c.mr, c.M);
	c.N = one(un, c.nr, c.N);
	c.K = one(uk, c.p, c.K);
}

struct Bufs {
	Guard A, B, C;
	uint64_t ha, hb;
	Bufs(const Case& c, bool low = false) : A((size_t) c.M * c.K, low), B((size_t) c.K * c.N, low), C((size_t) c.M * c.N, low) {}
	void seal() { ha = hash(A.p, A.n * 4); hb = hash(B.p, B.n * 4); }
};

enum Fill { INTS, UNIT, WIDE };
inline void fill(Bufs& b, const Case& c, Fill f, Rng& r) {
	int R = exact_range(c.K);
	if(f == INTS) { fill_int(b.A.p, b.A.n, R, r); fill_int(b.B.p, b.B.n, R, r); }
	else if(f == UNIT) { fill_unit(b.A.p, b.A.n, r); fill_unit(b.B.p, b.B.n, r); }
	else { fill_wide(b.A.p, b.A.n, r); fill_wide(b.B.p, b.B.n, r); }
	fill_nan(b.C.p, b.C.n);
	b.seal();
}

// C against A*B. INTS: bitwise; otherwise the componentwise bound of a K-term float
// sum in any order: |C - AB| <= gamma_{K+1} |A||B|.
inline bool check_product(const Case& c, const float* A, const float* B, const float* C, Fill f, const char* key) {
	size_t n = (size_t) c.M * c.N;
	std::vector<double> ref(n), ab;
	ref_mul(A, B, ref.data(), c.M, c.N, c.K);
	if(f != INTS) { ab.resize(n); ref_abs(A, B, ab.data(), c.M, c.N, c.K); }
	double u = 5.9604644775390625e-8, g = (c.K + 2) * u / (1 - (c.K + 2) * u);
	for(size_t i = 0; i < n; i++) {
		bool ok = f == INTS ? (double) C[i] == ref[i] : fabs((double) C[i] - ref[i]) <= g * ab[i] + 1e-37;
		if(!ok) {
			viol(key, fmt("C[%zu][%zu] = %.9g, expected %.9g", i / c.N, i % c.N, C[i], ref[i]));
			return false;
		}
	}
	count("elements", (double) n);
	return true;
}

} // namespace vh
