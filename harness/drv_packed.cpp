// Pre-packed operands and the packing interface.
//   --mode use     operands packed once, used by cake_sgemm in every combination: the
//                  bits of the unpacked call, operands untouched and still the caller's
//   --mode layout  packing moves every element exactly once into the announced size
#include "gemm.h"
using namespace vh;

// bytes bytes, 64-aligned, ending at (or less than 64 bytes before) an inaccessible page
struct PackBuf {
	Guard g; float* p; size_t n;
	PackBuf(size_t bytes) : g(((bytes + 63) / 64) * 16), p(g.p), n(bytes / 4) {
		for(size_t i = 0; i < g.n; i++) { uint32_t v = 0x7fbadbad; memcpy(&g.p[i], &v, 4); }
	}
	static bool hole(float f) { uint32_t v; memcpy(&v, &f, 4); return (v & 0xff3fffff) == (0x7fbadbad & 0xff3fffff); }
	bool slack_ok() const { for(size_t i = n; i < g.n; i++) if(!hole(g.p[i])) return false; return true; }
};

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	bool use = true;
	int maxd = 260;
	for(int i = 1; i + 1 < argc; i += 2) {
		if(!strcmp(argv[i], "--mode")) use = !strcmp(argv[i + 1], "use");
		if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	}
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		c.e = SGEMM;
		c.sch = (enum sched) (idx % 4);
		if(r.chance(40)) {
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
		}
		if(r.chance(30)) { c.mcu = c.mr * r.range(1, 6); c.ncu = c.nr * r.range(1, 4); c.kcu = r.range(1, 60); }
		if(!r.chance(25)) snap_dims(c, r, maxd);
		set_case(fmt("#%d ", idx) + c.str());
		cake_cntx_t x = make_cntx(c);
		blk_dims_t b;
		memset(&b, 0, sizeof b);
		init_block_dims(c.M, c.N, c.K, c.p, &b, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
		enum sched sch = b.sch;
		omp_set_num_threads(c.p);
		size_t sa = cake_sgemm_packed_A_size(c.M, c.K, c.p, &b, &x, sch);
		size_t sb = cake_sgemm_packed_B_size(c.K, c.N, c.p, &b, &x);
		size_t sc = cake_sgemm_packed_C_size(c.M, c.N, c.p, &b, &x, sch);
		PackBuf Ap(sa), Bp(sb);
		if(use) {
			Bufs m(c, r.chance(30));
			bool ints = r.chance(40);
			fill(m, c, ints ? INTS : UNIT, r);
			pack_A(m.A.p, Ap.p, c.M, c.K, c.p, &b, &x, sch);
			pack_B(m.B.p, Bp.p, c.K, c.N, c.p, &b, &x, sch);
			if(!Ap.slack_ok() || !Bp.slack_ok()) viol("pack-overrun", "packing wrote past the announced size");
			if(r.chance(40)) { c.alpha = r.pick({2.f, -1.f, 0.5f}); c.beta = r.pick({0.f, 1.f, -2.f}); }
			std::vector<float> C0(m.C.n), want;
			fill_int(C0.data(), C0.size(), 50, r);
			set_case(fmt("#%d ", idx) + c.str());
			uint64_t ha = hash(Ap.p, sa), hb = hash(Bp.p, sb);
			Ap.g.readonly(true); Bp.g.readonly(true); m.A.readonly(true); m.B.readonly(true);
			// unpacked, then the packed combinations, some twice: buffers stay usable
			int combos[] = {0, 3, 1, 2, 3};
			for(int k = 0; k < 5; k++) {
				bool pa = combos[k] & 1, pb = combos[k] & 2;
				memcpy(m.C.p, C0.data(), 4 * C0.size());
				cake_cntx_t y = make_cntx(c);
				set_case(fmt("#%d packedA=%d packedB=%d ", idx, pa, pb) + c.str());
				call(c, pa ? Ap.p : m.A.p, pb ? Bp.p : m.B.p, m.C.p, &y, pa, pb);
				if(k == 0) {
					want.assign(m.C.p, m.C.p + m.C.n);
					if(ints && c.alpha == 1 && c.beta == 0) check_product(c, m.A.p, m.B.p, m.C.p, INTS, "wrong-product");
				} else if(memcmp(want.data(), m.C.p, 4 * want.size())) {
					size_t i = 0;
					while(!memcmp(&want[i], &m.C.p[i], 4)) i++;
					viol("packed-differs", fmt("C[%zu][%zu] = %.9g, unpacked call gives %.9g", i / c.N, i % c.N, m.C.p[i], want[i]));
					break;
				}
				count("calls");
			}
			if(ha != hash(Ap.p, sa) || hb != hash(Bp.p, sb)) viol("packed-modified", "a packed operand was changed");
			if(!Ap.slack_ok() || !Bp.slack_ok()) viol("pack-overrun", "slack after a packed operand was changed");
			count("judged");
			cover(shape_class(c));
		} else {
			// a unique id per element, exact in float
			auto ids = [&](Guard& g) { for(size_t i = 0; i < g.n; i++) g.p[i] = (float) (i + 1); };
			auto judge = [&](const char* what, PackBuf& P, size_t elems) {
				std::vector<unsigned char> seen(elems + 1, 0);
				size_t zeros = 0, holes = 0;
				for(size_t i = 0; i < P.n; i++) {
					float f = P.p[i];
					if(PackBuf::hole(f)) { holes++; continue; }
					if(f == 0) { zeros++; continue; }
					if(!(f >= 1 && f <= (double) elems) || f != floorf(f)) { viol("pack-invents", fmt("%s: value %g is not from the matrix", what, f)); return; }
					if(seen[(size_t) f]++) { viol("pack-duplicates", fmt("%s: element %g packed twice", what, f)); return; }
				}
				for(size_t i = 1; i <= elems; i++) if(!seen[i]) { viol("pack-drops", fmt("%s: element %zu of %zu is not packed", what, i, elems)); return; }
				if(holes) viol("pack-holes", fmt("%s: %zu of %zu packed floats left uninitialised", what, holes, P.n));
				if(!P.slack_ok()) viol("pack-overrun", fmt("%s: wrote past the announced size", what));
				count("packed_floats", P.n);
				count("padding", zeros);
			};
			Guard A((size_t) c.M * c.K, r.chance(30)), B((size_t) c.K * c.N, r.chance(30)), C((size_t) c.M * c.N, r.chance(30)), D((size_t) c.M * c.N, r.chance(30));
			ids(A); ids(B); ids(C);
			pack_A(A.p, Ap.p, c.M, c.K, c.p, &b, &x, sch);
			judge("pack_A", Ap, A.n);
			pack_B(B.p, Bp.p, c.K, c.N, c.p, &b, &x, sch);
			judge("pack_B", Bp, B.n);
			PackBuf Cp(sc);
			pack_C(C.p, Cp.p, c.M, c.N, c.p, &b, &x, sch);
			judge("pack_C", Cp, C.n);
			fill_nan(D.p, D.n);
			Cp.g.readonly(true);
			unpack_C(D.p, Cp.p, c.M, c.N, c.p, &b, &x, sch);
			if(memcmp(C.p, D.p, 4 * C.n)) {
				size_t i = 0;
				while(!memcmp(&C.p[i], &D.p[i], 4)) i++;
				viol("roundtrip", fmt("unpack_C(pack_C(C))[%zu][%zu] = %g, not %g", i / c.N, i % c.N, D.p[i], C.p[i]));
			}
			if(!D.canary_ok()) viol("unpack-overrun", "unpack_C wrote outside C");
			count("judged");
			cover(shape_class(c));
		}
		if(idx % 50 < 2) sample(c.str());
	});
}
