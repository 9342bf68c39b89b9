// Correct product of the entry points, for any shape, team size, schedule, register
// tile, cache description and user tile sizes.
//   --mode sgemm|online|2d|2d_small|tiles|long
#include "gemm.h"
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	std::string mode = "sgemm";
	int maxd = 420;
	for(int i = 1; i + 1 < argc; i += 2) {
		if(!strcmp(argv[i], "--mode")) mode = argv[i + 1];
		if(!strcmp(argv[i], "--maxd")) maxd = atoi(argv[i + 1]);
	}
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		Case c = rnd_case(r, maxd);
		bool tiles = mode == "tiles";
		if(mode == "sgemm") { c.e = SGEMM; c.sch = (enum sched) (idx % 4); }
		else if(mode == "online") c.e = ONLINE;
		else if(mode == "2d") c.e = GRID2D;
		else if(mode == "2d_small") c.e = SMALL2D;
		else if(mode == "long") { c.e = (Entry) (idx % 6 < 3 ? 0 : idx % 6 - 2); c.sch = (enum sched) (idx / 6 % 4); }
		if(tiles) {
			c.e = (Entry) (idx % 4);
			c.sch = (enum sched) ((idx / 4) % 4);
			// every register tile the library was generated with
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
			if(c.L2 < 40 * c.mr * c.nr) c.L2 = 40 * c.mr * c.nr;   // the second level holds a few register tiles
			if(c.L3 < c.L2) c.L3 = c.L2;
			c.M = rnd_dim(r, maxd, c.mr); c.N = rnd_dim(r, maxd, c.nr);
			if(r.chance(60) && c.e != SMALL2D) {
				c.mcu = c.mr * r.range(1, 12);
				c.ncu = c.nr * r.range(1, 8);
				c.kcu = r.pick({1, 2, 3, 5, 8, 17, 32, 64, r.range(1, 150)});
			}
		}
		if(!r.chance(25)) snap_dims(c, r, maxd);
		if(idx % 15 == 14 || mode == "long") stretch_dims(c, r);
		if(mode == "long") while(c.M < 65536 && c.N < 65536 && c.K < 65536) stretch_dims(c, r);
		if(mode != "long" && idx % 41 == 40) {   // the context as the library describes this machine
			cake_cntx_t* q = base_cntx();
			c.L1 = q->L1; c.L2 = q->L2; c.L3 = q->L3; c.ncores = q->ncores;
			c.M = r.range(1, maxd * 3); c.N = r.range(1, maxd * 3); c.K = r.range(1, maxd * 2);
		}
		if(idx % 53 == 52) c.p = r.pick({40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 256, 257});
		if(mode != "long" && idx % 67 == 66) big_dims(c, r);
		bool same = idx % 29 == 28 && !c.mcu, nocntx = idx % 97 == 96;   // one matrix for both operands; no context
		if(same) c.M = c.N = c.K = r.range(1, maxd / 2);
		if(nocntx) { cake_cntx_t* q = base_cntx(); c.L1 = q->L1; c.L2 = q->L2; c.L3 = q->L3; c.ncores = q->ncores; c.mr = q->mr; c.nr = q->nr; c.mcu = c.kcu = c.ncu = 0; }
		set_case(fmt("#%d %s%s", idx, same ? "A==B " : "", nocntx ? "no context " : "") + c.str());
		Fill f = r.chance(70) ? INTS : r.chance(50) ? UNIT : WIDE;
		Bufs b(c, r.chance(30));
		fill(b, c, f, r);
		float* B = same ? b.A.p : b.B.p;
		cake_cntx_t x = make_cntx(c);
		call(c, b.A.p, B, b.C.p, nocntx ? NULL : &x);
		check_product(c, b.A.p, B, b.C.p, f, "wrong-product");
		count("judged");
		cover((same ? "same/" : nocntx ? "nocntx/" : "") + shape_class(c));
		if(idx % 50 < 2) sample(c.str());
	});
}
