// The block plans, for any problem on any machine: cover the problem exactly, are made
// of whole register tiles, use at most the threads there are, keep to the caches they
// are derived from, honour what the caller fixed, and are a function of their input.
#include "gemm.h"
using namespace vh;

static int up(long a, long b) { return (int) ((a + b - 1) / b); }

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	base_cntx();
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		for(int rep = 0; rep < 40; rep++) {
			Case c = rnd_case(r, 400);
			int scale = r.pick({30, 400, 3000, 3000, 40000, 1000000});
			c.M = rnd_dim(r, scale, c.mr); c.N = rnd_dim(r, scale, c.nr); c.K = rnd_dim(r, scale, 8);
			c.L1 = r.pick({4 << 10, 8 << 10, 16 << 10, 32 << 10, 48 << 10, 64 << 10, 128 << 10, r.range(4096, 140000)});
			c.L2 = r.pick({8 << 10, 16 << 10, 64 << 10, 256 << 10, 512 << 10, 1 << 20, 2 << 20, 16 << 20, r.range(8192, 3000000)});
			c.L3 = (long) c.L2 * r.range(1, 64) > INT32_MAX ? c.L2 : c.L2 * r.range(1, 64);
			c.ncores = r.chance(60) ? r.range(1, 16) : r.range(1, 128);
			c.p = r.chance(70) ? r.range(1, c.ncores) : r.range(1, 64);
			c.mr = MR_MIN + MR_FACT * r.range(0, (int) (sizeof kernel_map / sizeof kernel_map[0]) - 1);
			c.nr = NR_MIN + NR_FACT * r.range(0, (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]) - 1);
			// planning takes any register tile, of kernels generated here or not
			if(r.chance(40)) { c.mr = r.range(1, 56); c.nr = r.range(1, 112); while(40 * c.mr * c.nr > c.L2 || 40 * c.mr * c.mr > c.L2 || 8 * (c.mr + 2) * (c.nr + 2) > c.L1) c.mr = (c.mr + 1) / 2, c.nr = (c.nr + 1) / 2; }
			c.e = (Entry) r.pick({0, 0, 0, 2, 2, 3});
			c.sch = (enum sched) r.range(0, 3);
			if(c.e != SMALL2D && r.chance(25)) { c.mcu = c.mr * r.range(1, 40); c.ncu = c.nr * r.range(1, 20); c.kcu = r.range(1, 400); }
			set_case(fmt("#%d.%d ", idx, rep) + c.str());
			blk_dims_t b, b2;
			plan(c, &b);
			cake_cntx_t x = make_cntx(c);
			// the same problem once more on a used context, over different leftovers
			memset(&b2, 0, sizeof b2);
			x.alpha_n = 3.7;
			if(c.e == GRID2D) init_block_dims_2d(c.M, c.N, c.K, c.p, &b2, &x, KMN, NULL, 4, c.mcu, c.kcu, c.ncu);
			else if(c.e == SMALL2D) init_block_dims_2d_small(c.M, c.N, c.K, c.p, &b2, &x, KMN, NULL);
			else init_block_dims(c.M, c.N, c.K, c.p, &b2, &x, c.sch, NULL, 4, c.mcu, c.kcu, c.ncu);
			if(memcmp(&b, &b2, sizeof b)) { viol("plan-not-a-function", "two plans of one problem differ"); continue; }
			int mr = c.mr, nr = c.nr, p = c.p;
			bool user = c.mcu != 0;
			auto bad = [&](const char* key, const char* what) {
				viol(key, fmt("%s: sch=%d m_c=%d k_c=%d n_c=%d m_c1=%d/%d n_c1=%d/%d k_c1=%d/%d p_l=%d pm=%d/%d pn=%d/%d Mb=%d Nb=%d Kb=%d rem=%d,%d,%d", what,
					b.sch, b.m_c, b.k_c, b.n_c, b.m_c1, b.m_c1_last_core, b.n_c1, b.n_c1_last_core, b.k_c1, b.k_c1_last_core, b.p_l, b.pm, b.pm_l, b.pn, b.pn_l, b.Mb, b.Nb, b.Kb, b.mr_rem, b.nr_rem, b.k_rem));
			};
			if(b.m_c < 1 || b.k_c < 1 || b.n_c < 1) { bad("empty-block", "block of no size"); continue; }
			if(b.m_c % mr || b.n_c % nr) { bad("tile-multiple", "blocks are not whole register tiles"); continue; }
			// what covers a dimension: full units, and in the last block rem of something
			auto dim = [&](long D, long unit, int blocks, int pad) { return (D % unit ? 1 : 0) == pad && D / unit + pad == blocks && blocks >= 1; };
			// T tiles shared out: all but the last take `each`, the last `last`
			auto shares = [&](long rem, int each, int n, int last, int lim) {
				if(rem == 0) return n == 0;
				return n >= 1 && n <= lim && each > 0 && last > 0 && last <= each && (long) each * (n - 1) + last == rem;
			};
			double f4 = 4.0;
			if(c.e == SGEMM) {
				if(c.sch == NA ? !(b.sch == KMN || b.sch == MKN || b.sch == NKM) : b.sch != c.sch) { bad("schedule", "not the schedule asked for"); continue; }
				// (a last-level cache too small for one register tile per core leaves nothing to model)
				if(c.sch == NA && !user && (int) sqrt((c.L3 / 8.0) / (c.ncores * (2.0 + c.ncores))) >= mr) {
					// external traffic of square CB blocks of side s: partial results of C go out
					// and back per K block in the M- and N-first orders, once in the K-first one
					Case k = c; k.sch = KMN;
					blk_dims_t bk;
					plan(k, &bk);
					double s = (double) p * bk.m_c, M = c.M, N = c.N, K = c.K, v = M * N * K / s;
					double cost[3] = {2 * M * N + 2 * v, K * N + 3 * v, K * M + 3 * v};
					double best = fmin(cost[0], fmin(cost[1], cost[2]));
					if(cost[b.sch] > best * 1.0005) { bad("traffic", fmt("traffic %.0f %.0f %.0f for K-, M-, N-first", cost[0], cost[1], cost[2]).c_str()); continue; }
					count("automatic_schedules");
					count(b.sch == KMN ? "chose_KMN" : b.sch == MKN ? "chose_MKN" : "chose_NKM");
				}
				if(user && (b.m_c != c.mcu || b.k_c != c.kcu || b.n_c != c.ncu)) { bad("user-tiles", "not the caller's tile sizes"); continue; }
				long um = b.sch == MKN ? b.m_c : (long) p * b.m_c, uk = b.sch == KMN ? b.k_c : (long) p * b.k_c, un = b.n_c;
				if(!dim(c.M, um, b.Mb, b.m_pad) || !dim(c.N, un, b.Nb, b.n_pad) || !dim(c.K, uk, b.Kb, b.k_pad)) { bad("coverage", "block counts do not cover the problem"); continue; }
				if(b.mr_rem != up(c.M % um, mr) || b.nr_rem != up(c.N % un, nr) || b.n_c1 != b.nr_rem * nr) { bad("remainder", "remainder tiles"); continue; }
				if(b.M_padded != (c.M / um) * um + (long) b.mr_rem * mr || b.N_padded != (c.N / un) * un + b.n_c1) { bad("padding", "padded sizes"); continue; }
				if(b.sch == KMN) {
					if(!shares((long) b.mr_rem * mr, b.m_c1, b.p_l, b.m_c1_last_core, p) || b.k_c1 != c.K % b.k_c) { bad("shares", "the last block's shares"); continue; }
				} else if(!shares(c.K % uk, b.k_c1, b.p_l, b.k_c1_last_core, p) || b.m_c1 != b.mr_rem * mr) { bad("shares", "the last block's shares"); continue; }
				if(!user && b.sch != NKM) {
					// half of L2 for a core's block and the panels streamed past it
					if((double) b.m_c * b.k_c * f4 + 2.0 * b.k_c * nr * f4 > c.L2 / 2.0) { bad("L2-fit", "block and panels exceed half of L2"); continue; }
					// half of L3 for the CB block, where L2 is not what limits it
					cake_cntx_t y = make_cntx(c);
					int m2 = ((int) ((-2 * nr + sqrt(4.0 * nr * nr + 4 * (c.L2 / 8.0))) / 2.0)), m3 = (int) sqrt((c.L3 / 8.0) / (c.ncores * (2.0 + c.ncores)));
					m2 -= m2 % mr; m3 -= m3 % mr;
					if(b.sch == KMN && p <= c.ncores && m3 >= m2 && b.n_c > nr) {
						double cb = (double) p * b.m_c * b.k_c + (double) b.k_c * b.n_c + (double) p * b.m_c * b.n_c;
						if(cb * f4 > c.L3 / 2.0) { bad("L3-fit", "CB block exceeds half of L3"); continue; }
						count("L3_judged");
					}
					count("L2_judged");
				}
			} else {
				int g = grid_dims_2d(c.M, c.N, c.K, p, c.ncores);
				if(g < 1 || g > p || p % g) { bad("grid", fmt("%d columns of cores do not divide %d", g, p).c_str()); continue; }
				double want = sqrt((double) p * c.N / c.M);
				want = want < 1 ? 1 : want > p ? p : want;
				for(int d = 1; d <= p; d++) if(p % d == 0 && fabs(d - want) + 1.0001 < fabs(g - want)) { bad("grid", fmt("%d columns of cores, %d is nearer to the square root of pN/M", g, d).c_str()); break; }
				if(b.pm < 1 || b.pn < 1 || (long) b.pm * b.pn > p) { bad("grid", "grid larger than the team"); continue; }
				if(!user || c.e == SMALL2D) if(((double) mr * b.k_c + (double) b.k_c * nr + mr * nr) * f4 > c.L1) { bad("L1-fit", "register panels exceed L1"); continue; }
				if(c.e == GRID2D) {
					long um = (long) b.pm * b.m_c, un = (long) b.pn * b.n_c;
					if(!dim(c.M, um, b.Mb, b.m_pad) || !dim(c.N, un, b.Nb, b.n_pad) || !dim(c.K, b.k_c, b.Kb, b.k_pad)) { bad("coverage", "block counts do not cover the problem"); continue; }
					if(!shares((long) up(c.M % um, mr) * mr, b.m_c1, b.pm_l, b.m_c1_last_core, b.pm) || !shares((long) up(c.N % un, nr) * nr, b.n_c1, b.pn_l, b.n_c1_last_core, b.pn)) { bad("shares", "the last block's shares"); continue; }
					if(b.k_c1 != c.K % b.k_c) { bad("remainder", "k remainder"); continue; }
					// blocks the caller fixed, but none larger than its core's share of the matrix
					if(user) {
						auto kept = [](int got, int want, long D, int tile, int n) {
							long Dp = up(D, tile) * (long) tile;
							return got == want || (got < want && Dp < (long) n * want) || (Dp == (long) n * tile && got == tile);
						};
						if(b.k_c != c.kcu || !kept(b.m_c, c.mcu, c.M, mr, p / g) || !kept(b.n_c, c.ncu, c.N, nr, g)) { bad("user-tiles", "not the caller's tile sizes"); continue; }
						count("user_tiles_2d");
					}
				} else {
					if((long) b.pm * b.m_c < c.M || (long) (b.pm - 1) * b.m_c >= c.M || (long) b.pn * b.n_c < c.N || (long) (b.pn - 1) * b.n_c >= c.N) { bad("coverage", "the grid does not cover C, or a core has nothing"); continue; }
					if(!dim(c.K, b.k_c, b.Kb, b.k_pad)) { bad("coverage", "k blocks"); continue; }
				}
			}
			count("judged");
			auto lev = [](int v) { return v <= 1 ? 1 : v == 2 ? 2 : 3; };
			if(rep < 12) cover(fmt("e%d/s%d/M%d%d/N%d%d/K%d%d/u%d/%dx%d/p%d", c.e, b.sch, lev(b.Mb), b.m_pad, lev(b.Nb), b.n_pad, lev(b.Kb), b.k_pad, user, mr, nr, p > c.ncores ? 9 : p > 4 ? 5 : p));
			if(idx % 100 == 0 && rep == 0) sample(fmt("m_c=%d k_c=%d n_c=%d blocks %d,%d,%d ", b.m_c, b.k_c, b.n_c, b.Mb, b.Nb, b.Kb) + c.str());
		}
	});
}
