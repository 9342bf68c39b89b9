// The linear layer's forward and backward passes, called as they are bound, over a
// stand-in for the tensor library, judged against their definition; what they take from
// the heap is given back.
#include "vh.h"
#include <torch/torch.h>
#ifdef ALLOC_MON
#include "alloc_mon.h"
#endif
using namespace vh;
using torch::Tensor;
void vh_bind(torch::Module& m);
typedef Tensor fwd(Tensor&, Tensor&, Tensor&, const Tensor&);
typedef std::vector<Tensor> bwd(Tensor&, Tensor&, Tensor&, Tensor&, const Tensor&);

// r x c, contiguous or a transposed view
static Tensor mat(int r_, int c_, int R, Rng& r) {
	bool tr = r.chance(30);
	Tensor t = tr ? Tensor::empty({c_, r_}) : Tensor::empty({r_, c_});
	fill_int(t.st.get(), t.numel(), R, r);
	return tr ? t.t() : t;
}
static bool same(const char* what, const Tensor& got, const std::vector<double>& want, std::vector<int64_t> shape) {
	if(!got.defined()) { viol("wrong-layer", fmt("%s is undefined", what)); return false; }
	if(got.sizes() != shape) { viol("wrong-shape", fmt("%s has the wrong shape", what)); return false; }
	for(size_t i = 0; i < want.size(); i++)
		if((double) got.at(i) != want[i]) { viol("wrong-layer", fmt("%s[%zu] = %g, expected %g", what, i, got.at(i), want[i])); return false; }
	count("elements", (double) want.size());
	return true;
}
static std::vector<double> vals(const Tensor& t) { std::vector<double> v(t.numel()); for(size_t i = 0; i < v.size(); i++) v[i] = t.at(i); return v; }

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	torch::Module m;
	vh_bind(m);
	fwd* forward = std::any_cast<fwd*>(m.f.at("forward"));
	bwd* backward = std::any_cast<bwd*>(m.f.at("backward"));
	return run_cases(argc, argv, 100, [&](int idx, Rng& r) {
		auto d = [&]() { return r.pick({1, r.range(1, 12), r.range(1, 70), r.range(1, 150), 16 * r.range(1, 8), 6 * r.range(1, 20)}); };
		int batch = d(), in = d(), outf = d();
		bool bias = r.chance(60);
		int L2 = r.pick({16 << 10, 32 << 10, 256 << 10, 1 << 20}), L3 = L2 * r.pick({1, 8, 20});
		set_case(fmt("#%d %s batch=%d in=%d out=%d bias=%d L2=%d L3=%d", idx, idx % 2 ? "backward" : "forward", batch, in, outf, bias, L2, L3));
		Tensor sizes = Tensor::of_ints({L2, L3});
		int R = exact_range(in + outf + batch);
		if(R > 20) R = 20;
		Tensor x = mat(batch, in, R, r), w = mat(outf, in, R, r), g = mat(batch, outf, R, r), b;
		if(bias) { b = Tensor::empty({outf}); fill_int(b.st.get(), outf, 50, r); }
		std::vector<double> vx = vals(x), vw = vals(w), vg = vals(g), vb = bias ? vals(b) : std::vector<double>();
		Tensor x0 = x, w0 = w, g0 = g, b0 = b;
		if(idx % 2 == 0) {
			std::vector<double> y((size_t) batch * outf);
			for(int i = 0; i < batch; i++) for(int o = 0; o < outf; o++) {
				double s = bias ? vb[o] : 0;
				for(int k = 0; k < in; k++) s += vx[(size_t) i * in + k] * vw[(size_t) o * in + k];
				y[(size_t) i * outf + o] = s;
			}
			Tensor got = forward(sizes, x, w, b);
			same("output", got, y, {batch, outf});
		} else {
			std::vector<double> gx((size_t) batch * in, 0), gw((size_t) outf * in, 0), gb(outf, 0);
			for(int i = 0; i < batch; i++) for(int o = 0; o < outf; o++) {
				double v = vg[(size_t) i * outf + o];
				gb[o] += v;
				for(int k = 0; k < in; k++) { gx[(size_t) i * in + k] += v * vw[(size_t) o * in + k]; gw[(size_t) o * in + k] += v * vx[(size_t) i * in + k]; }
			}
			std::vector<Tensor> got = backward(sizes, g, x, w, b);
			if(got.size() != 3) { viol("wrong-layer", "backward does not give three gradients"); return; }
			bool ok = same("input gradient", got[0], gx, {batch, in}) && same("weight gradient", got[1], gw, {outf, in});
			if(ok && bias) same("bias gradient", got[2], gb, {outf});
			if(!bias && got[2].defined()) viol("wrong-layer", "gradient for a bias that is not there");
		}
		if(vals(x0) != vx || vals(w0) != vw || vals(g0) != vg || (bias && vals(b0) != vb)) viol("operand-changed", "an operand's elements changed");
#ifdef ALLOC_MON
		if(idx % 10 < 2) {   // and again: what a pass takes it gives back with its results
			long live[4];
			Tensor y0 = mat(batch % 7 + 1, in, R, r), h0 = mat(batch % 7 + 1, outf, R, r);   // another batch in between
			for(int k = 0; k < 4; k++) {
				for(int o = 0; o < 2; o++) {
					Tensor x1 = o ? y0 : x0, w1 = w0, g1 = o ? h0 : g0;
					if(idx % 2 == 0) forward(sizes, x1, w1, b); else backward(sizes, g1, x1, w1, b);
				}
				alloc_stat_t st;
				alloc_mon_read(&st);
				live[k] = st.live_blocks;
			}
			count("repetitions", 8);
			if(live[1] > live[0] && live[2] > live[1] && live[3] > live[2]) viol("heap-grows", fmt("%ld, %ld, %ld, %ld blocks after each pass", live[0], live[1], live[2], live[3]));
		}
#endif
		count("judged");
		auto lev = [](int v) { return v == 1 ? 0 : v < 12 ? 1 : v % 16 == 0 ? 2 : v % 6 == 0 ? 3 : 4; };
		cover(fmt("%d/%d%d%d/b%d/%d%d%d", idx % 2, lev(batch), lev(in), lev(outf), bias, x0.is_contiguous(), w0.is_contiguous(), g0.is_contiguous()));
		if(idx % 97 < 2) sample(cur());
	});
}
