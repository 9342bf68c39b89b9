// The bound functions of the linear layer, for a Python process: arguments are arrays the
// caller owns, described by their shape and strides.
#include <torch/torch.h>
#include <stdio.h>
using torch::Tensor;
void vh_bind(torch::Module& m);

static torch::Module& mod() { static torch::Module m; static bool done = (vh_bind(m), true); (void) done; return m; }
static std::vector<Tensor> results;
static std::string error;

extern "C" {
struct arr { int kind, ndim; int64_t shape[4], stride[4], off; void* data; };   // kind: 0 none, 1 float, 2 int32

int lp_arity(const char* n) { auto i = mod().g.find(n); return i == mod().g.end() ? -1 : i->second.arity; }
int lp_defaults(const char* n) { return mod().g.at(n).defaults; }
const char* lp_error() { return error.c_str(); }

// how many results there are, -1 for an exception, -2 for what the stand-in cannot do
int lp_call(const char* n, const arr* a, int na) {
	try {
		std::vector<Tensor> v;
		for(int i = 0; i < na; i++) {
			Tensor t;
			if(a[i].kind) {
				t.sz.assign(a[i].shape, a[i].shape + a[i].ndim);
				t.str.assign(a[i].stride, a[i].stride + a[i].ndim);
				t.off = a[i].off;
				if(a[i].kind == 1) t.st = std::shared_ptr<float>((float*) a[i].data, [](float*) {});
				else {
					t.ints = std::make_shared<std::vector<int64_t> >();
					for(int64_t k = 0; k < t.numel(); k++) t.ints->push_back(((int*) a[i].data)[a[i].off + k]);
					t.off = 0;
				}
			}
			v.push_back(t);
		}
		v.resize(mod().g.at(n).arity);
		results = mod().g.at(n).call(v);
		return (int) results.size();
	} catch(const torch::unsupported&) { error = "an argument of a type the stand-in does not know"; return -2; }
	catch(const std::exception& e) { error = e.what(); return -1; }
}
int lp_ndim(int i) { return results[i].defined() ? (int) results[i].dim() : -1; }
int64_t lp_size(int i, int d) { return results[i].size(d); }
void lp_read(int i, float* to) { for(int64_t k = 0; k < results[i].numel(); k++) to[k] = results[i].at(k); }
void lp_release() { results.clear(); }
}
