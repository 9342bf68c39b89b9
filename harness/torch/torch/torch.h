// A stand-in for the parts of the tensor library that a linear layer needs: strided float
// tensors over shared storage of exactly their size. Semantics as documented by PyTorch.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <any>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace torch {
enum ScalarType { kFloat32, kFloat = kFloat32, kInt32, kInt = kInt32, kInt64, kLong = kInt64 };
enum DeviceType { kCPU };
struct Device { DeviceType t; Device(DeviceType d = kCPU) : t(d) {} bool is_cpu() const { return true; } bool is_cuda() const { return false; } };
struct NoneType {};
#define TORCH_CHECK(c, ...) do { if(!(c)) throw std::runtime_error("check failed: " #c); } while(0)
#define AT_ASSERTM TORCH_CHECK
struct TensorOptions {
	TensorOptions dtype(ScalarType) const { return *this; }
	TensorOptions device(Device) const { return *this; }
	TensorOptions requires_grad(bool) const { return *this; }
	TensorOptions() {}
	TensorOptions(ScalarType) {}
};
typedef std::vector<int64_t> IntArrayRef;
typedef IntArrayRef IntList;

class Tensor {
public:
	std::shared_ptr<float> st;        // storage of numbers
	std::shared_ptr<std::vector<int64_t> > ints;   // or of integers
	std::vector<int64_t> sz, str;
	int64_t off = 0;

	Tensor() {}
	static Tensor empty(IntArrayRef s) {
		Tensor t;
		t.sz = s; t.contig();
		float* p = (float*) malloc(t.numel() ? t.numel() * 4 : 1);
		if(!p) throw std::bad_alloc();
		t.st = std::shared_ptr<float>(p, free);
		return t;
	}
	static Tensor of_ints(std::vector<int64_t> v) {
		Tensor t;
		t.sz = {(int64_t) v.size()}; t.contig();
		t.ints = std::make_shared<std::vector<int64_t> >(v);
		return t;
	}
	void contig() { str.assign(sz.size(), 1); for(int i = (int) sz.size() - 2; i >= 0; i--) str[i] = str[i + 1] * sz[i + 1]; }
	bool defined() const { return st || ints; }
	int64_t dim() const { return (int64_t) sz.size(); }
	int64_t numel() const { int64_t n = 1; for(auto s : sz) n *= s; return n; }
	int64_t size(int64_t d) const { if(d < 0) d += dim(); return sz.at(d); }
	IntArrayRef sizes() const { return sz; }
	bool is_contiguous() const { Tensor t = *this; t.contig(); for(size_t i = 0; i < sz.size(); i++) if(sz[i] != 1 && t.str[i] != str[i]) return false; return true; }
	float& at(int64_t flat) const {
		int64_t o = off;
		for(int i = (int) sz.size() - 1; i >= 0; i--) { o += flat % sz[i] * str[i]; flat /= sz[i]; }
		return st.get()[o];
	}
	Tensor clone() const { Tensor t = empty(sz); for(int64_t i = 0; i < numel(); i++) t.at(i) = at(i); return t; }
	Tensor contiguous() const { return is_contiguous() ? *this : clone(); }
	Tensor reshape(IntArrayRef s) const {
		int64_t known = 1; int infer = -1;
		for(size_t i = 0; i < s.size(); i++) if(s[i] < 0) infer = (int) i; else known *= s[i];
		if(infer >= 0) s[infer] = numel() / known;
		int64_t n = 1; for(auto v : s) n *= v;
		if(n != numel()) throw std::runtime_error("shape is invalid for input");
		Tensor t = contiguous();
		t.sz = s; t.contig();
		return t;
	}
	Tensor view(IntArrayRef s) const { if(!is_contiguous()) throw std::runtime_error("view of a strided tensor"); return reshape(s); }
	Tensor t() const { Tensor r = *this; if(dim() == 2) { std::swap(r.sz[0], r.sz[1]); std::swap(r.str[0], r.str[1]); } return r; }
	Tensor transpose(int a, int b) const { Tensor r = *this; std::swap(r.sz[a], r.sz[b]); std::swap(r.str[a], r.str[b]); return r; }
	template <class T = float> T* data_ptr() const { if(ints || !std::is_same_v<T, float>) throw std::runtime_error("expected another scalar type"); return st.get() + off; }
	template <class T> T* data() const { return data_ptr<T>(); }
	template <class T> const T* const_data_ptr() const { return data_ptr<T>(); }
	template <class T> T* mutable_data_ptr() const { return data_ptr<T>(); }
	template <class T, int N> struct Accessor {
		T* p; const int64_t *z, *s;
		decltype(auto) operator[](int64_t i) const { if constexpr(N == 1) return (p[i * s[0]]); else return Accessor<T, N - 1>{p + i * s[0], z + 1, s + 1}; }
		int64_t size(int64_t d) const { return z[d]; }
		T* data() const { return p; }
	};
	template <class T, int N> Accessor<T, N> accessor() const { return {data_ptr<T>(), sz.data(), str.data()}; }
	int64_t stride(int64_t d) const { if(d < 0) d += dim(); return str.at(d); }
	IntArrayRef strides() const { return str; }
	int64_t storage_offset() const { return off; }
	int64_t ndimension() const { return dim(); }
	int64_t element_size() const { return 4; }
	size_t nbytes() const { return 4 * numel(); }
	ScalarType scalar_type() const { return ints ? kInt32 : kFloat32; }
	ScalarType dtype() const { return scalar_type(); }
	Device device() const { return Device(); }
	bool is_cuda() const { return false; }
	bool requires_grad() const { return false; }
	TensorOptions options() const { return TensorOptions(); }
	Tensor detach() const { return *this; }
	Tensor cpu() const { return *this; }
	Tensor to(ScalarType) const { return *this; }
	Tensor to(Device) const { return *this; }
	Tensor to(TensorOptions) const { return *this; }
	Tensor flatten() const { return reshape({numel()}); }
	Tensor permute(IntArrayRef d) const { Tensor r = *this; for(size_t i = 0; i < d.size(); i++) r.sz[i] = sz[d[i]], r.str[i] = str[d[i]]; return r; }
	Tensor& t_() { return *this = t(); }
	Tensor unsqueeze(int64_t d) const { Tensor r = *this; if(d < 0) d += dim() + 1; r.sz.insert(r.sz.begin() + d, 1); r.str.insert(r.str.begin() + d, 1); return r; }
	Tensor squeeze(int64_t d) const { Tensor r = *this; if(d < 0) d += dim(); if(sz[d] == 1) { r.sz.erase(r.sz.begin() + d); r.str.erase(r.str.begin() + d); } return r; }
	Tensor select(int64_t d, int64_t i) const { Tensor r = *this; if(d < 0) d += dim(); r.off += i * str.at(d); r.sz.erase(r.sz.begin() + d); r.str.erase(r.str.begin() + d); return r; }
	Tensor narrow(int64_t d, int64_t from, int64_t n) const { Tensor r = *this; if(d < 0) d += dim(); r.off += from * str.at(d); r.sz.at(d) = n; return r; }
	Tensor slice(int64_t d, int64_t from, int64_t to) const { return narrow(d, from, to - from); }
	Tensor expand(IntArrayRef s) const {
		Tensor r = *this;
		while(r.sz.size() < s.size()) { r.sz.insert(r.sz.begin(), 1); r.str.insert(r.str.begin(), 0); }
		for(size_t i = 0; i < s.size(); i++) if(s[i] >= 0 && r.sz[i] != s[i]) { if(r.sz[i] != 1) throw std::runtime_error("expand"); r.sz[i] = s[i]; r.str[i] = 0; }
		return r;
	}
	Tensor expand_as(const Tensor& o) const { return expand(o.sz); }
	Tensor view_as(const Tensor& o) const { return view(o.sz); }
	Tensor reshape_as(const Tensor& o) const { return reshape(o.sz); }
	Tensor& fill_(float v) { for(int64_t i = 0; i < numel(); i++) at(i) = v; return *this; }
	Tensor& zero_() { return fill_(0); }
	Tensor& copy_(const Tensor& o) { Tensor e = o.expand(sz); for(int64_t i = 0; i < numel(); i++) at(i) = e.at(i); return *this; }
	template <class F> Tensor zip(const Tensor& o, F f) const {   // broadcast elementwise
		size_t n = sz.size() > o.sz.size() ? sz.size() : o.sz.size();
		IntArrayRef s(n);
		for(size_t i = 0; i < n; i++) {
			int64_t a = i + sz.size() < n ? 1 : sz[i + sz.size() - n], b = i + o.sz.size() < n ? 1 : o.sz[i + o.sz.size() - n];
			if(a != b && a != 1 && b != 1) throw std::runtime_error("shapes do not broadcast");
			s[i] = a == 1 ? b : a;
		}
		Tensor x = expand(s), y = o.expand(s), r = empty(s);
		for(int64_t i = 0; i < r.numel(); i++) r.at(i) = f(x.at(i), y.at(i));
		return r;
	}
	Tensor operator+(const Tensor& o) const { return zip(o, [](float a, float b) { return a + b; }); }
	Tensor operator-(const Tensor& o) const { return zip(o, [](float a, float b) { return a - b; }); }
	Tensor operator*(const Tensor& o) const { return zip(o, [](float a, float b) { return a * b; }); }
	Tensor operator*(float v) const { Tensor r = clone(); for(int64_t i = 0; i < numel(); i++) r.at(i) *= v; return r; }
	Tensor operator+(float v) const { Tensor r = clone(); for(int64_t i = 0; i < numel(); i++) r.at(i) += v; return r; }
	Tensor operator-() const { return *this * -1.0f; }
	Tensor add(const Tensor& o) const { return *this + o; }
	Tensor sub(const Tensor& o) const { return *this - o; }
	Tensor mul(const Tensor& o) const { return *this * o; }
	Tensor& operator+=(const Tensor& o) { return add_(o); }
	Tensor& mul_(float v) { for(int64_t i = 0; i < numel(); i++) at(i) *= v; return *this; }
	Tensor mm(const Tensor& o) const {
		if(dim() != 2 || o.dim() != 2 || sz[1] != o.sz[0]) throw std::runtime_error("shapes cannot be multiplied");
		Tensor r = empty({sz[0], o.sz[1]});
		for(int64_t i = 0; i < sz[0]; i++) for(int64_t j = 0; j < o.sz[1]; j++) {
			double s = 0;
			for(int64_t k = 0; k < sz[1]; k++) s += (double) st.get()[off + i * str[0] + k * str[1]] * o.st.get()[o.off + k * o.str[0] + j * o.str[1]];
			r.at(i * o.sz[1] + j) = (float) s;
		}
		return r;
	}
	Tensor matmul(const Tensor& o) const { return mm(o); }
	Tensor sum() const { double s = 0; for(int64_t i = 0; i < numel(); i++) s += at(i); Tensor r = empty({}); r.st.get()[0] = (float) s; return r; }
	Tensor operator[](int64_t i) const {
		Tensor r = *this;
		r.off += i * str.at(0);
		r.sz.erase(r.sz.begin()); r.str.erase(r.str.begin());
		return r;
	}
	template <class T> T item() const { return ints ? (T) (*ints).at(off) : (T) st.get()[off]; }
	Tensor& add_(const Tensor& o) { return copy_(zip(o, [](float a, float b) { return a + b; })); }
	Tensor sum(int64_t d, bool keepdim = false) const {
		if(dim() != 2) throw std::runtime_error("sum of a matrix only");
		if(d < 0) d += 2;
		Tensor r = empty({sz[1 - d]});
		for(int64_t j = 0; j < sz[1 - d]; j++) {
			double s = 0;
			for(int64_t i = 0; i < sz[d]; i++) s += st.get()[off + i * str[d] + j * str[1 - d]];
			r.at(j) = (float) s;
		}
		if(keepdim) r = r.reshape(d ? IntArrayRef{sz[0], 1} : IntArrayRef{1, sz[1]});
		return r;
	}
	Tensor sum(IntArrayRef d, bool keepdim = false) const { return sum(d[0], keepdim); }
};

inline Tensor from_blob(void* p, IntArrayRef s, const std::function<void(void*)>& del, TensorOptions = TensorOptions()) {
	Tensor t;
	t.sz = s; t.contig();
	t.st = std::shared_ptr<float>((float*) p, [del](float* q) { del(q); });
	return t;
}
inline Tensor from_blob(void* p, IntArrayRef s, TensorOptions = TensorOptions()) {
	Tensor t;
	t.sz = s; t.contig();
	t.st = std::shared_ptr<float>((float*) p, [](float*) {});
	return t;
}
inline Tensor empty(IntArrayRef s, TensorOptions = TensorOptions()) { return Tensor::empty(s); }
inline Tensor zeros(IntArrayRef s, TensorOptions = TensorOptions()) { Tensor t = Tensor::empty(s); memset(t.st.get(), 0, 4 * t.numel()); return t; }
inline Tensor ones(IntArrayRef s, TensorOptions = TensorOptions()) { return Tensor::empty(s).fill_(1); }
inline Tensor full(IntArrayRef s, float v, TensorOptions = TensorOptions()) { return Tensor::empty(s).fill_(v); }
inline Tensor empty_like(const Tensor& t) { return Tensor::empty(t.sz); }
inline Tensor zeros_like(const Tensor& t) { return zeros(t.sz); }
inline Tensor ones_like(const Tensor& t) { return ones(t.sz); }
inline Tensor matmul(const Tensor& a, const Tensor& b) { return a.mm(b); }
inline Tensor mm(const Tensor& a, const Tensor& b) { return a.mm(b); }
inline Tensor add(const Tensor& a, const Tensor& b) { return a + b; }
inline Tensor sum(const Tensor& a, int64_t d, bool keep = false) { return a.sum(d, keep); }
struct NoGradGuard {};

}
namespace pybind11 { struct arg { const char* n; bool given = false; arg(const char* s) : n(s) {} template <class T> arg operator=(const T&) const { arg a = *this; a.given = true; return a; } }; struct gil_scoped_release { ~gil_scoped_release() {} }; template <class T> struct call_guard {}; }
namespace torch {
// what the stand-in does not know
struct unsupported {};
// what the extension binds, by name
struct Module {
	std::map<std::string, std::any> f;
	// and a caller for each, for those who have its arguments in a list
	struct Fn { int arity, defaults; std::function<std::vector<Tensor>(std::vector<Tensor>)> call; };
	std::map<std::string, Fn> g;
	template <class F, class... X> Module& def(const char* n, F fn, X... x) {
		f[n] = fn;
		int d = 0;
		for(int v : {0, (int) has_default(x)...}) d += v;
		bindc(n, std::function(fn), d);
		return *this;
	}
	template <class X> static bool has_default(const X&) { return false; }
	static bool has_default(const pybind11::arg& x) { return x.given; }
	template <class A> static std::decay_t<A>& as(Tensor& t, std::any& hold) {
		typedef std::decay_t<A> T;
		if constexpr(std::is_same_v<T, Tensor>) return t;
		else if constexpr(std::is_same_v<T, std::optional<Tensor> >) { hold = T(t.defined() ? T(t) : T()); return *std::any_cast<T>(&hold); }
		else if constexpr(std::is_arithmetic_v<T>) { hold = T(t.defined() ? t.template item<T>() : T()); return *std::any_cast<T>(&hold); }
		else throw unsupported();
	}
	static std::vector<Tensor> list(const Tensor& t) { return {t}; }
	static std::vector<Tensor> list(const std::vector<Tensor>& t) { return t; }
	template <class... T> static std::vector<Tensor> list(const std::tuple<T...>& t) { return std::apply([](auto... x) { return std::vector<Tensor>{x...}; }, t); }
	template <class R, class... A> void bindc(const char* n, std::function<R(A...)> fn, int d) {
		g[n] = Fn{(int) sizeof...(A), d, [fn](std::vector<Tensor> a) { return call(fn, a, std::index_sequence_for<A...>()); }};
	}
	template <class R, class... A, size_t... I> static std::vector<Tensor> call(const std::function<R(A...)>& fn, std::vector<Tensor>& a, std::index_sequence<I...>) {
		std::any hold[sizeof...(A) + 1];
		return list(fn(as<A>(a[I], hold[I])...));
	}
};
template <class T> using optional = std::optional<T>;
using std::nullopt;
}
namespace at = torch;
namespace c10 = torch;
namespace py = pybind11;
#define TORCH_EXTENSION_NAME linear_cpp
#define PYBIND11_MODULE(name, m) void vh_bind(torch::Module& m); void vh_bind(torch::Module& m)
