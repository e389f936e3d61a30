// A small dense-tensor library with the torch C++ interface the operators in /repo use (strided views,
// dtypes, broadcasting, tensordot, autograd::Function, nn::Module), holding symbolic scalars when SYM=1.
// Operations torch rejects (wrong dtype, index out of range, shape mismatch) throw here as well.
#pragma once
#include "sym.h"
namespace c10 {
enum class ScalarType : int { Byte, Int, Long, Float, Double, Bool, Undefined };
enum class DeviceType : int { CPU, CUDA };
constexpr DeviceType kCPU = DeviceType::CPU, kCUDA = DeviceType::CUDA;
struct Device {
    DeviceType t; int idx;
    Device(DeviceType t_ = kCPU, int i = -1) : t(t_), idx(i) {}
    Device(const std::string &) : t(kCPU), idx(-1) {}
    bool is_cpu() const { return t == kCPU; } bool is_cuda() const { return t == kCUDA; }
    DeviceType type() const { return t; } int index() const { return idx; }
    bool operator==(const Device &o) const { return t == o.t; } bool operator!=(const Device &o) const { return t != o.t; }
};
struct Error : std::runtime_error { Error(const std::string &s) : std::runtime_error(s) {} };
[[noreturn]] inline void fail(const std::string &s) { throw Error("torch: " + s); }
constexpr ScalarType kInt = ScalarType::Int, kLong = ScalarType::Long, kFloat = ScalarType::Float, kDouble = ScalarType::Double, kBool = ScalarType::Bool;
constexpr ScalarType kInt32 = kInt, kInt64 = kLong, kFloat32 = kFloat, kFloat64 = kDouble;
inline bool isFloatingType(ScalarType t) { return t == kFloat || t == kDouble; }
struct TensorOptions {
    ScalarType t = kFloat; Device d; bool rg = false;
    TensorOptions() {}
    TensorOptions(ScalarType s) : t(s) {}
    TensorOptions(Device v) : d(v) {}
    TensorOptions dtype(ScalarType s) const { TensorOptions o = *this; o.t = s; return o; }
    TensorOptions device(Device v) const { TensorOptions o = *this; o.d = v; return o; }
    TensorOptions device(DeviceType v) const { return device(Device(v)); }
    TensorOptions requires_grad(bool b) const { TensorOptions o = *this; o.rg = b; return o; }
    ScalarType dtype() const { return t; } Device device() const { return d; }
};
template <class T> struct ArrayRef {
    std::vector<T> v;
    ArrayRef() {}
    ArrayRef(const std::vector<T> &x) : v(x) {}
    ArrayRef(std::initializer_list<T> x) : v(x) {}
    ArrayRef(const T *p, size_t n) : v(p, p + n) {}
    template <class U, typename std::enable_if<std::is_same<U, T>::value || (std::is_integral<U>::value && std::is_integral<T>::value), int>::type = 0> ArrayRef(const U &x) : v(1, (T)x) {}
    T operator[](size_t i) const { if (i >= v.size()) fail("ArrayRef index"); return v[i]; }
    T at(size_t i) const { return (*this)[i]; }
    size_t size() const { return v.size(); } bool empty() const { return v.empty(); }
    typename std::vector<T>::const_iterator begin() const { return v.begin(); }
    typename std::vector<T>::const_iterator end() const { return v.end(); }
    std::vector<T> vec() const { return v; }
    T front() const { return v.front(); } T back() const { return v.back(); }
    bool operator==(const ArrayRef &o) const { return v == o.v; } bool operator!=(const ArrayRef &o) const { return v != o.v; }
};
typedef ArrayRef<int64_t> IntArrayRef;
template <class T> using optional = std::optional<T>;
constexpr std::nullopt_t nullopt = std::nullopt;
struct Scalar {
    bool isr; int64_t i; Real r;
    Scalar() : isr(false), i(0), r(0) {}
    template <class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0> Scalar(I x) : isr(false), i((int64_t)x), r(0) {}
#if SYM
    Scalar(const SymReal &x) : isr(true), i(0), r(x) {}
#endif
    Scalar(real_double x) : isr(true), i(0), r(x) {}
    Scalar(float x) : isr(true), i(0), r(x) {}
    Real real() const { return isr ? r : Real(i); }
    int64_t integer() const { return isr ? (int64_t)r : i; }
    template <class T> T to() const { if constexpr (std::is_integral<T>::value) return (T)integer(); else return (T)real(); }
    Real toDouble() const { return real(); } int64_t toLong() const { return integer(); } int toInt() const { return (int)integer(); }
};
template <class T> ScalarType type_of() {
    if (std::is_same<T, int32_t>::value) return kInt;
    if (std::is_same<T, int64_t>::value || std::is_same<T, long long>::value) return kLong;
    if (std::is_same<T, bool>::value) return kBool;
    if (std::is_same<T, float>::value) return kFloat;
    if (std::is_same<T, real_double>::value) return kDouble;
    return ScalarType::Undefined;
}
}
namespace at {
using namespace c10;
using c10::optional;
inline size_t itemsize(ScalarType t) {
#if SYM
    return t == kInt ? 4 : t == kLong ? 8 : t == kBool ? 1 : sizeof(SymReal);
#else
    return t == kInt || t == kFloat ? 4 : t == kBool ? 1 : 8;
#endif
}
template <class T> inline bool type_ok(ScalarType t) {
#if SYM
    if (std::is_same<T, SymReal>::value) return isFloatingType(t);
#endif
    return type_of<T>() == t;
}
inline ScalarType promote(ScalarType a, ScalarType b) { return std::max(a, b) == kBool ? std::min(a, b) == kBool ? kBool : std::min(a, b) : std::max(a, b); }
struct Tensor;
namespace indexing {
struct NoneT {}; struct EllipsisT {};
constexpr std::nullopt_t None = std::nullopt; constexpr EllipsisT Ellipsis{};
struct Slice { std::optional<int64_t> a, b; int64_t step; Slice(std::optional<int64_t> a_ = std::nullopt, std::optional<int64_t> b_ = std::nullopt, std::optional<int64_t> s = std::nullopt) : a(a_), b(b_), step(s.value_or(1)) {} };
struct TensorIndex {
    enum { INT, SLICE, NEW, DOTS } kind; int64_t i = 0; Slice s;
    template <class I, typename std::enable_if<std::is_integral<I>::value && !std::is_same<I, bool>::value, int>::type = 0> TensorIndex(I x) : kind(INT), i((int64_t)x) {}
    TensorIndex(const Slice &x) : kind(SLICE), s(x) {}
    TensorIndex(std::nullopt_t) : kind(NEW) {}
    TensorIndex(EllipsisT) : kind(DOTS) {}
    TensorIndex(const char *) : kind(DOTS) {}
    inline TensorIndex(const Tensor &x);
};
}
template <class T, int N> struct TensorAccessor {
    T *p; const int64_t *sz, *st;
    int64_t size(int64_t i) const { return sz[i]; }
    auto operator[](int64_t i) const -> std::conditional_t<N == 1, T &, TensorAccessor<T, (N > 1 ? N - 1 : 1)>> {
        if (i < 0 || i >= sz[0]) fail("accessor index out of range");
        if constexpr (N == 1) return p[i * st[0]];
        else return TensorAccessor<T, (N > 1 ? N - 1 : 1)>{p + i * st[0], sz + 1, st + 1};
    }
};
struct Tensor {
    std::shared_ptr<char> mem; int64_t off = 0; std::vector<int64_t> sz, st; ScalarType t = ScalarType::Undefined; bool rg = false; std::shared_ptr<Tensor> g;
    Tensor() {}
    Tensor(const Tensor &) = default;
    Tensor(Tensor &&) = default;
    Tensor &operator=(const Tensor &o) & = default;
    Tensor &operator=(Tensor &&o) & = default;
    Tensor &operator=(const Tensor &o) && { return copy_(o); }
    Tensor &operator=(Tensor &&o) && { return copy_(o); }
    Tensor &operator=(const Scalar &v) && { return fill_(v); }
    static Tensor make(const std::vector<int64_t> &shape, ScalarType t, bool zero) {
        Tensor o; o.sz = shape; o.t = t; int64_t n = 1;
        for (int64_t s : shape) { if (s < 0) fail("negative dimension"); n *= s; }
        o.st.resize(shape.size()); int64_t k = 1;
        for (int i = (int)shape.size() - 1; i >= 0; i--) { o.st[i] = k; k *= std::max<int64_t>(shape[i], 1); }
        size_t bytes = (size_t)n * itemsize(t);
        char *p = (char *)malloc(bytes ? bytes : 1);
        if (zero) memset(p, 0, bytes);
        o.mem = std::shared_ptr<char>(p, [](char *q) { free(q); });
        return o;
    }
    bool defined() const { return t != ScalarType::Undefined; }
    int64_t dim() const { return (int64_t)sz.size(); } int64_t ndimension() const { return dim(); }
    int64_t wrap(int64_t d, int64_t n) const { if (d < -n || d >= n) fail("dimension out of range"); return d < 0 ? d + n : d; }
    int64_t size(int64_t d) const { return sz[wrap(d, dim())]; }
    IntArrayRef sizes() const { return IntArrayRef(sz); } IntArrayRef strides() const { return IntArrayRef(st); }
    int64_t stride(int64_t d) const { return st[wrap(d, dim())]; }
    int64_t numel() const { int64_t n = 1; for (int64_t s : sz) n *= s; return n; }
    ScalarType scalar_type() const { return t; } ScalarType dtype() const { return t; }
    Device device() const { return Device(); } TensorOptions options() const { return TensorOptions().dtype(t); }
    bool is_cpu() const { return true; } bool is_cuda() const { return false; } bool is_floating_point() const { return isFloatingType(t); }
    Tensor cpu() const { return *this; }
    Tensor requires_grad_(bool b = true) const { const_cast<Tensor *>(this)->rg = b; return *this; } bool requires_grad() const { return rg; }
    Tensor detach() const { Tensor o = *this; o.rg = false; return o; }
    bool is_contiguous() const { int64_t k = 1; for (int i = (int)sz.size() - 1; i >= 0; i--) { if (sz[i] != 1 && st[i] != k) return false; k *= sz[i]; } return true; }
    char *at_(int64_t o) const { return mem.get() + (off + o) * (int64_t)itemsize(t); }
    template <class T> T *data_ptr() const {
        if (!defined()) fail("undefined tensor has no data");
        if (!type_ok<T>(t)) fail("data_ptr of another scalar type");
        return (T *)at_(0);
    }
    template <class T> const T *const_data_ptr() const { return data_ptr<T>(); }
    template <class T> T *mutable_data_ptr() const { return data_ptr<T>(); }
    void *data_ptr() const { return at_(0); }
    template <class T, int N> TensorAccessor<T, N> accessor() const { if (dim() != N) fail("accessor dimension"); return TensorAccessor<T, N>{data_ptr<T>(), sz.data(), st.data()}; }
    Scalar load(int64_t o) const {
        char *p = at_(o);
        switch (t) {
        case kInt: return Scalar(*(int32_t *)p);
        case kLong: return Scalar(*(int64_t *)p);
        case kBool: return Scalar(*(bool *)p);
#if SYM
        case kFloat: case kDouble: return Scalar(*(SymReal *)p);
#else
        case kFloat: return Scalar((real_double)*(float *)p);
        case kDouble: return Scalar(*(real_double *)p);
#endif
        default: fail("undefined tensor read");
        }
    }
    void store(int64_t o, const Scalar &v) const {
        char *p = at_(o);
        switch (t) {
        case kInt: *(int32_t *)p = (int32_t)v.integer(); break;
        case kLong: *(int64_t *)p = v.integer(); break;
        case kBool: *(bool *)p = v.isr ? (v.r != Real(0)) : v.i != 0; break;
#if SYM
        case kFloat: case kDouble: *(SymReal *)p = v.real(); break;
#else
        case kFloat: *(float *)p = (float)v.real(); break;
        case kDouble: *(real_double *)p = v.real(); break;
#endif
        default: fail("undefined tensor written");
        }
    }
    int64_t pos(int64_t lin) const { int64_t o = 0; for (int i = (int)sz.size() - 1; i >= 0; i--) { o += lin % sz[i] * st[i]; lin /= sz[i]; } return o; }
    Scalar item() const { if (numel() != 1) fail("item() of a tensor that is not one element"); return load(0); }
    template <class T> T item() const { return item().template to<T>(); }
    Tensor select(int64_t d, int64_t i) const {
        if (!dim()) fail("select on a 0-d tensor");
        d = wrap(d, dim());
        if (i < -sz[d] || i >= sz[d]) fail("index out of range");
        if (i < 0) i += sz[d];
        Tensor o = *this; o.off += i * st[d]; o.sz.erase(o.sz.begin() + d); o.st.erase(o.st.begin() + d); return o;
    }
    template <class I, typename std::enable_if<std::is_integral<I>::value, int>::type = 0> Tensor operator[](I i) const { return select(0, (int64_t)i); }
    Tensor operator[](const Tensor &i) const { return select(0, i.item<int64_t>()); }
    Tensor narrow(int64_t d, int64_t a, int64_t n) const { d = wrap(d, dim()); if (a < 0 || n < 0 || a + n > sz[d]) fail("narrow out of range"); Tensor o = *this; o.off += a * st[d]; o.sz[d] = n; return o; }
    Tensor slice(int64_t d = 0, optional<int64_t> a = nullopt, optional<int64_t> b = nullopt, int64_t step = 1) const {
        d = wrap(d, dim()); int64_t lo = a.value_or(0), hi = b.value_or(sz[d]);
        if (lo < 0) lo += sz[d]; if (hi < 0) hi += sz[d];
        lo = std::min(std::max<int64_t>(lo, 0), sz[d]); hi = std::min(std::max(hi, lo), sz[d]);
        Tensor o = *this; o.off += lo * st[d]; o.sz[d] = (hi - lo + step - 1) / step; o.st[d] *= step; return o;
    }
    Tensor index(const std::vector<indexing::TensorIndex> &ix) const {
        Tensor o = *this; int64_t d = 0, used = 0;
        for (auto &x : ix) if (x.kind == indexing::TensorIndex::INT || x.kind == indexing::TensorIndex::SLICE) used++;
        for (auto &x : ix) switch (x.kind) {
            case indexing::TensorIndex::INT: o = o.select(d, x.i); break;
            case indexing::TensorIndex::SLICE: o = o.slice(d, x.s.a, x.s.b, x.s.step); d++; break;
            case indexing::TensorIndex::NEW: o = o.unsqueeze(d); d++; break;
            case indexing::TensorIndex::DOTS: d += dim() - used; break;
        }
        return o;
    }
    Tensor &index_put_(const std::vector<indexing::TensorIndex> &ix, const Tensor &v) { index(ix).copy_(v); return *this; }
    Tensor &index_put_(const std::vector<indexing::TensorIndex> &ix, const Scalar &v) { index(ix).fill_(v); return *this; }
    Tensor index_select(int64_t d, const Tensor &ix) const {
        d = wrap(d, dim()); std::vector<int64_t> s = sz; s[d] = ix.numel(); Tensor o = make(s, t, false);
        for (int64_t k = 0; k < ix.numel(); k++) o.select(d, k).copy_(select(d, ix.load(ix.pos(k)).integer()));
        return o;
    }
    std::vector<Tensor> unbind(int64_t d = 0) const { std::vector<Tensor> o; for (int64_t i = 0; i < size(d); i++) o.push_back(select(d, i)); return o; }
    Tensor flatten(int64_t a, int64_t b = -1) const {
        a = wrap(a, dim()); b = wrap(b, dim()); std::vector<int64_t> s; int64_t n = 1;
        for (int64_t i = 0; i < dim(); i++) { if (i < a || i > b) s.push_back(sz[i]); else { n *= sz[i]; if (i == b) s.push_back(n); } }
        return reshape(s);
    }
    Tensor unsqueeze(int64_t d) const { if (d < 0) d += dim() + 1; Tensor o = *this; o.sz.insert(o.sz.begin() + d, 1); o.st.insert(o.st.begin() + d, 1); return o; }
    Tensor squeeze() const { Tensor o = *this; o.sz.clear(); o.st.clear(); for (size_t i = 0; i < sz.size(); i++) if (sz[i] != 1) { o.sz.push_back(sz[i]); o.st.push_back(st[i]); } return o; }
    Tensor squeeze(int64_t d) const { d = wrap(d, dim()); Tensor o = *this; if (sz[d] == 1) { o.sz.erase(o.sz.begin() + d); o.st.erase(o.st.begin() + d); } return o; }
    Tensor permute(IntArrayRef p) const { if ((int64_t)p.size() != dim()) fail("permute"); Tensor o = *this; for (size_t i = 0; i < p.size(); i++) { o.sz[i] = size(p[i]); o.st[i] = stride(p[i]); } return o; }
    Tensor transpose(int64_t a, int64_t b) const { Tensor o = *this; a = wrap(a, dim()); b = wrap(b, dim()); std::swap(o.sz[a], o.sz[b]); std::swap(o.st[a], o.st[b]); return o; }
    Tensor t_() const { return dim() < 2 ? *this : transpose(0, 1); }
    Tensor clone() const { Tensor o = make(sz, t, false); int64_t n = numel(); for (int64_t i = 0; i < n; i++) o.store(i, load(pos(i))); return o; }
    Tensor contiguous() const { return is_contiguous() ? *this : clone(); }
    Tensor reshape(IntArrayRef s) const {
        std::vector<int64_t> w = s.v; int64_t n = 1, hole = -1;
        for (size_t i = 0; i < w.size(); i++) if (w[i] < 0) hole = (int64_t)i; else n *= w[i];
        if (hole >= 0) { w[hole] = n ? numel() / n : 0; n *= w[hole]; }
        if (n != numel()) fail("reshape to another number of elements");
        Tensor c = contiguous(), o = make({}, t, true); o = c; o.sz = w; o.st.assign(w.size(), 1);
        int64_t k = 1; for (int i = (int)w.size() - 1; i >= 0; i--) { o.st[i] = k; k *= w[i]; }
        return o;
    }
    Tensor view(IntArrayRef s) const { if (!is_contiguous()) fail("view of a non-contiguous tensor"); return reshape(s); }
    Tensor view_as(const Tensor &o) const { return view(o.sizes()); } Tensor reshape_as(const Tensor &o) const { return reshape(o.sizes()); }
    Tensor flatten() const { return reshape({numel()}); }
    Tensor expand(IntArrayRef s) const {
        Tensor o = *this; o.sz = s.v; o.st.assign(s.size(), 0); int64_t lead = (int64_t)s.size() - dim();
        if (lead < 0) fail("expand");
        for (int64_t i = 0; i < (int64_t)s.size(); i++) { if (i < lead) { o.st[i] = 0; continue; } if (s[i] == -1) o.sz[i] = sz[i - lead]; if (sz[i - lead] == o.sz[i]) o.st[i] = st[i - lead]; else if (sz[i - lead] == 1) o.st[i] = 0; else fail("shapes do not broadcast"); }
        return o;
    }
    Tensor expand_as(const Tensor &o) const { return expand(o.sizes()); }
    Tensor &copy_(const Tensor &o) { Tensor e = o.expand(sizes()); int64_t n = numel(); if (e.mem == mem) e = e.clone(); for (int64_t i = 0; i < n; i++) store(pos(i), e.load(e.pos(i))); return *this; }
    Tensor &fill_(const Scalar &v) { int64_t n = numel(); for (int64_t i = 0; i < n; i++) store(pos(i), v); return *this; }
    Tensor &fill_(const Tensor &v) { return fill_(v.item()); }
    Tensor &zero_() { return fill_(Scalar(0)); }
    Tensor to(ScalarType s) const { if (s == t) return *this; Tensor o = make(sz, s, false); int64_t n = numel(); for (int64_t i = 0; i < n; i++) o.store(i, load(pos(i))); return o; }
    Tensor to(Device) const { return *this; } Tensor to(DeviceType) const { return *this; }
    Tensor to(const TensorOptions &o) const { return to(o.t); } Tensor to(Device, ScalarType s) const { return to(s); } Tensor to(const Tensor &o) const { return to(o.t); }
    Tensor toType(ScalarType s) const { return to(s); } Tensor type_as(const Tensor &o) const { return to(o.t); }
    Tensor sum() const { Tensor o = make({}, isFloatingType(t) ? t : kLong, true); Scalar a = isFloatingType(t) ? Scalar(Real(0)) : Scalar(0); int64_t n = numel(); for (int64_t i = 0; i < n; i++) a = sadd_(a, load(pos(i))); o.store(0, a); return o; }
    Tensor sum(int64_t d, bool keep = false) const { return sum(IntArrayRef({d}), keep); }
    Tensor sum(IntArrayRef ds, bool keep = false) const {
        std::vector<bool> red(sz.size(), ds.empty());
        for (int64_t d : ds) red[wrap(d, dim())] = true;
        std::vector<int64_t> s, full; for (size_t i = 0; i < sz.size(); i++) { full.push_back(red[i] ? 1 : sz[i]); if (!red[i] || keep) s.push_back(red[i] ? 1 : sz[i]); }
        Tensor o = make(full, isFloatingType(t) ? t : kLong, true); int64_t n = numel();
        for (int64_t lin = 0; lin < n; lin++) {
            int64_t l = lin, p = 0, q = 0;
            for (int i = (int)sz.size() - 1; i >= 0; i--) { int64_t k = l % sz[i]; l /= sz[i]; p += k * st[i]; if (!red[i]) q += k * o.st[i]; }
            o.store(q, sadd_(o.load(q), load(p)));
        }
        return o.reshape(s);
    }
    static Scalar sadd_(const Scalar &a, const Scalar &b) { return a.isr || b.isr ? Scalar(a.real() + b.real()) : Scalar(a.i + b.i); }
    static Scalar ssub_(const Scalar &a, const Scalar &b) { return a.isr || b.isr ? Scalar(a.real() - b.real()) : Scalar(a.i - b.i); }
    static Scalar smul_(const Scalar &a, const Scalar &b) { return a.isr || b.isr ? Scalar(a.real() * b.real()) : Scalar(a.i * b.i); }
    static Scalar sdiv_(const Scalar &a, const Scalar &b) { return Scalar(a.real() / b.real()); }
    template <class F> static Tensor zip(const Tensor &a, const Tensor &b, F f, bool divide = false) {
        std::vector<int64_t> s(std::max(a.sz.size(), b.sz.size()), 1);
        for (const Tensor *x : {&a, &b}) for (size_t i = 0; i < x->sz.size(); i++) { int64_t &d = s[s.size() - x->sz.size() + i]; if (d == 1) d = x->sz[i]; else if (x->sz[i] != 1 && x->sz[i] != d) fail("shapes do not broadcast"); }
        Tensor x = a.expand(s), y = b.expand(s); ScalarType rt = promote(a.dim() || !b.dim() || isFloatingType(a.t) != isFloatingType(b.t) ? a.t : b.t, b.dim() || !a.dim() || isFloatingType(a.t) != isFloatingType(b.t) ? b.t : a.t);
        if (divide && !isFloatingType(rt)) rt = kFloat;
        Tensor o = make(s, rt, false); int64_t n = o.numel();
        for (int64_t i = 0; i < n; i++) o.store(i, f(x.load(x.pos(i)), y.load(y.pos(i))));
        return o;
    }
    template <class F> Tensor zips(const Scalar &v, F f, bool divide = false) const {
        ScalarType rt = v.isr && !isFloatingType(t) ? kFloat : t; if (divide && !isFloatingType(rt)) rt = kFloat;
        Tensor o = make(sz, rt, false); int64_t n = numel();
        for (int64_t i = 0; i < n; i++) o.store(i, f(load(pos(i)), v));
        return o;
    }
    Tensor add(const Tensor &o) const { return zip(*this, o, sadd_); } Tensor add(const Scalar &v) const { return zips(v, sadd_); }
    Tensor sub(const Tensor &o) const { return zip(*this, o, ssub_); } Tensor sub(const Scalar &v) const { return zips(v, ssub_); }
    Tensor mul(const Tensor &o) const { return zip(*this, o, smul_); } Tensor mul(const Scalar &v) const { return zips(v, smul_); }
    Tensor div(const Tensor &o) const { return zip(*this, o, sdiv_, true); } Tensor div(const Scalar &v) const { return zips(v, sdiv_, true); }
    Tensor neg() const { return zips(Scalar(-1), smul_); } Tensor operator-() const { return neg(); }
    Tensor &add_(const Tensor &o) { return copy_(add(o)); } Tensor &sub_(const Tensor &o) { return copy_(sub(o)); } Tensor &mul_(const Tensor &o) { return copy_(mul(o)); } Tensor &div_(const Tensor &o) { return copy_(div(o)); }
    Tensor &operator+=(const Tensor &o) { return add_(o); } Tensor &operator-=(const Tensor &o) { return sub_(o); } Tensor &operator*=(const Tensor &o) { return mul_(o); } Tensor &operator/=(const Tensor &o) { return div_(o); }
    Tensor &operator+=(const Scalar &v) { return copy_(add(v)); } Tensor &operator-=(const Scalar &v) { return copy_(sub(v)); } Tensor &operator*=(const Scalar &v) { return copy_(mul(v)); } Tensor &operator/=(const Scalar &v) { return copy_(div(v)); }
    template <class F> Tensor map(F f) const { ScalarType rt = isFloatingType(t) ? t : kFloat; Tensor o = make(sz, rt, false); int64_t n = numel(); for (int64_t i = 0; i < n; i++) o.store(i, Scalar(f(load(pos(i)).real()))); return o; }
    Tensor sqrt() const { return map([](Real x) { return std::sqrt(x); }); }
    Tensor square() const { return mul(*this); }
    Tensor pow(const Scalar &v) const { return map([&](Real x) { return std::pow(x, v.real()); }); }
    Tensor abs() const { return map([](Real x) { return std::abs(x); }); }
    Tensor norm() const { return square().sum().sqrt(); }
    Tensor norm(int64_t, int64_t d, bool keep = false) const { return square().sum(d, keep).sqrt(); }
    Tensor dot(const Tensor &o) const { if (dim() != 1 || o.dim() != 1) fail("dot of tensors that are not 1-d"); if (t != o.t) fail("dot of different dtypes"); if (sz != o.sz) fail("dot of different lengths"); return mul(o).sum(); }
    bool equal(const Tensor &o) const { if (sz != o.sz) return false; int64_t n = numel(); for (int64_t i = 0; i < n; i++) { Scalar a = load(pos(i)), b = o.load(o.pos(i)); if (a.isr || b.isr ? !(a.real() == b.real()) : a.i != b.i) return false; } return true; }
    Tensor repeat(IntArrayRef r) const {
        int64_t lead = (int64_t)r.size() - dim(); if (lead < 0) fail("repeat needs as many dimensions as the tensor");
        std::vector<int64_t> s; for (int64_t i = 0; i < (int64_t)r.size(); i++) s.push_back(r[i] * (i < lead ? 1 : sz[i - lead]));
        Tensor o = make(s, t, false); int64_t n = o.numel();
        for (int64_t lin = 0; lin < n; lin++) { int64_t l = lin, p = 0; for (int64_t i = (int64_t)s.size() - 1; i >= 0; i--) { int64_t k = l % s[i]; l /= s[i]; if (i >= lead) p += k % sz[i - lead] * st[i - lead]; } o.store(lin, load(p)); }
        return o;
    }
    Tensor prod() const { Tensor o = make({}, isFloatingType(t) ? t : kLong, true); Scalar a = isFloatingType(t) ? Scalar(Real(1)) : Scalar(1); int64_t n = numel(); for (int64_t i = 0; i < n; i++) a = smul_(a, load(pos(i))); o.store(0, a); return o; }
    Tensor matmul(const Tensor &o) const;
    Tensor mm(const Tensor &o) const { return matmul(o); } Tensor mv(const Tensor &o) const { return matmul(o); }
    Tensor outer(const Tensor &o) const { return unsqueeze(1).mul(o.unsqueeze(0)); } Tensor ger(const Tensor &o) const { return outer(o); }
    Tensor mean() const { return sum().div(Scalar(numel())); }
    Tensor &grad() const { static Tensor none; return g ? *g : none; }
};
inline indexing::TensorIndex::TensorIndex(const Tensor &x) : kind(INT), i(x.item<int64_t>()) { if (isFloatingType(x.t)) fail("index of a floating type"); }
#define FAKE_OP(OP, FN) \
    inline Tensor operator OP(const Tensor &a, const Tensor &b) { return a.FN(b); } \
    inline Tensor operator OP(const Tensor &a, const Scalar &b) { return a.FN(b); }
FAKE_OP(+, add) FAKE_OP(-, sub) FAKE_OP(*, mul) FAKE_OP(/, div)
inline Tensor operator+(const Scalar &a, const Tensor &b) { return b.add(a); }
inline Tensor operator*(const Scalar &a, const Tensor &b) { return b.mul(a); }
inline Tensor operator-(const Scalar &a, const Tensor &b) { return b.neg().add(a); }
inline Tensor zeros(IntArrayRef s, TensorOptions o = TensorOptions()) { return Tensor::make(s.v, o.t, true); }
inline Tensor empty(IntArrayRef s, TensorOptions o = TensorOptions()) { return Tensor::make(s.v, o.t, false); }
inline Tensor full(IntArrayRef s, const Scalar &v, TensorOptions o = TensorOptions()) { Tensor r = Tensor::make(s.v, o.t, false); r.fill_(v); return r; }
inline Tensor ones(IntArrayRef s, TensorOptions o = TensorOptions()) { return full(s, Scalar(1), o); }
inline Tensor zeros_like(const Tensor &x) { return zeros(x.sz, x.options()); }
inline Tensor zeros_like(const Tensor &x, TensorOptions o) { return zeros(x.sz, o); }
inline Tensor empty_like(const Tensor &x) { return empty(x.sz, x.options()); }
inline Tensor ones_like(const Tensor &x) { return ones(x.sz, x.options()); }
inline Tensor full_like(const Tensor &x, const Scalar &v) { return full(x.sz, v, x.options()); }
inline Tensor index_select(const Tensor &x, int64_t d, const Tensor &i) { return x.index_select(d, i); }
inline Tensor squeeze(const Tensor &x) { return x.squeeze(); } inline Tensor unsqueeze(const Tensor &x, int64_t d) { return x.unsqueeze(d); }
inline Tensor reshape(const Tensor &x, IntArrayRef s) { return x.reshape(s); } inline Tensor square(const Tensor &x) { return x.square(); } inline Tensor pow(const Tensor &x, const Scalar &v) { return x.pow(v); }
inline Tensor flatten(const Tensor &x) { return x.flatten(); } inline Tensor transpose(const Tensor &x, int64_t a, int64_t b) { return x.transpose(a, b); }
inline Tensor scalar_tensor(const Scalar &v, TensorOptions o = TensorOptions()) { return full(std::vector<int64_t>(), v, o); }
inline Tensor arange(const Scalar &e, TensorOptions o = TensorOptions(kLong)) { Tensor r = empty({e.integer()}, o); for (int64_t i = 0; i < e.integer(); i++) r.store(i, Scalar(i)); return r; }
// every call returns fresh numbers; the harness replaces them by symbolic ones
inline Tensor randn(IntArrayRef s, TensorOptions o = TensorOptions()) { Tensor r = empty(s, o); static int k = 0; for (int64_t i = 0; i < r.numel(); i++) r.store(i, Scalar(rat(++k % 17 - 8, 8))); return r; }
inline Tensor rand(IntArrayRef s, TensorOptions o = TensorOptions()) { return randn(s, o); }
inline Tensor dot(const Tensor &a, const Tensor &b) { return a.dot(b); }
inline Tensor mul(const Tensor &a, const Tensor &b) { return a.mul(b); } inline Tensor add(const Tensor &a, const Tensor &b) { return a.add(b); }
inline Tensor sum(const Tensor &a) { return a.sum(); } inline Tensor sum(const Tensor &a, IntArrayRef d, bool k = false) { return a.sum(d, k); }
inline Tensor sqrt(const Tensor &a) { return a.sqrt(); } inline Tensor norm(const Tensor &a) { return a.norm(); }
inline Tensor outer(const Tensor &a, const Tensor &b) { return a.outer(b); } inline Tensor ger(const Tensor &a, const Tensor &b) { return a.outer(b); }
inline Tensor tensordot(const Tensor &a, const Tensor &b, IntArrayRef da, IntArrayRef db) {
    if (da.size() != db.size()) fail("tensordot: different numbers of dimensions");
    if (a.t != b.t) fail("tensordot of different dtypes");
    std::vector<int64_t> fa, fb, shape; std::vector<bool> ca(a.dim(), false), cb(b.dim(), false); std::vector<int64_t> cs;
    for (size_t i = 0; i < da.size(); i++) {
        int64_t x = a.wrap(da[i], a.dim()), y = b.wrap(db[i], b.dim());
        if (a.sz[x] != b.sz[y]) fail("tensordot: contracted sizes differ");
        if (ca[x] || cb[y]) fail("tensordot: dimension contracted twice");
        ca[x] = cb[y] = true; cs.push_back(a.sz[x]);
    }
    for (int64_t i = 0; i < a.dim(); i++) if (!ca[i]) { fa.push_back(i); shape.push_back(a.sz[i]); }
    for (int64_t i = 0; i < b.dim(); i++) if (!cb[i]) { fb.push_back(i); shape.push_back(b.sz[i]); }
    Tensor o = zeros(shape, a.options()); int64_t n = o.numel(), m = 1; for (int64_t c : cs) m *= c;
    for (int64_t lin = 0; lin < n; lin++) {
        int64_t l = lin, pa = 0, pb = 0;
        for (int i = (int)shape.size() - 1; i >= 0; i--) { int64_t k = l % shape[i]; l /= shape[i]; if (i < (int)fa.size()) pa += k * a.st[fa[i]]; else pb += k * b.st[fb[i - fa.size()]]; }
        Scalar acc = isFloatingType(a.t) ? Scalar(Real(0)) : Scalar(0);
        for (int64_t c = 0; c < m; c++) {
            int64_t r = c, qa = pa, qb = pb;
            for (int i = (int)cs.size() - 1; i >= 0; i--) { int64_t k = r % cs[i]; r /= cs[i]; qa += k * a.st[a.wrap(da[i], a.dim())]; qb += k * b.st[b.wrap(db[i], b.dim())]; }
            acc = Tensor::sadd_(acc, Tensor::smul_(a.load(qa), b.load(qb)));
        }
        o.store(lin, acc);
    }
    return o;
}
inline Tensor einsum(const std::string &eq0, const std::vector<Tensor> &ops) {
    std::string eq; for (char c : eq0) if (c != ' ') eq += c;
    size_t ar = eq.find("->"); std::string lhs = ar == std::string::npos ? eq : eq.substr(0, ar), out; std::vector<std::string> in(1);
    for (char c : lhs) if (c == ',') in.push_back(""); else in.back() += c;
    if (in.size() != ops.size()) fail("einsum: number of operands"); if (eq.find('.') != std::string::npos) fail("einsum ellipsis is not provided");
    std::map<char, int64_t> n; std::map<char, int> cnt;
    for (size_t k = 0; k < in.size(); k++) { if ((int64_t)in[k].size() != ops[k].dim()) fail("einsum: dimensions of an operand"); for (size_t i = 0; i < in[k].size(); i++) { char c = in[k][i]; cnt[c]++; if (n.count(c) && n[c] != ops[k].sz[i]) fail("einsum: sizes differ"); n[c] = ops[k].sz[i]; } if (ops[k].t != ops[0].t) fail("einsum of different dtypes"); }
    if (ar == std::string::npos) { for (auto &p : cnt) if (p.second == 1) out += p.first; } else out = eq.substr(ar + 2);
    std::string all = out; for (auto &p : n) if (out.find(p.first) == std::string::npos) all += p.first;
    std::vector<int64_t> s; for (char c : out) { if (!n.count(c)) fail("einsum: output index"); s.push_back(n[c]); }
    Tensor o = zeros(s, ops[0].options()); int64_t total = 1; for (char c : all) total *= n[c];
    for (int64_t lin = 0; lin < total; lin++) {
        std::map<char, int64_t> v; int64_t l = lin; for (int i = (int)all.size() - 1; i >= 0; i--) { v[all[i]] = l % n[all[i]]; l /= n[all[i]]; }
        Scalar a; for (size_t k = 0; k < ops.size(); k++) { int64_t p = 0; for (size_t i = 0; i < in[k].size(); i++) p += v[in[k][i]] * ops[k].st[i]; a = k ? Tensor::smul_(a, ops[k].load(p)) : ops[k].load(p); }
        int64_t q = 0; for (size_t i = 0; i < out.size(); i++) q += v[out[i]] * o.st[i];
        o.store(q, Tensor::sadd_(o.load(q), a));
    }
    return o;
}
inline Tensor Tensor::matmul(const Tensor &o) const { if (dim() < 1 || o.dim() < 1 || dim() > 2 || o.dim() > 2) fail("matmul of these dimensions is not provided"); return tensordot(*this, o, {dim() - 1}, {o.dim() - (o.dim() > 1 ? 2 : 1)}); }
inline Tensor matmul(const Tensor &a, const Tensor &b) { return a.matmul(b); } inline Tensor mm(const Tensor &a, const Tensor &b) { return a.matmul(b); } inline Tensor mv(const Tensor &a, const Tensor &b) { return a.matmul(b); }
inline Tensor stack(const std::vector<Tensor> &v, int64_t d = 0) {
    if (v.empty()) fail("stack of nothing");
    std::vector<int64_t> s = v[0].sz; if (d < 0) d += (int64_t)s.size() + 1; s.insert(s.begin() + d, (int64_t)v.size());
    Tensor o = empty(s, v[0].options()); for (size_t i = 0; i < v.size(); i++) { if (v[i].sz != v[0].sz) fail("stack of different shapes"); o.select(d, (int64_t)i).copy_(v[i]); } return o;
}
inline Tensor cat(const std::vector<Tensor> &v, int64_t d = 0) {
    if (v.empty()) fail("cat of nothing");
    std::vector<int64_t> s = v[0].sz; d = v[0].wrap(d, v[0].dim()); s[d] = 0; for (auto &x : v) s[d] += x.sz[d];
    Tensor o = empty(s, v[0].options()); int64_t k = 0; for (auto &x : v) { o.narrow(d, k, x.sz[d]).copy_(x); k += x.sz[d]; } return o;
}
inline std::ostream &operator<<(std::ostream &o, const Tensor &) { return o << "<tensor>"; }
inline std::ostream &operator<<(std::ostream &o, const IntArrayRef &v) { for (auto x : v) o << x << " "; return o; }
}
namespace torch {
using namespace at;
using at::Tensor; using c10::optional; using c10::Device;
struct NoGradGuard { NoGradGuard() {} ~NoGradGuard() {} };
template <class T> inline Tensor tensor(const std::vector<T> &v, TensorOptions o) { Tensor r = empty({(int64_t)v.size()}, o); for (size_t i = 0; i < v.size(); i++) r.store((int64_t)i, Scalar(v[i])); return r; }
template <class T> inline Tensor tensor(std::initializer_list<T> v, TensorOptions o) { return tensor(std::vector<T>(v), o); }
template <class T, typename std::enable_if<!std::is_class<T>::value, int>::type = 0> inline Tensor tensor(T v, TensorOptions o) { return scalar_tensor(Scalar(v), o); }
template <class T, typename std::enable_if<!std::is_class<T>::value, int>::type = 0> inline Tensor tensor(T v) { return scalar_tensor(Scalar(v), TensorOptions(std::is_integral<T>::value ? kLong : kFloat)); }
#if SYM
inline Tensor tensor(const SymReal &v, TensorOptions o = TensorOptions()) { return scalar_tensor(Scalar(v), o); }
#endif
template <class T> inline Tensor from_blob(T *p, IntArrayRef s, TensorOptions o = TensorOptions()) { Tensor r = empty(s, o); memcpy(r.data_ptr(), p, r.numel() * itemsize(o.t)); return r; }
namespace autograd {
typedef std::vector<Tensor> variable_list; typedef Tensor Variable; typedef variable_list tensor_list;
struct AutogradContext {
    variable_list saved; std::map<std::string, Scalar> saved_data;
    void save_for_backward(variable_list v) { saved = v; }
    variable_list get_saved_variables() const { return saved; }
    void set_materialize_grads(bool) {} void mark_non_differentiable(const variable_list &) {}
    bool needs_input_grad(size_t) const { return true; }
};
inline std::vector<std::shared_ptr<AutogradContext>> &tape() { static std::vector<std::shared_ptr<AutogradContext>> t; return t; }
template <class T> struct Function {
    template <class... A> static auto apply(A &&...a) { auto c = std::make_shared<AutogradContext>(); tape().push_back(c); return T::forward(c.get(), std::forward<A>(a)...); }
};
}
namespace nn {
struct Module {
    std::vector<std::pair<std::string, std::shared_ptr<Module>>> kids; std::vector<std::pair<std::string, Tensor *>> own; std::deque<Tensor> store;
    Module() {} Module(const std::string &) {} virtual ~Module() {}
    virtual void collect(std::vector<Tensor *> &o) { for (auto &p : own) o.push_back(p.second); for (auto &k : kids) k.second->collect(o); }
    std::vector<Tensor> parameters(bool = true) { std::vector<Tensor *> o; collect(o); std::vector<Tensor> r; for (auto p : o) r.push_back(*p); return r; }
    virtual void to(ScalarType s, bool = false) { std::vector<Tensor *> o; collect(o); for (auto p : o) *p = p->to(s).requires_grad_(p->rg); }
    virtual void to(Device, bool = false) {}
    void zero_grad() {} void eval() {} void train(bool = true) {}
    Tensor &register_parameter(const std::string &n, Tensor t, bool = true) { store.push_back(t); own.push_back({n, &store.back()}); return store.back(); }
    Tensor &register_buffer(const std::string &n, Tensor t) { store.push_back(t); return store.back(); }
    template <class M> std::shared_ptr<M> register_module(const std::string &n, std::shared_ptr<M> m) { kids.push_back({n, m}); return m; }
    template <class H, class I = typename H::Impl> H register_module(const std::string &n, const H &h) { kids.push_back({n, h.ptr()}); return h; }
    template <class H> typename H::Impl *as() { return dynamic_cast<typename H::Impl *>(this); }
};
template <class C> struct ModuleHolder {
    std::shared_ptr<C> impl_;
    typedef C Impl; typedef C ContainedType;
    template <class D = C, typename std::enable_if<std::is_default_constructible<D>::value, int>::type = 0> ModuleHolder() : impl_(std::make_shared<D>()) {}
    template <class D = C, typename std::enable_if<!std::is_default_constructible<D>::value, int>::type = 0, class = void> ModuleHolder() {}
    ModuleHolder(std::nullptr_t) {}
    ModuleHolder(std::shared_ptr<C> p) : impl_(p) {}
    template <class H, class... T, typename std::enable_if<!(sizeof...(T) == 0 && std::is_base_of<ModuleHolder, std::decay_t<H>>::value) && !std::is_same<std::decay_t<H>, std::nullptr_t>::value, int>::type = 0>
    explicit ModuleHolder(H &&h, T &&...t) : impl_(std::make_shared<C>(std::forward<H>(h), std::forward<T>(t)...)) {}
    C *operator->() const { if (!impl_) fail("empty module holder"); return impl_.get(); } C &operator*() const { return *impl_; } C *get() const { return impl_.get(); }
    std::shared_ptr<C> ptr() const { return impl_; } explicit operator bool() const { return (bool)impl_; }
    template <class I> auto operator[](I &&i) const -> decltype((*impl_)[std::forward<I>(i)]) { return (*impl_)[std::forward<I>(i)]; }
    template <class... A> auto operator()(A &&...a) const { return impl_->forward(std::forward<A>(a)...); }
};
struct ParameterListImpl : Module {
    std::deque<Tensor> v;
    void append(const Tensor &t) { v.push_back(t); } void push_back(const Tensor &t) { v.push_back(t); }
    Tensor &operator[](size_t i) { if (i >= v.size()) fail("parameter list index out of range"); return v[i]; }
    Tensor &at(size_t i) { return (*this)[i]; }
    size_t size() const { return v.size(); } bool is_empty() const { return v.empty(); }
    std::deque<Tensor>::iterator begin() { return v.begin(); } std::deque<Tensor>::iterator end() { return v.end(); }
    void collect(std::vector<Tensor *> &o) override { for (auto &t : v) o.push_back(&t); }
};
struct ModuleListImpl : Module {
    std::vector<std::shared_ptr<Module>> v;
    template <class H, class I = typename H::Impl> void push_back(const H &h) { v.push_back(h.ptr()); }
    template <class M> void push_back(std::shared_ptr<M> m) { v.push_back(m); }
    std::shared_ptr<Module> operator[](size_t i) { if (i >= v.size()) fail("module list index out of range"); return v[i]; }
    template <class M> M &at(size_t i) { return *dynamic_cast<M *>(v.at(i).get()); }
    std::shared_ptr<Module> ptr(size_t i) { return v.at(i); }
    template <class M> std::shared_ptr<M> ptr(size_t i) { return std::dynamic_pointer_cast<M>(v.at(i)); }
    size_t size() const { return v.size(); }
    std::vector<std::shared_ptr<Module>>::iterator begin() { return v.begin(); } std::vector<std::shared_ptr<Module>>::iterator end() { return v.end(); }
    void collect(std::vector<Tensor *> &o) override { for (auto &m : v) m->collect(o); }
};
struct ParameterList : ModuleHolder<ParameterListImpl> { using ModuleHolder<ParameterListImpl>::ModuleHolder; };
struct ModuleList : ModuleHolder<ModuleListImpl> { using ModuleHolder<ModuleListImpl>::ModuleHolder; };
}
struct Library {
    template <class F> void def(const char *n, F f);
    template <class F> void impl(const char *n, F f) { def(n, f); }
};
}
#define TORCH_MODULE(N) class N : public torch::nn::ModuleHolder<N##Impl> { public: using torch::nn::ModuleHolder<N##Impl>::ModuleHolder; using Impl = N##Impl; }
#define TORCH_CHECK(C, ...) do { if (!(C)) c10::fail("check failed: " #C); } while (0)
#define AT_ASSERT(C) TORCH_CHECK(C)
#define TORCH_LIBRARY(NS, M) static void torch_library_##NS(torch::Library &); struct TorchReg_##NS { TorchReg_##NS() { torch::Library l; torch_library_##NS(l); } } torch_reg_##NS; static void torch_library_##NS(torch::Library &M)
#define AT_DISPATCH_FLOATING_TYPES(T, NAME, ...) do { if ((T) == c10::kFloat) { using scalar_t = FAKE_FLOAT; __VA_ARGS__(); } else { using scalar_t = Real; __VA_ARGS__(); } } while (0)
#if SYM
#define FAKE_FLOAT SymReal
#else
#define FAKE_FLOAT float
#endif
