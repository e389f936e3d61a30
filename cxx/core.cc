// Harness: the core library (vectors, multi-dimensional arrays, aligned arrays) and moment-tensor template files.
#include "sym.h"
#include "memmon.h"
#include <cassert>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include "core/include/vec3Operation.h"
#include "core/include/arrayUtils.h"
#include "core/include/AlignedArray.h"
#if SYM
#define double SymReal
#endif
#include "core/include/vecx.h"
#undef double
#include "descriptor/mtpr/src/mtpParam.cc"
using namespace matersdk;

struct V { Real a[3], b[3], s; };
static V vecs() {
    V v;
    for (int k = 0; k < 3; k++) { v.a[k] = env_realn(nm("a", k), -8, 8); v.b[k] = env_realn(nm("b", k), -8, 8); }
    v.s = env_real("s", -8, 8);
    return v;
}
static Vec3 mk(const Real *x) { return Vec3(x[0], x[1], x[2]); }
static void same(const Vec3 &u, Real x, Real y, Real z, const char *l) { env_check_eq(u[0], x, l); env_check_eq(u[1], y, l); env_check_eq(u[2], z, l); }

CASE(vec3_arith) {
    V v = vecs();
    Vec3 z; same(z, Real(0), Real(0), Real(0), "default vector is zero");
    const Vec3 a = mk(v.a), b = mk(v.b);
    Real *x = v.a, *y = v.b;
    same(+a, x[0], x[1], x[2], "unary plus");
    same(-a, -x[0], -x[1], -x[2], "negation");
    same(a + b, x[0] + y[0], x[1] + y[1], x[2] + y[2], "sum");
    same(a - b, x[0] - y[0], x[1] - y[1], x[2] - y[2], "difference");
    same(a * v.s, x[0] * v.s, x[1] * v.s, x[2] * v.s, "product with a number");
    same(v.s * a, x[0] * v.s, x[1] * v.s, x[2] * v.s, "number times vector");
    env_check_eq(a.dot(b), x[0] * y[0] + x[1] * y[1] + x[2] * y[2], "dot product");
    same(a.cross(b), x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0], "cross product");
    Vec3 c = a; Vec3 &r1 = (c += b); same(c, x[0] + y[0], x[1] + y[1], x[2] + y[2], "sum in place");
    Vec3 d = a; Vec3 &r2 = (d -= b); same(d, x[0] - y[0], x[1] - y[1], x[2] - y[2], "difference in place");
    Vec3 e = a; Vec3 &r3 = (e *= v.s); same(e, x[0] * v.s, x[1] * v.s, x[2] * v.s, "scaled in place");
    env_check(&r1 == &c && &r2 == &d && &r3 == &e, "in-place operators yield the vector itself");
    Vec3 f = a; f += f; same(f, x[0] * Real(2), x[1] * Real(2), x[2] * Real(2), "added to itself");
    Vec3 g = a; g -= g; same(g, Real(0), Real(0), Real(0), "subtracted from itself");
    Vec3 h = a; h[1] = v.s; same(h, x[0], v.s, x[2], "one component set");
    same(a, x[0], x[1], x[2], "left operand untouched"); same(b, y[0], y[1], y[2], "right operand untouched");
    env_reach("end");
}
CASE(vec3_div) {
    V v = vecs();
    env_assume_le(rat(1, 16), v.s * v.s);
    Vec3 a = mk(v.a), q = a / v.s, w = a;
    Vec3 &r = (w /= v.s);
    env_check(&r == &w, "in-place division yields the vector itself");
    for (int k = 0; k < 3; k++) { env_check_eq(q[k] * v.s, v.a[k], "division by a number"); env_check_eq(w[k] * v.s, v.a[k], "division in place"); env_check_eq(a[k], v.a[k], "operand untouched"); }
    env_reach("end");
}
CASE(vec3_equal) {
    V v = vecs();
    int differ = env_int("differ", 0, 3);
    Real y[3] = {v.a[0], v.a[1], v.a[2]};
    if (differ < 3) y[differ] = v.b[differ];
    Vec3 a = mk(v.a), b = mk(y);
    bool eq = a == b, ne = a != b;
    env_check(eq != ne, "unequal is the opposite of equal");
    bool want = differ == 3 || v.a[differ] == y[differ];
    env_check(eq == want, "equal exactly when all components are");
    env_reach(want ? "equal" : "different");
}
CASE(vec_ops) {
    V v = vecs();
    long base = mem_live();
    env_check_eq(vec3Operation::dot<Real>(v.a, v.b), v.a[0] * v.b[0] + v.a[1] * v.b[1] + v.a[2] * v.b[2], "dot product");
    Real *c = vec3Operation::cross<Real>(v.a, v.b);
    env_check_eq(c[0], v.a[1] * v.b[2] - v.a[2] * v.b[1], "cross product"); env_check_eq(c[1], v.a[2] * v.b[0] - v.a[0] * v.b[2], "cross product"); env_check_eq(c[2], v.a[0] * v.b[1] - v.a[1] * v.b[0], "cross product");
    free(c);
    env_check(mem_live() == base, "no heap block left behind");
    env_check(mem_state().empty(), "heap intact: " + mem_state());
    env_reach("end");
}
CASE(vec_norm) {
    Real a[3];
    int axis = env_int("axis", 0, 2);
    for (int k = 0; k < 3; k++) a[k] = k == axis ? env_real("x", -8, 8) : rat(k == 1 ? 3 : -2, 1);
    Real sq = a[0] * a[0] + a[1] * a[1] + a[2] * a[2], n = vec3Operation::norm<Real>(a);
    env_check(n >= Real(0), "norm is not negative");
    env_check_eq(n * n, sq, "norm squared is the sum of squares");
    Real *u = vec3Operation::normalize<Real>(a);
    for (int k = 0; k < 3; k++) env_check_eq(u[k] * n, a[k], "unit vector");
    free(u);
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
CASE(vec_outer) {
    Real v[3];
    for (int k = 0; k < 3; k++) v[k] = env_realn(nm("v", k), -8, 8);
    int nu = env_int("rank", 1, env_iparam("nmax")), rows = 1;
    for (int i = 1; i < nu; i++) rows *= 3;
    Real **o = vec3Operation::RecursionOuterProduct<Real>(nu, v);
    for (int r = 0; r < rows; r++) for (int c = 0; c < 3; c++) {
        Real e = v[c]; int q = r;
        for (int i = 1; i < nu; i++) { e = e * v[q % 3]; q /= 3; }
        env_check_eq(o[r][c], e, "tensor power component");
    }
    for (int r = 0; r < rows; r++) free(o[r]);
    free(o);
    env_check(mem_state().empty(), "heap intact: " + mem_state());
    env_check(mem_live() == 0, "only the returned rows are left to the caller");
    env_reach("end");
}

// every element has its own storage, zero when asked, and release gives everything back
template <class T, class P, class AT> static void array_case(P p, int n, AT at, bool init, T first) {
    if (init) for (int i = 0; i < n; i++) env_check(at(p, i) == T(0), "elements start at zero");
    for (int i = 0; i < n; i++) at(p, i) = first + T(i);
    for (int i = 0; i < n; i++) env_check(at(p, i) == first + T(i), "every element has its own place");
}
template <class T> static void arrays(int dim, const int *n, bool init) {
    int total = 1; for (int k = 0; k < dim; k++) total *= n[k];
    if (dim == 3) {
        T ***p = arrayUtils::allocate3dArray<T>(n[0], n[1], n[2], init);
        array_case<T>(p, total, [&](T ***q, int i) -> T & { return q[i / n[2] / n[1]][i / n[2] % n[1]][i % n[2]]; }, init, T(5));
        env_check(mem_state().empty(), "heap intact: " + mem_state());
        arrayUtils::free3dArray<T>(p, n[0], n[1]);
    } else if (dim == 4) {
        T ****p = arrayUtils::allocate4dArray<T>(n[0], n[1], n[2], n[3], init);
        array_case<T>(p, total, [&](T ****q, int i) -> T & { int b = i / n[3]; return q[b / n[2] / n[1]][b / n[2] % n[1]][b % n[2]][i % n[3]]; }, init, T(5));
        env_check(mem_state().empty(), "heap intact: " + mem_state());
        arrayUtils::free4dArray<T>(p, n[0], n[1], n[2]);
    } else {
        T *****p = arrayUtils::allocate5dArray<T>(n[0], n[1], n[2], n[3], n[4], init);
        array_case<T>(p, total, [&](T *****q, int i) -> T & { int c = i / n[4], b = c / n[3]; return q[b / n[2] / n[1]][b / n[2] % n[1]][b % n[2]][c % n[3]][i % n[4]]; }, init, T(5));
        env_check(mem_state().empty(), "heap intact: " + mem_state());
        arrayUtils::free5dArray<T>(p, n[0], n[1], n[2], n[3]);
    }
    env_check(mem_state().empty(), "heap intact: " + mem_state());
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
CASE(array_nd) {
    int dim = env_iparam("dim"), top = env_iparam("top"), n[5];
    for (int k = 0; k < dim; k++) n[k] = env_int(nm("n", k).c_str(), k == dim - 1 ? 0 : 1, k % 2 ? top : top + 1);
    bool init = env_int("init", 0, 1);
    if (env_int("ints", 0, 1)) arrays<int>(dim, n, init); else arrays<Real>(dim, n, init);
}

template <class T> static void aligned() {
    int skew = env_int("skew", 0, 15), n = env_int("n", 0, 5), m = env_int("m", 0, 5), how = env_int("how", 0, 3);
    mem_skew = skew;
    long base = mem_live();
    {
        AlignedArray<T> *p = how == 0 ? new AlignedArray<T>() : new AlignedArray<T>(n);
        if (how == 0) { env_check(p->size() == 0, "default array is empty"); p->resize(n); }
        AlignedArray<T> &a = *p;
        env_check(a.size() == n, "size as asked");
        if (n) env_check((uintptr_t)&a[0] % 16 == 0, "starts at a 16-byte boundary");
        for (int i = 0; i < n; i++) a[i] = T(i + 1);
        const AlignedArray<T> &c = a;
        for (int i = 0; i < n; i++) env_check(c[i] == T(i + 1), "holds what was written");
        if (how == 1) {                                   // another size: only the size and the room count
            a.resize(m);
            env_check(a.size() == m, "size as asked");
            if (m) env_check((uintptr_t)&a[0] % 16 == 0, "starts at a 16-byte boundary");
            if (m == n) for (int i = 0; i < n; i++) env_check(c[i] == T(i + 1), "same size keeps the contents");
            for (int i = 0; i < m; i++) a[i] = T(i + 7);
            for (int i = 0; i < m; i++) env_check(c[i] == T(i + 7), "holds what was written");
            env_reach("resized");
        } else if (how == 2) {                            // copies own their elements
            AlignedArray<T> b(a), d(m);
            for (int i = 0; i < m; i++) d[i] = T(0);
            d = a; b = b;
            if (n) { a[0] = T(99); env_check((uintptr_t)&b[0] % 16 == 0 && (uintptr_t)&d[0] % 16 == 0, "starts at a 16-byte boundary"); }
            env_check(b.size() == n && d.size() == n, "copies have the size");
            for (int i = 0; i < n; i++) env_check(b[i] == T(i + 1) && d[i] == T(i + 1), "copies keep their elements");
            env_reach("copied");
        }
        delete p;
    }
    env_check(mem_state().empty(), "heap intact: " + mem_state());
    env_check(mem_live() == base, "no heap block left behind");
    env_reach("end");
}
CASE(aligned_int) { aligned<int>(); }
CASE(aligned_real) { aligned<real_double>(); }
CASE(aligned_char) { aligned<char>(); }

// moment-tensor template files
static const char *KEYS[7] = {"alpha_moments_count", "alpha_index_basic_count", "alpha_index_basic", "alpha_index_times_count", "alpha_index_times", "alpha_scalar_moments", "alpha_moment_mapping"};
struct Tab { int count, nb, nt, ns, kind; };
static int cell(const Tab &t, int which, int i, int k) {
    int v = which * 3 + i * 7 + k * 2;
    return t.kind == 0 ? v % 10 : t.kind == 1 ? v * 37 % 1000 : t.kind == 2 ? 2147483647 - v : (v % 2 ? -v : v);
}
static std::string table(const Tab &t, int which, int n) {
    std::string o = "{";
    for (int i = 0; i < n; i++) { o += i ? ", {" : "{"; for (int k = 0; k < 4; k++) o += (k ? ", " : "") + std::to_string(cell(t, which, i, k)); o += "}"; }
    return o + "}";
}
// wrong: the keyword replaced by something else; cut: the file ends before this keyword
static std::string text(const Tab &t, int wrong, int cut, bool newline) {
    std::string val[7] = {std::to_string(t.count), std::to_string(t.nb), table(t, 0, t.nb), std::to_string(t.nt), table(t, 1, t.nt), std::to_string(t.ns), "{"}, o;
    for (int i = 0; i < t.ns; i++) val[6] += (i ? ", " : "") + std::to_string(cell(t, 2, i, 0));
    val[6] += "}";
    for (int i = 0; i < 10; i++) o += i == 6 ? "\tmin_dist = 2\n" : i == 4 ? "potential_tag = \n" : "header line = 1\n";
    for (int k = 0; k < 7 && k != cut; k++) o += std::string(k == wrong ? "beta_count" : KEYS[k]) + " = " + val[k] + (k < 6 || newline ? "\n" : "");
    return o;
}
static std::string scratch(const std::string &s) {
    char path[] = "/tmp/verif_core_XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) throw CodeEvent{"scratch file"};
    close(fd);
    return path;
}
CASE(template_load) {
    int big = env_iparam("big");
    Tab t;
    t.kind = env_int("values", 0, 3);
    t.count = big ? 1234 : env_int("count", 0, 2);
    t.nb = big ? big : env_int("basic", 1, 3); t.nt = big ? 2 * big : env_int("times", 0, 3); t.ns = big ? big + 1 : env_int("scalars", 1, 3);
    std::string f = scratch(text(t, -1, -1, env_int("newline", 0, 1)));
    try {
        mtpr::MtpParam p(f);
        unlink(f.c_str());
        env_check(p.alpha_moments_count() == t.count, "number of moments");
        env_check(p.alpha_index_basic_count() == t.nb, "number of basic moments");
        env_check(p.alpha_index_times_count() == t.nt, "number of products");
        env_check(p.alpha_scalar_moments() == t.ns, "number of scalars");
        for (int i = 0; i < t.nb; i++) for (int k = 0; k < 4; k++) env_check(p.alpha_index_basic()[i][k] == cell(t, 0, i, k), "basic moments as in the file");
        for (int i = 0; i < t.nt; i++) for (int k = 0; k < 4; k++) env_check(p.alpha_index_times()[i][k] == cell(t, 1, i, k), "products as in the file");
        for (int i = 0; i < t.ns; i++) env_check(p.alpha_moment_mapping()[i] == cell(t, 2, i, 0), "mapping as in the file");
        env_check(mem_state().empty(), "heap intact: " + mem_state());
    } catch (...) { unlink(f.c_str()); throw; }
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
CASE(template_reject) {
    Tab t = {4, env_int("basic", 1, 2), env_int("times", 0, 2), 2, 0};
    int what = env_int("what", 0, 2), key = env_int("key", 0, 6);
    std::string f = what == 2 ? "/nonexistent/verif.almtp" : scratch(text(t, what == 0 ? key : -1, what == 1 ? key : -1, true));
    bool rejected = false;
    try { mtpr::MtpParam p(f); } catch (mtpr::MtpException &) { rejected = true; } catch (...) { if (what != 2) unlink(f.c_str()); throw; }
    if (what != 2) unlink(f.c_str());
    env_check(rejected, what == 0 ? "a wrong keyword is reported" : what == 1 ? "a file that ends early is reported" : "a missing file is reported");
    env_reach(what == 0 ? "wrong keyword" : what == 1 ? "short" : "missing");
}
