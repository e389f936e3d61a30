// Symbolic scalar and harness environment.  Compiled twice from the same harness source:
//   -DSYM=1  Real = SymReal: every operation on a non-constant value goes to the Python engine,
//            every comparison on one forks the path;
//   -DSYM=0  Real = double: the replay build, against the unmodified sources in /repo.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <assert.h>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <chrono>
#include <thread>

typedef double real_double;

struct PathAbort {};
struct CodeEvent { std::string what; };

struct SymReal;
namespace std { template <> struct is_floating_point<SymReal> : true_type {}; }
struct Callbacks {
    int (*op)(int kind, const SymReal *a, const SymReal *b, SymReal *out);
    int (*cmp)(int kind, const SymReal *a, const SymReal *b);
    int (*toint)(int kind, const SymReal *a, int64_t *out);
    int (*fromd)(real_double x, SymReal *out);
    int (*real)(const char *name, real_double lo, real_double hi, SymReal *out, real_double *dout);
    int (*choose)(const char *name, int lo, int hi, int *out);
    int (*check)(int rel, const SymReal *a, const SymReal *b, const char *label);
    int (*checkd)(int rel, real_double a, real_double b, const char *label);
    int (*checkb)(int ok, const char *label);
    int (*assume)(int rel, const SymReal *a, const SymReal *b);
    int (*assumed)(int ok);
    int (*deriv)(const SymReal *v, real_double dv, const char *var, const SymReal *d, real_double dd, const char *label);
    int (*param)(const char *name, SymReal *out, real_double *dout, int *isset);
    int (*reach)(const char *label);
    int (*event)(const char *what);
    int (*cont)(const SymReal *a, real_double da, const char *var, const char *label, int order);
    int (*table)(const char *name, const int *data, int n);
};
extern Callbacks CB;
inline void cbk(int rc) { if (rc) throw PathAbort(); }

enum { OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_SQRT, OP_POW, OP_NEG, OP_ABS, OP_COS, OP_SIN, OP_EXP, OP_LOG, OP_TANH, OP_ACOS, OP_ASIN, OP_MIN, OP_MAX };
enum { C_LT, C_LE, C_EQ, C_NE, C_GT, C_GE };
enum { I_FLOOR, I_CEIL, I_TRUNC, I_ROUND, I_RINT };

// `int n = x;` with a double x needs SYM_IMPLICIT (the second attempt of a build); `c ? x : 0` needs it off
#ifdef SYM_IMPLICIT
#define SYM_EXPLICIT
#else
#define SYM_EXPLICIT explicit
#endif
struct SymReal {
    int64_t num;
    int32_t den;     // 0 stands for 1, so that all-zero bytes are the number zero
    int32_t id;      // > 0: symbolic term or big constant held by the engine
    SymReal() = default;
    SymReal(const SymReal &) = default;
    SymReal &operator=(const SymReal &) = default;
    template <class I, typename std::enable_if<std::is_integral<I>::value || std::is_enum<I>::value, int>::type = 0>
    constexpr SymReal(I x) : num((int64_t)x), den(1), id(0) {}
    constexpr SymReal(real_double x) : num(0), den(1), id(0) { set(x); }
    constexpr SymReal(float x) : num(0), den(1), id(0) { set((real_double)x); }
    constexpr SymReal(long double x) : num(0), den(1), id(0) { set((real_double)x); }
    constexpr void set(real_double x) {
        if (x < 9e15 && x > -9e15 && x == (real_double)(int64_t)x) { num = (int64_t)x; den = 1; id = 0; return; }
        int64_t d = 1;
        for (int k = 1; k <= 8; k++) {
            d *= 10;
            real_double y = x * (real_double)d;
            if (!(y <= 1e15 && y >= -1e15)) break;
            int64_t n = (int64_t)(y < 0 ? y - 0.5 : y + 0.5);
            if ((real_double)n / (real_double)d == x) { *this = make(n, d); return; }
        }
        cbk(CB.fromd(x, this));
    }
    static constexpr int64_t gcd(int64_t a, int64_t b) { if (a < 0) a = -a; while (b) { int64_t t = a % b; a = b; b = t; } return a ? a : 1; }
    static constexpr SymReal make(int64_t n, int64_t d) {
        int64_t g = gcd(n, d);
        SymReal r(0); r.num = n / g; r.den = (int32_t)(d / g); r.id = 0; return r;
    }
    constexpr int64_t D() const { return den ? den : 1; }
    constexpr bool isc() const { return id == 0; }
    template <class I, typename std::enable_if<std::is_integral<I>::value && !std::is_same<I, bool>::value, int>::type = 0>
    SYM_EXPLICIT operator I() const { int64_t o; cbk(CB.toint(I_TRUNC, this, &o)); return (I)o; }
    explicit operator bool() const { return cmpz(C_NE); }
    bool cmpz(int k) const;
    SymReal &operator+=(const SymReal &o);
    SymReal &operator-=(const SymReal &o);
    SymReal &operator*=(const SymReal &o);
    SymReal &operator/=(const SymReal &o);
    SymReal &operator++() { *this += SymReal(1); return *this; }
    SymReal operator++(int) { SymReal t = *this; *this += SymReal(1); return t; }
    SymReal &operator--() { *this -= SymReal(1); return *this; }
    SymReal operator--(int) { SymReal t = *this; *this -= SymReal(1); return t; }
};
static_assert(sizeof(SymReal) == 16, "SymReal layout");

// floor/ceil/round results also convert silently to integers, as double does in `int i = floor(x)`
struct SymInt : SymReal {
    explicit SymInt(int64_t k) : SymReal(k) {}
    template <class I, typename std::enable_if<std::is_integral<I>::value && !std::is_same<I, bool>::value, int>::type = 0>
    operator I() const { return (I)num; }
};

constexpr bool fit(__int128 n, __int128 d) { return n < ((__int128)1 << 62) && n > -((__int128)1 << 62) && d < ((__int128)1 << 31); }
constexpr bool mk128(__int128 n, __int128 d, SymReal &r) {
    if (n == 0) { r.num = 0; r.den = 1; r.id = 0; return true; }
    __int128 a = n < 0 ? -n : n, b = d;
    while (b) { __int128 t = a % b; a = b; b = t; }
    n /= a; d /= a;
    if (!fit(n, d)) return false;
    r.num = (int64_t)n; r.den = (int32_t)d; r.id = 0; return true;
}
inline SymReal symop(int k, const SymReal &a, const SymReal &b) { SymReal r; cbk(CB.op(k, &a, &b, &r)); return r; }
constexpr SymReal op_add(const SymReal &a, const SymReal &b) {
    if (a.isc() && b.isc()) { SymReal r(0); if (mk128((__int128)a.num * b.D() + (__int128)b.num * a.D(), (__int128)a.D() * b.D(), r)) return r; }
    if (a.isc() && a.num == 0) return b;
    if (b.isc() && b.num == 0) return a;
    return symop(OP_ADD, a, b);
}
constexpr SymReal op_sub(const SymReal &a, const SymReal &b) {
    if (a.isc() && b.isc()) { SymReal r(0); if (mk128((__int128)a.num * b.D() - (__int128)b.num * a.D(), (__int128)a.D() * b.D(), r)) return r; }
    if (b.isc() && b.num == 0) return a;
    return symop(OP_SUB, a, b);
}
constexpr SymReal op_mul(const SymReal &a, const SymReal &b) {
    if (a.isc() && b.isc()) { SymReal r(0); if (mk128((__int128)a.num * b.num, (__int128)a.D() * b.D(), r)) return r; }
    if (a.isc()) { if (a.num == 0) { if (b.id < 0) cbk(CB.event("read of uninitialised or foreign memory")); return SymReal(0); } if (a.num == 1 && a.D() == 1) return b; }
    if (b.isc()) { if (b.num == 0) { if (a.id < 0) cbk(CB.event("read of uninitialised or foreign memory")); return SymReal(0); } if (b.num == 1 && b.D() == 1) return a; }
    return symop(OP_MUL, a, b);
}
constexpr SymReal op_div(const SymReal &a, const SymReal &b) {
    if (a.isc() && b.isc() && b.num != 0) {
        __int128 n = (__int128)a.num * b.D(), d = (__int128)a.D() * b.num;
        if (d < 0) { d = -d; n = -n; }
        SymReal r(0); if (mk128(n, d, r)) return r;
    }
    return symop(OP_DIV, a, b);
}
constexpr bool op_cmp(int k, const SymReal &a, const SymReal &b) {
    if (a.isc() && b.isc()) {
        __int128 x = (__int128)a.num * b.D(), y = (__int128)b.num * a.D();
        switch (k) { case C_LT: return x < y; case C_LE: return x <= y; case C_EQ: return x == y; case C_NE: return x != y; case C_GT: return x > y; default: return x >= y; }
    }
    int rc = CB.cmp(k, &a, &b);
    if (rc == 2) throw PathAbort();
    return rc;
}
inline bool SymReal::cmpz(int k) const { return op_cmp(k, *this, SymReal(0)); }

#define SYM_IS_ARITH(A) typename std::enable_if<std::is_arithmetic<A>::value && !std::is_same<A, SymReal>::value, int>::type = 0
#define SYM_BIN(OPR, FN, RET) \
    constexpr RET operator OPR(const SymReal &a, const SymReal &b) { return FN(a, b); } \
    template <class A, SYM_IS_ARITH(A)> constexpr RET operator OPR(const SymReal &a, A b) { return FN(a, SymReal(b)); } \
    template <class A, SYM_IS_ARITH(A)> constexpr RET operator OPR(A a, const SymReal &b) { return FN(SymReal(a), b); }
SYM_BIN(+, op_add, SymReal)
SYM_BIN(-, op_sub, SymReal)
SYM_BIN(*, op_mul, SymReal)
SYM_BIN(/, op_div, SymReal)
#define SYM_CMPF(N, K) constexpr bool N(const SymReal &a, const SymReal &b) { return op_cmp(K, a, b); }
SYM_CMPF(f_lt, C_LT) SYM_CMPF(f_le, C_LE) SYM_CMPF(f_eq, C_EQ) SYM_CMPF(f_ne, C_NE) SYM_CMPF(f_gt, C_GT) SYM_CMPF(f_ge, C_GE)
SYM_BIN(<, f_lt, bool)
SYM_BIN(<=, f_le, bool)
SYM_BIN(==, f_eq, bool)
SYM_BIN(!=, f_ne, bool)
SYM_BIN(>, f_gt, bool)
SYM_BIN(>=, f_ge, bool)
constexpr SymReal operator-(const SymReal &a) { return op_sub(SymReal(0), a); }
constexpr SymReal operator+(const SymReal &a) { return a; }
inline bool operator!(const SymReal &a) { return !(bool)a; }
inline SymReal &SymReal::operator+=(const SymReal &o) { return *this = op_add(*this, o); }
inline SymReal &SymReal::operator-=(const SymReal &o) { return *this = op_sub(*this, o); }
inline SymReal &SymReal::operator*=(const SymReal &o) { return *this = op_mul(*this, o); }
inline SymReal &SymReal::operator/=(const SymReal &o) { return *this = op_div(*this, o); }

// whole numbers stay whole numbers: `int n = floor(x) + 1`
#define SYM_INTOP(OPR) \
    inline SymInt operator OPR(const SymInt &a, const SymInt &b) { return SymInt(a.num OPR b.num); } \
    template <class A, typename std::enable_if<std::is_integral<A>::value, int>::type = 0> inline SymInt operator OPR(const SymInt &a, A b) { return SymInt(a.num OPR (int64_t)b); } \
    template <class A, typename std::enable_if<std::is_integral<A>::value, int>::type = 0> inline SymInt operator OPR(A a, const SymInt &b) { return SymInt((int64_t)a OPR b.num); }
SYM_INTOP(+) SYM_INTOP(-) SYM_INTOP(*)
inline SymInt operator-(const SymInt &a) { return SymInt(-a.num); }
inline SymReal sym_abs(const SymReal &a) { return op_cmp(C_LT, a, SymReal(0)) ? -a : a; }
inline SymReal sym_sqrt(const SymReal &a) { return symop(OP_SQRT, a, a); }
inline SymReal sym_pow(const SymReal &a, const SymReal &b) {
    if (b.isc() && b.D() == 1 && b.num >= 0 && b.num <= 64) {
        SymReal r(1), x = a; int64_t n = b.num;
        while (n) { if (n & 1) r = r * x; n >>= 1; if (n) x = x * x; }
        return r;
    }
    return symop(OP_POW, a, b);
}
inline SymInt sym_int(int k, const SymReal &a) { int64_t o; cbk(CB.toint(k, &a, &o)); return SymInt(o); }
inline SymReal sym_max(const SymReal &a, const SymReal &b) { return a < b ? b : a; }
inline SymReal sym_min(const SymReal &a, const SymReal &b) { return b < a ? b : a; }
inline SymReal sym_fmod(const SymReal &a, const SymReal &b) { return a - b * SymReal(sym_int(I_TRUNC, a / b)); }
#define SYM_MATH \
    inline SymReal sqrt(const SymReal &a) { return sym_sqrt(a); } \
    inline SymReal abs(const SymReal &a) { return sym_abs(a); } \
    inline SymReal fabs(const SymReal &a) { return sym_abs(a); } \
    inline SymInt floor(const SymReal &a) { return sym_int(I_FLOOR, a); } \
    inline SymInt ceil(const SymReal &a) { return sym_int(I_CEIL, a); } \
    inline SymInt trunc(const SymReal &a) { return sym_int(I_TRUNC, a); } \
    inline SymInt round(const SymReal &a) { return sym_int(I_ROUND, a); } \
    inline SymInt rint(const SymReal &a) { return sym_int(I_RINT, a); } \
    inline SymInt nearbyint(const SymReal &a) { return sym_int(I_RINT, a); } \
    inline long lround(const SymReal &a) { return (long)sym_int(I_ROUND, a); } \
    inline SymReal cos(const SymReal &a) { return symop(OP_COS, a, a); } \
    inline SymReal sin(const SymReal &a) { return symop(OP_SIN, a, a); } \
    inline SymReal exp(const SymReal &a) { return symop(OP_EXP, a, a); } \
    inline SymReal log(const SymReal &a) { return symop(OP_LOG, a, a); } \
    inline SymReal tanh(const SymReal &a) { return symop(OP_TANH, a, a); } \
    inline SymReal acos(const SymReal &a) { return symop(OP_ACOS, a, a); } \
    inline SymReal asin(const SymReal &a) { return symop(OP_ASIN, a, a); } \
    inline SymReal pow(const SymReal &a, const SymReal &b) { return sym_pow(a, b); } \
    template <class A, SYM_IS_ARITH(A)> inline SymReal pow(const SymReal &a, A b) { return sym_pow(a, SymReal(b)); } \
    template <class A, SYM_IS_ARITH(A)> inline SymReal pow(A a, const SymReal &b) { return sym_pow(SymReal(a), b); } \
    inline SymReal fma(const SymReal &a, const SymReal &b, const SymReal &c) { return a * b + c; } \
    inline SymReal hypot(const SymReal &a, const SymReal &b) { return sym_sqrt(a * a + b * b); } \
    inline SymReal fmax(const SymReal &a, const SymReal &b) { return sym_max(a, b); } \
    inline SymReal fmin(const SymReal &a, const SymReal &b) { return sym_min(a, b); } \
    inline SymReal fmod(const SymReal &a, const SymReal &b) { return sym_fmod(a, b); } \
    inline bool isnan(const SymReal &) { return false; } \
    inline bool isinf(const SymReal &) { return false; } \
    inline bool isfinite(const SymReal &) { return true; } \
    inline bool signbit(const SymReal &a) { return a < 0; }
SYM_MATH
namespace std {
SYM_MATH
template <class A, SYM_IS_ARITH(A)> inline SymReal max(const SymReal &a, A b) { return sym_max(a, SymReal(b)); }
template <class A, SYM_IS_ARITH(A)> inline SymReal max(A a, const SymReal &b) { return sym_max(SymReal(a), b); }
template <class A, SYM_IS_ARITH(A)> inline SymReal min(const SymReal &a, A b) { return sym_min(a, SymReal(b)); }
template <class A, SYM_IS_ARITH(A)> inline SymReal min(A a, const SymReal &b) { return sym_min(SymReal(a), b); }
inline SymReal max(const SymInt &a, const SymInt &b) { return SymInt(std::max(a.num, b.num)); }
inline SymReal min(const SymInt &a, const SymInt &b) { return SymInt(std::min(a.num, b.num)); }
template <> struct numeric_limits<SymReal> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, has_infinity = false, has_quiet_NaN = false;
    static SymReal max() { return SymReal((int64_t)1000000000000000LL); }
    static SymReal min() { return SymReal::make(1, 1000000000LL); }
    static SymReal lowest() { return SymReal((int64_t)-1000000000000000LL); }
    static SymReal infinity() { return max(); }
    static SymReal epsilon() { return SymReal::make(1, 1000000000LL); }
};
}
namespace std {
inline string to_string(const SymReal &) { return "<sym>"; }
}
inline void *memset(void *p, const SymReal &v, size_t n) { return ::memset(p, (int)v, n); }
namespace std { inline void *memset(void *p, const SymReal &v, size_t n) { return ::memset(p, (int)v, n); } }
inline std::ostream &operator<<(std::ostream &o, const SymReal &) { return o << "<sym>"; }

// ------------------------------------------------------------------ environment
#if SYM
typedef SymReal Real;
inline Real env_real(const char *n, real_double lo, real_double hi) { SymReal r; real_double d; cbk(CB.real(n, lo, hi, &r, &d)); return r; }
#define ENV_REL(NAME, K) \
    inline void env_check_##NAME(const SymReal &a, const SymReal &b, const std::string &l) { cbk(CB.check(K, &a, &b, l.c_str())); } \
    inline void env_assume_##NAME(const SymReal &a, const SymReal &b) { cbk(CB.assume(K, &a, &b)); }
inline void env_deriv(const Real &v, const char *var, const Real &d, const std::string &l) { cbk(CB.deriv(&v, 0, var, &d, 0, l.c_str())); }
inline Real env_param(const char *n) { SymReal r; real_double d; int s; cbk(CB.param(n, &r, &d, &s)); return r; }
#else
typedef double Real;
inline Real env_real(const char *n, real_double lo, real_double hi) { SymReal r; real_double d; cbk(CB.real(n, lo, hi, &r, &d)); return d; }
#define ENV_REL(NAME, K) \
    inline void env_check_##NAME(Real a, Real b, const std::string &l) { cbk(CB.checkd(K, a, b, l.c_str())); } \
    inline void env_assume_##NAME(Real a, Real b) { bool ok = K == C_LT ? a < b : K == C_LE ? a <= b : K == C_EQ ? a == b : a != b; cbk(CB.assumed(ok)); }
inline void env_deriv(Real v, const char *var, Real d, const std::string &l) { SymReal z{}; cbk(CB.deriv(&z, v, var, &z, d, l.c_str())); }
inline Real env_param(const char *n) { SymReal r; real_double d; int s; cbk(CB.param(n, &r, &d, &s)); return d; }
#endif
ENV_REL(eq, C_EQ)
ENV_REL(le, C_LE)
ENV_REL(lt, C_LT)
ENV_REL(ne, C_NE)
inline void env_check(bool ok, const std::string &l) { cbk(CB.checkb(ok, l.c_str())); }
inline int env_int(const char *n, int lo, int hi) { int o; cbk(CB.choose(n, lo, hi, &o)); return o; }
inline int env_iparam(const char *n) { SymReal r; real_double d; int s; cbk(CB.param(n, &r, &d, &s)); return (int)d; }
inline void env_table(const char *n, const std::vector<int> &v) { cbk(CB.table(n, v.data(), (int)v.size())); }
inline void env_reach(const std::string &l) { cbk(CB.reach(l.c_str())); }
inline std::string nm(const std::string &a, long i) { return a + std::to_string(i); }
inline std::string nm(const std::string &a, long i, const std::string &b, long j) { return a + std::to_string(i) + b + std::to_string(j); }
inline Real env_realn(const std::string &n, real_double lo, real_double hi) { return env_real(n.c_str(), lo, hi); }
inline Real rat(long n, long d) { return Real(n) / Real(d); }

typedef void (*CaseFn)();
struct CaseReg { CaseReg(const char *n, CaseFn f) { table()[n] = f; } static std::map<std::string, CaseFn> &table() { static std::map<std::string, CaseFn> t; return t; } };
#define CASE(NAME) static void case_##NAME(); static CaseReg reg_##NAME(#NAME, case_##NAME); static void case_##NAME()

// memory monitor (implemented in memmon.h, part of every harness library)
long mem_live();                       // blocks allocated by the code under test and not yet released
