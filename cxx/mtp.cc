// Harness: moment-tensor-potential radial bases and their derivatives.
#include "sym.h"
#include "memmon.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
using namespace matersdk;

static Real ref_switch(Real r, Real rc, Real rs) { Real u = (r - rs) / (rc - rs); return u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1); }
// explicit Chebyshev polynomials of the first kind and their derivatives
static const int TC[8][8] = {{1}, {0, 1}, {-1, 0, 2}, {0, -3, 0, 4}, {1, 0, -8, 0, 8}, {0, 5, 0, -20, 0, 16}, {-1, 0, 18, 0, -48, 0, 32}, {0, -7, 0, 56, 0, -112, 0, 64}};
static Real cheb(int n, Real x) { Real o = Real(0), p = Real(1); for (int k = 0; k <= n; k++) { o = o + p * Real(TC[n][k]); p = p * x; } return o; }
static Real dcheb(int n, Real x) { Real o = Real(0), p = Real(1); for (int k = 1; k <= n; k++) { o = o + p * Real(TC[n][k] * k); p = p * x; } return o; }

struct Arg { Real rc, rs, r; int size; };
static Arg args(bool inside) {
    Arg a;
    a.rc = env_real("rc", 0.5, 12); a.rs = env_real("rs", 0, 10); a.r = env_real("r", 0, 16);
    env_assume_le(a.rs + rat(1, 8), a.rc);
    if (inside) { env_assume_le(a.rs, a.r); env_assume_le(a.r, a.rc); }
    a.size = env_int("size", 0, env_iparam("nmax"));
    return a;
}
static Real xi(const Arg &a) { return (Real(2) * a.r - (a.rc + a.rs)) / (a.rc - a.rs); }

CASE(mtp_switch) {
    Arg a = args(false);
    mtp::MtpSwitchFunc2<Real> s(a.rc, a.rs);
    mtp::MtpSwitchFunc1<Real> m(a.rc, a.rs);
    env_check_eq(m.get_result(a.r), xi(a), "distance scaled to [-1, 1]");
    env_check_eq(m.get_deriv2r() * (a.rc - a.rs), Real(2), "slope of the scaled distance");
    if (a.r < a.rs) { env_check_eq(s.get_result(a.r), Real(0), "zero below the inner radius"); env_check_eq(s.get_deriv2r(a.r), Real(0), "flat below the inner radius"); env_reach("below"); }
    else if (a.r < a.rc) { env_check_eq(s.get_result(a.r), ref_switch(a.r, a.rc, a.rs), "quintic between the radii"); env_reach("between"); }
    else { env_check_eq(s.get_result(a.r), Real(0), "zero at and beyond the cutoff"); env_check_eq(s.get_deriv2r(a.r), Real(0), "flat at and beyond the cutoff"); env_reach("beyond"); }
    env_deriv(s.get_result(a.r), "r", s.get_deriv2r(a.r), "derivative of the switching function");
}
CASE(mtp_cheb) {
    Arg a = args(false);
    {
        mtp::ChebyshevPoly<Real> c(a.size, a.rc, a.rs);
        if (env_int("twice", 0, 1)) c.build(rat(1, 3) * a.r + rat(2, 3) * a.rs);
        c.build(a.r);
        env_check(c.size() == a.size, "size kept");
        bool in = a.rs <= a.r && a.r < a.rc;
        for (int n = 0; n < a.size; n++) {
            env_check_eq(c.get_result()[n], in ? cheb(n, xi(a)) : Real(0), nm("polynomial ", n));
            env_check_eq(c.get_deriv2xi()[n], in ? dcheb(n, xi(a)) : Real(0), nm("derivative in the scaled distance ", n));
            env_deriv(c.get_result()[n], "r", c.get_deriv2r()[n], nm("derivative in the distance ", n));
            env_reach("term");
        }
    }
    env_check(mem_live() == 0, "no heap block left behind");
}
CASE(mtp_q) {
    Arg a = args(false);
    {
        mtp::MtpQ<Real> c(a.size, a.rc, a.rs);
        if (env_int("twice", 0, 1)) c.build(rat(1, 3) * a.r + rat(2, 3) * a.rs);
        c.build(a.r);
        env_check(c.size() == a.size, "size kept");
        bool in = a.rs <= a.r && a.r < a.rc;
        for (int n = 0; n < a.size; n++) {
            env_check_eq(c.get_result()[n], in ? cheb(n, xi(a)) * ref_switch(a.r, a.rc, a.rs) : Real(0), nm("radial function ", n));
            env_deriv(c.get_result()[n], "r", c.get_deriv2r()[n], nm("radial derivative ", n));
            if (in) env_reach("inside"); else env_reach("outside");
        }
    }
    env_check(mem_live() == 0, "no heap block left behind");
}
// the continuity a force field needs at the cutoff
CASE(mtp_cutoff) {
    Arg a = args(false);
    {
        mtp::MtpQ<Real> c(a.size, a.rc, a.rs);
        c.build(a.rc);
        for (int n = 0; n < a.size; n++) { env_check_eq(c.get_result()[n], Real(0), "zero at the cutoff"); env_check_eq(c.get_deriv2r()[n], Real(0), "flat at the cutoff"); env_reach("term"); }
        // just inside: the product vanishes to third order
        Real e = env_real("e", 0.0625, 1);
        env_assume_lt(e, Real(1));
        c.build(a.rc - e * (a.rc - a.rs));
        Real u = Real(1) - e, w = u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1);
        env_check_eq(w, e * e * e * (Real(10) - Real(15) * e + Real(6) * e * e), "cubic approach");
        if (a.size > 0) env_check_eq(c.get_result()[0], e * e * e * (Real(10) - Real(15) * e + Real(6) * e * e), "vanishes to third order at the cutoff");
    }
    env_check(mem_live() == 0, "no heap block left behind");
}
CASE(mtpr_rb) {
    Arg a = args(true);
    {
        mtpr::RB_Chebyshev<Real> c(a.size, a.rc, a.rs);
        if (env_int("twice", 0, 1)) c.build(rat(1, 3) * a.r + rat(2, 3) * a.rs);
        c.build(a.r);
        env_check(c.size() == a.size, "size kept");
        env_check_eq(c.rmax(), a.rc, "outer radius kept"); env_check_eq(c.rmin(), a.rs, "inner radius kept");
        for (int n = 0; n < a.size; n++) {
            env_check_eq(c.vals()[n], cheb(n, xi(a)), nm("polynomial ", n));
            env_check_eq(c.ders2uu()[n], dcheb(n, xi(a)), nm("derivative in the scaled distance ", n));
            env_deriv(c.vals()[n], "r", c.ders2r()[n], nm("derivative in the distance ", n));
            env_reach("term");
        }
    }
    env_check(mem_live() == 0, "no heap block left behind");
}
CASE(mtpr_rq) {
    Arg a = args(true);
    {
        mtpr::RQ_Chebyshev<Real> c(a.size, a.rc, a.rs);
        if (env_int("twice", 0, 1)) c.build(rat(1, 3) * a.r + rat(2, 3) * a.rs);
        c.build(a.r);
        env_check(c.size() == a.size, "size kept");
        env_check_eq(c.rmax(), a.rc, "outer radius kept"); env_check_eq(c.rmin(), a.rs, "inner radius kept");
        bool in = a.r < a.rc;
        for (int n = 0; n < a.size; n++) {
            env_check_eq(c.vals()[n], in ? cheb(n, xi(a)) * ref_switch(a.r, a.rc, a.rs) : Real(0), nm("radial function ", n));
            env_deriv(c.vals()[n], "r", c.ders2r()[n], nm("radial derivative ", n));
            env_reach(in ? "inside" : "at the cutoff");
        }
        mtpr::SwitchFunction<Real> s(a.rc, a.rs);
        env_deriv(s.val(a.r), "r", s.der2r(a.r), "derivative of the switching function");
    }
    env_check(mem_live() == 0, "no heap block left behind");
}
// the older all-in-one radial basis: switching function equal to one below the inner radius
CASE(mtp_rbc) {
    Arg a = args(false);
    mtp::RadialBasisChebyshev<Real> c(a.rc, a.rs, a.size, a.r);
    Real w = a.r < a.rs ? Real(1) : a.r < a.rc ? ref_switch(a.r, a.rc, a.rs) : Real(0);
    for (int n = 0; n <= a.size && n < 8; n++) {
        env_check_eq(c.get_chebyshev_vals()[n], cheb(n, xi(a)), nm("polynomial ", n));
        env_deriv(c.get_chebyshev_vals()[n], "r", c.get_chebyshev_ders()[n], nm("polynomial derivative ", n));
        env_check_eq(c.get_rb_vals()[n], cheb(n, xi(a)) * w, nm("radial function ", n));
        env_deriv(c.get_rb_vals()[n], "r", c.get_rb_ders()[n], nm("radial derivative ", n));
        env_reach(a.r < a.rs ? "below" : a.r < a.rc ? "between" : "beyond");
    }
}
CASE(outer_product) {
    Real v[3];
    for (int k = 0; k < 3; k++) v[k] = env_realn(nm("v", k), -8, 8);
    int nu = env_int("rank", 1, 4), rows = 1;
    for (int i = 1; i < nu; i++) rows *= 3;
    Real **o = vec3Operation::RecursionOuterProduct<Real>(nu, v);
    for (int r = 0; r < rows; r++) for (int c = 0; c < 3; c++) {
        Real e = v[c]; int q = r;
        for (int i = 1; i < nu; i++) { e = e * v[q % 3]; q /= 3; }
        env_check_eq(o[r][c], e, "tensor power component");
    }
    env_reach("end");
}
