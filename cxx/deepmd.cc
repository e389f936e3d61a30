// Harness: DeepPot-SE switching function, environment matrix and its derivatives.
#include "sym.h"
#include "memmon.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/deepmd/include/envMatrix.h"
#include "descriptor/deepmd/include/se4pw.h"
using namespace matersdk;
using namespace matersdk::deepPotSE;

// ---------------------------------------------------------------- reference definitions
static Real ref_switch(Real r, Real rc, Real rs) {
    if (r < rs) return Real(1);
    if (r < rc) { Real u = (r - rs) / (rc - rs); return u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1); }
    return Real(0);
}

CASE(switch_value) {
    Real rc = env_real("rc", 0.5, 12), rs = env_real("rs", 0, 10), r = env_real("r", 0, 16);
    env_assume_le(rs + rat(1, 8), rc);
    SwitchFunc<Real> sw(rc, rs);
    Real v = sw.get_result(r);
    if (r < rs) { env_check_eq(v, Real(1), "one below the inner cutoff"); env_reach("inner"); }
    else if (r < rc) { env_check_eq(v, ref_switch(r, rc, rs), "quintic between the cutoffs"); env_reach("mid"); }
    else { env_check_eq(v, Real(0), "zero at and beyond the outer cutoff"); env_reach("outer"); }
    env_check_eq(sw.get_result(rs), Real(1), "continuous at the inner cutoff");
    env_check_eq(sw.get_result(rc), Real(0), "zero exactly at the outer cutoff");
}
CASE(switch_range) {
    Real rc = env_param("rc"), rs = env_param("rs"), r = env_real("r", 0, 16);
    SwitchFunc<Real> sw(rc, rs);
    Real v = sw.get_result(r), d = sw.get_deriv2r(r);
    env_check_le(Real(0), v, "never negative");
    env_check_le(v, Real(1), "never above one");
    env_check_le(d, Real(0), "never increasing");
    Real s = smooth_func<Real>(r + rat(1, 16), rc, rs);
    env_check_le(Real(0), s, "weight never negative");
    // limits from inside: small at the outer cutoff, near one at the inner
    if (r < rc && r > rc - rat(1, 64)) { env_check_le(v, rat(1, 1000), "fades out at the outer cutoff"); env_reach("near rc"); }
    if (r > rs && r < rs + rat(1, 64)) { env_check_le(rat(999, 1000), v, "starts at one at the inner cutoff"); env_reach("near rs"); }
}
CASE(switch_deriv) {
    Real rc = env_real("rc", 0.5, 12), rs = env_real("rs", 0, 10), r = env_real("r", 0, 16);
    env_assume_le(rs + rat(1, 8), rc);
    SwitchFunc<Real> sw(rc, rs);
    env_deriv(sw.get_result(r), "r", sw.get_deriv2r(r), "derivative of the switching function");
    env_check_eq(sw.get_deriv2r(rs), Real(0), "derivative vanishes at the inner cutoff");
    env_check_eq(sw.get_deriv2r(rc), Real(0), "derivative vanishes at the outer cutoff");
    if (r < rs) env_check_eq(sw.get_deriv2r(r), Real(0), "flat below the inner cutoff");
    if (r >= rc) { env_check_eq(sw.get_deriv2r(r), Real(0), "flat beyond the outer cutoff"); env_reach("outer"); }
}
CASE(smooth_value) {
    Real rc = env_real("rc", 0.5, 12), rs = env_real("rs", 0, 10), r = env_real("r", 0, 16);
    env_assume_le(rs + rat(1, 8), rc);
    if (r == Real(0)) { env_check_eq(recip<Real>(r), Real(0), "reciprocal of zero is zero"); return; }
    env_check_eq(recip<Real>(r) * r, Real(1), "reciprocal");
    env_check_eq(smooth_func<Real>(r, rc, rs) * r, ref_switch(r, rc, rs), "weight is switching function over distance");
    env_reach("end");
}

// ---------------------------------------------------------------- a small system
struct Sys {
    int nall, inum, ntypes, umax;
    int *types, *ilist, *numneigh, *flat;
    int **firstneigh;
    Real **x, *xf, *rel;
    int *cap;
    std::vector<std::vector<int>> nb;
    Real rc, rs;
    int axes;
    bool on(int k) const { return axes >> k & 1; }
    static const char *axis(int k) { return k == 0 ? "x" : k == 1 ? "y" : "z"; }
    void free_all() {
        for (int i = 0; i < nall; i++) free(x[i]);
        for (int i = 0; i < inum; i++) free(firstneigh[i]);
        free(x); free(xf); free(rel); free(types); free(ilist); free(numneigh); free(flat); free(firstneigh); free(cap);
    }
};
template <class A> static A *arr(size_t n) { return (A *)malloc(sizeof(A) * n); }

// mode 0: the symbolic atom is the centre (derivatives with respect to the centre's position)
// mode 1: the symbolic quantity is the displacement of one neighbour (flat arrays with relative coordinates)
static Sys make_sys(int mode) {
    Sys s;
    int shape = env_iparam("shape"); s.axes = env_iparam("axes");
    s.rc = env_param("rc"); s.rs = env_param("rs");
    s.nall = shape == 4 ? 14 : 5; s.inum = shape == 4 ? 3 : 2; s.ntypes = env_iparam("ntypes");
    s.types = arr<int>(s.nall);
    int symtypes = env_iparam("symtypes");
    for (int i = 0; i < s.nall; i++) s.types[i] = (symtypes && i < symtypes) ? env_int(nm("type", i).c_str(), 0, s.ntypes - 1) : (i * 3 + 1) % 5 % s.ntypes;
    s.ilist = arr<int>(s.inum);
    s.ilist[0] = shape == 1 ? 1 : 0; s.ilist[1] = shape == 1 ? 0 : 1;
    if (shape == 4) { s.ilist[2] = 5; s.nb = {{2, 4, 3, 1, 5, 6, 7, 8, 9, 10, 11, 12}, {0, 3, 13, 5}, {12, 11, 10, 9, 8, 7, 6, 4, 3, 2, 1, 0}}; }
    else if (shape == 2) { s.nb = {{3, 1}, {4}}; }
    else if (shape == 3) { s.nb = {{}, {2, 0, 4}}; }
    else { s.nb = {{2, 4, 3}, {0, 3}}; if (shape == 1) s.nb = {{0, 3}, {2, 4, 3}}; }
    s.x = arr<Real *>(s.nall);
    for (int i = 0; i < s.nall; i++) s.x[i] = arr<Real>(3);
    static const int P[14][3] = {{0, 0, 0}, {3, 1, -2}, {2, -1, 1}, {-1, 2, 2}, {0, -3, 2}, {1, 1, 1}, {-2, 1, -1}, {2, 2, -1}, {-1, -2, 1}, {1, -1, -3}, {-3, 1, 1}, {1, 3, -1}, {-2, -1, -2}, {3, -2, 2}};
    for (int i = 0; i < s.nall; i++) for (int k = 0; k < 3; k++) s.x[i][k] = rat(P[i][k], 1);
    if (mode == 0) for (int k = 0; k < 3; k++) if (s.on(k)) s.x[0][k] = env_real(Sys::axis(k), -4, 4);
    s.xf = arr<Real>(3 * s.nall);
    s.cap = arr<int>(s.ntypes);
    s.umax = 0;
    for (int t = 0; t < s.ntypes; t++) s.umax += s.cap[t] = env_iparam(nm("cap", t).c_str());
    s.numneigh = arr<int>(s.inum);
    s.firstneigh = arr<int *>(s.inum);
    s.flat = arr<int>(s.inum * s.umax);
    s.rel = arr<Real>(s.inum * s.umax * 3);
    for (int i = 0; i < s.inum * s.umax; i++) s.flat[i] = -1;
    for (int i = 0; i < s.inum * s.umax * 3; i++) s.rel[i] = Real(0);
    int done = 0;
    for (int i = 0; i < s.inum; i++) {
        s.numneigh[i] = (int)s.nb[i].size();
        s.firstneigh[i] = arr<int>(s.nb[i].size());
        for (size_t j = 0; j < s.nb[i].size(); j++) {
            int a = s.nb[i][j];
            s.firstneigh[i][j] = a;
            s.flat[i * s.umax + j] = a;
            if (mode == 1 && !done && j + 1 == s.nb[i].size()) {
                for (int k = 0; k < 3; k++) s.rel[(i * s.umax + j) * 3 + k] = s.on(k) ? env_real(Sys::axis(k), -4, 4) : rat(k + 1, 2);
                done = 1;
            } else
                for (int k = 0; k < 3; k++) s.rel[(i * s.umax + j) * 3 + k] = s.x[a][k] - s.x[s.ilist[i]][k];
        }
    }
    for (int i = 0; i < s.nall; i++) for (int k = 0; k < 3; k++) s.xf[3 * i + k] = s.x[i][k];
    // distinct atoms never coincide
    for (int i = 0; i < s.inum; i++) for (size_t j = 0; j < s.nb[i].size(); j++) {
        Real d2 = Real(0);
        for (int k = 0; k < 3; k++) { Real d = mode == 1 ? s.rel[(i * s.umax + j) * 3 + k] : s.x[s.nb[i][j]][k] - s.x[s.ilist[i]][k]; d2 = d2 + d * d; }
        env_assume_le(rat(1, 16), d2);
    }
    // the user-specified capacities suffice (documented precondition)
    for (int i = 0; i < s.inum; i++) { int c[3] = {0, 0, 0}; for (int a : s.nb[i]) c[s.types[a]]++; for (int t = 0; t < s.ntypes; t++) if (c[t] > s.cap[t]) throw PathAbort(); }
    return s;
}
static void delta(const Sys &s, int mode, int i, int j, Real *d) {
    for (int k = 0; k < 3; k++) d[k] = mode == 1 ? s.rel[(i * s.umax + j) * 3 + k] : s.x[s.nb[i][j]][k] - s.x[s.ilist[i]][k];
}
static Real dist(const Real *d) { return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
// expected row entry; row -1: padding
static void expect_row(const Sys &s, int mode, int i, int j, Real *out) {
    Real d[3]; delta(s, mode, i, j, d);
    Real r = dist(d), w = ref_switch(r, s.rc, s.rs);
    out[0] = w / r;
    for (int k = 0; k < 3; k++) out[1 + k] = w * d[k] / (r * r);
}
// analytic derivative of the documented definition with respect to the displacement, valid on every branch
static Real ref_deriv(const Sys &s, const Real *dd, int q, int k) {
    Real r = dist(dd), w = ref_switch(r, s.rc, s.rs), dw;
    if (r < s.rs || !(r < s.rc)) dw = Real(0);
    else { Real u = (r - s.rs) / (s.rc - s.rs); dw = (Real(-30) * u * u * u * u + Real(60) * u * u * u - Real(30) * u * u) / (s.rc - s.rs); }
    if (q == 0) return dw * dd[k] / (r * r) - w * dd[k] / (r * r * r);
    Real ex = dw * dd[q - 1] * dd[k] / (r * r * r) - Real(2) * w * dd[q - 1] * dd[k] / (r * r * r * r);
    if (q - 1 == k) ex = ex + w / (r * r);
    return ex;
}
// neighbours of centre i of type t, in list order
static std::vector<int> of_type(const Sys &s, int i, int t) { std::vector<int> o; for (size_t j = 0; j < s.nb[i].size(); j++) if (s.types[s.nb[i][j]] == t) o.push_back((int)j); return o; }

static void check_flat(const Sys &s, int mode, const Real *tr, const Real *td, bool values, int sign, bool sym_center) {
    for (int i = 0; i < s.inum; i++) {
        int start = 0;
        for (int t = 0; t < s.ntypes; t++) {
            std::vector<int> js = of_type(s, i, t);
            for (int m = 0; m < s.cap[t]; m++) {
                const Real *v = tr + (i * s.umax + start + m) * 4, *d = td + (i * s.umax + start + m) * 12;
                if (m < (int)js.size()) {
                    Real e[4]; expect_row(s, mode, i, js[m], e);
                    if (values) for (int q = 0; q < 4; q++) env_check_eq(v[q], e[q], nm("value component ", q));
                    else {
                        Real dd[3]; delta(s, mode, i, js[m], dd);
                        for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) {
                            Real ex = ref_deriv(s, dd, q, k);
                            env_check_eq(d[q * 3 + k], Real(sign) * ex, nm("derivative component ", q, ",", k));
                        }
                    }
                } else {
                    if (values) for (int q = 0; q < 4; q++) env_check_eq(v[q], Real(0), "padding row is zero");
                    else for (int q = 0; q < 12; q++) env_check_eq(d[q], Real(0), "padding derivative is zero");
                    env_reach("padding");
                }
            }
            start += s.cap[t];
        }
    }
}

static void envmat(bool values) {
    Sys s = make_sys(1);
    Real *tr = arr<Real>(s.inum * s.umax * 4), *td = arr<Real>(s.inum * s.umax * 12);
    EnvMatrix<Real>::find_value_deriv(tr, td, s.inum, s.ilist, s.numneigh, s.flat, s.rel, s.types, s.ntypes, s.cap, s.rc, s.rs);
    if (!values) {
        // the row that belongs to the symbolic displacement: d value / d displacement
        int i = s.nb[0].empty() ? 1 : 0, j = (int)s.nb[i].size() - 1, t = s.types[s.nb[i][j]], start = 0;
        for (int u = 0; u < t; u++) start += s.cap[u];
        std::vector<int> js = of_type(s, i, t);
        int m = (int)(std::find(js.begin(), js.end(), j) - js.begin());
        for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) if (s.on(k))
            env_deriv(tr[(i * s.umax + start + m) * 4 + q], Sys::axis(k), td[((i * s.umax + start + m) * 4 + q) * 3 + k], nm("exact derivative ", q, ",", k));
    }
    check_flat(s, 1, tr, td, values, 1, false);
    free(tr); free(td); s.free_all();
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
CASE(envmat_values) { envmat(true); }
CASE(envmat_deriv) { envmat(false); }

static void se4pw(bool values) {
    Sys s = make_sys(0);
    Real *tr = arr<Real>(s.inum * s.umax * 4), *td = arr<Real>(s.inum * s.umax * 12), *rc = arr<Real>(s.inum * s.umax * 3);
    Se4pw<Real>::generate(tr, td, rc, s.inum, s.ilist, s.numneigh, s.flat, s.xf, s.types, s.ntypes, s.cap, s.rc, s.rs);
    if (!values) {
        for (int i = 0; i < s.inum; i++) if (s.ilist[i] == 0)
            for (int t = 0, start = 0; t < s.ntypes; start += s.cap[t], t++) for (int m = 0; m < (int)of_type(s, i, t).size(); m++)
                for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) if (s.on(k))
                    env_deriv(tr[(i * s.umax + start + m) * 4 + q], Sys::axis(k), td[((i * s.umax + start + m) * 4 + q) * 3 + k], nm("exact derivative ", q, ",", k));
    }
    check_flat(s, 0, tr, td, values, -1, true);
    if (values) {
        int *pi = arr<int>(s.inum * s.umax);
        Se4pw<Real>::get_prim_indices_from_matersdk(pi, s.inum, s.ilist, s.numneigh, s.flat, s.types, s.ntypes, s.cap);
        for (int i = 0; i < s.inum; i++) for (int t = 0, start = 0; t < s.ntypes; start += s.cap[t], t++) {
            std::vector<int> js = of_type(s, i, t);
            for (int m = 0; m < s.cap[t]; m++) {
                int e = m < (int)js.size() ? s.nb[i][js[m]] % s.inum : -1;
                env_check(pi[i * s.umax + start + m] == e, "owner index of each slot");
                for (int k = 0; k < 3; k++) { Real d[3]; if (m < (int)js.size()) delta(s, 0, i, js[m], d); env_check_eq(rc[(i * s.umax + start + m) * 3 + k], m < (int)js.size() ? d[k] : Real(0), "relative coordinate of each slot"); }
            }
        }
        free(pi);
    }
    free(tr); free(td); free(rc); s.free_all();
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
CASE(se4pw_values) { se4pw(true); }
CASE(se4pw_deriv) { se4pw(false); }

// rows of the 3-d array are grouped by centre species, columns by neighbour species
static void tilder_static(bool values) {
    Sys s = make_sys(0);
    const int zs[3] = {42, 16, 3}, nt = s.ntypes;
    int order = env_iparam("order");
    int *cz = arr<int>(nt), *nz = arr<int>(nt), *z = arr<int>(s.nall), *cap = arr<int>(nt);
    for (int t = 0; t < nt; t++) { int u = order ? nt - 1 - t : t; cz[t] = nz[t] = zs[u]; cap[t] = s.cap[u]; }
    for (int i = 0; i < s.nall; i++) z[i] = zs[s.types[i]];
    int rows = 0, form = env_iparam("form");
    for (int c = 0; c < nt; c++) for (int i = 0; i < s.inum; i++) if (z[s.ilist[i]] == cz[c]) rows++;
    Real ***v = nullptr, ****d = nullptr;
    long base = mem_live();
    if (form == 0) {
        v = TildeR<Real>::generate(s.inum, s.ilist, s.numneigh, s.firstneigh, s.x, z, nt, cz, nt, nz, cap, s.rc, s.rs);
        if (!values) d = TildeR<Real>::deriv(s.inum, s.ilist, s.numneigh, s.firstneigh, s.x, z, nt, cz, nt, nz, cap, s.rc, s.rs);
    } else {
        v = arrayUtils::allocate3dArray<Real>(rows, s.umax, 4, true);
        TildeR<Real>::generate(v, s.inum, s.ilist, s.numneigh, s.firstneigh, s.x, z, nt, cz, nt, nz, cap, s.rc, s.rs);
        if (!values) {
            d = arrayUtils::allocate4dArray<Real>(rows, s.umax, 4, 3, true);
            TildeR<Real>::deriv(d, s.inum, s.ilist, s.numneigh, s.firstneigh, s.x, z, nt, cz, nt, nz, cap, s.rc, s.rs);
        }
    }
    int row = 0;
    for (int c = 0; c < nt; c++) for (int i = 0; i < s.inum; i++) {
        if (z[s.ilist[i]] != cz[c]) continue;
        int col = 0;
        for (int t = 0; t < nt; t++) {
            std::vector<int> js;
            for (size_t j = 0; j < s.nb[i].size(); j++) if (z[s.nb[i][j]] == nz[t]) js.push_back((int)j);
            for (int m = 0; m < cap[t]; m++, col++) {
                Real e[4] = {Real(0), Real(0), Real(0), Real(0)};
                if (m < (int)js.size()) expect_row(s, 0, i, js[m], e); else env_reach("padding");
                for (int q = 0; q < 4; q++) {
                    if (values) env_check_eq(v[row][col][q], e[q], nm("value component ", q));
                    else if (m >= (int)js.size()) for (int k = 0; k < 3; k++) env_check_eq(d[row][col][q][k], Real(0), "padding derivative is zero");
                    else {
                        Real dd[3]; delta(s, 0, i, js[m], dd);
                        for (int k = 0; k < 3; k++) {
                            if (s.ilist[i] == 0 && s.on(k)) env_deriv(v[row][col][q], Sys::axis(k), d[row][col][q][k], nm("exact derivative ", q, ",", k));
                            env_check_eq(d[row][col][q][k], -ref_deriv(s, dd, q, k), nm("derivative component ", q, ",", k));
                        }
                    }
                }
            }
        }
        row++;
    }
    arrayUtils::free3dArray<Real>(v, rows, s.umax);
    if (d) arrayUtils::free4dArray<Real>(d, rows, s.umax, 4);
    if (values) env_check(mem_live() == base, "no heap block left behind");
    free(cz); free(nz); free(z); free(cap); s.free_all();
    env_reach("end");
}
CASE(tilder_values) { tilder_static(true); }
CASE(tilder_deriv) { tilder_static(false); }
