// Harness: the torch operators of the DeepPot-SE descriptors, run on batches of structures.
#include "sym.h"
#include "memmon.h"
#include <torch/torch.h>
#include "descriptor/deepmd/src/envMatrixOp.cc"
#include "descriptor/deepmd/src/se4pw_op.cc"
using namespace matersdk;
using namespace matersdk::deepPotSE;
typedef at::Tensor TT;

static Real ref_switch(Real r, Real rc, Real rs) {
    if (r < rs) return Real(1);
    if (r < rc) { Real u = (r - rs) / (rc - rs); return u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1); }
    return Real(0);
}
static Real norm3(const Real *d) { return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
static void ref_row(const Real *d, Real rc, Real rs, Real *v, Real dv[4][3]) {
    Real r = norm3(d), w = ref_switch(r, rc, rs), dw;
    if (r < rs || !(r < rc)) dw = Real(0);
    else { Real u = (r - rs) / (rc - rs); dw = (Real(-30) * u * u * u * u + Real(60) * u * u * u - Real(30) * u * u) / (rc - rs); }
    v[0] = w / r;
    for (int q = 0; q < 3; q++) v[1 + q] = w * d[q] / (r * r);
    for (int k = 0; k < 3; k++) {
        dv[0][k] = dw * d[k] / (r * r) - w * d[k] / (r * r * r);
        for (int q = 0; q < 3; q++) {
            dv[1 + q][k] = dw * d[q] * d[k] / (r * r * r) - Real(2) * w * d[q] * d[k] / (r * r * r * r);
            if (q == k) dv[1 + q][k] = dv[1 + q][k] + w / (r * r);
        }
    }
}
static bool single = false;       // the tensors are single precision
static void ceq(const Real &a, const Real &b, const std::string &l) {
#if SYM
    env_check_eq(a, b, l);
#else
    if (!single) env_check_eq(a, b, l);
    else env_check(std::fabs(a - b) <= 1e-3 * std::max(1.0, std::fabs(b)), l);
#endif
}
static Real val(const TT &t) { return t.item<Real>(); }
static int ival(const TT &t) { return t.item<int>(); }

struct Batch {
    int nb, inum, nall, ntypes; std::vector<std::vector<int>> cap, types, ilist; std::vector<std::vector<std::vector<int>>> ne;
    int umax; Real rc, rs;
    std::vector<std::vector<std::array<Real, 3>>> x;
    int hb, hi, hj, hk;              // where the symbolic number sits
    TT til, tnn, tfn, tty, tcap;
    std::vector<int> of_type(int b, int i, int t) const { std::vector<int> o; for (size_t j = 0; j < ne[b][i].size(); j++) if (types[b][ne[b][i][j]] == t) o.push_back((int)j); return o; }
};
// structures of a batch differ in types, centre order, neighbours (and, for the batched operator, in the slots per type)
static Batch make(bool cap_per_structure) {
    Batch s; s.nb = env_iparam("nb"); s.inum = 2; s.nall = 4; s.ntypes = 2; s.umax = 4;
    s.rc = env_param("rc"); s.rs = env_param("rs");
    int shape = env_iparam("shape");
    for (int b = 0; b < s.nb; b++) {
        std::vector<int> c = {2, 2};
        if (cap_per_structure && (b + shape) % 2) c = {1, 3};
        if (!cap_per_structure && shape == 1) c = {3, 1};
        s.cap.push_back(c);
        std::vector<int> ty; for (int i = 0; i < s.nall; i++) ty.push_back(i == 3 ? env_int(nm("type", b, "_", i).c_str(), 0, 1) : (i * 2 + b * 3 + shape) % 4 / 2);
        s.types.push_back(ty);
        s.ilist.push_back(shape == 1 && b == 0 ? std::vector<int>{1, 0} : std::vector<int>{0, 1});
        std::vector<std::vector<int>> n;
        if (b == 0) n = {{3, 2}, {0}}; else if (b == 1) n = {{1}, {2, 0, 3}}; else n = {{}, {3}};
        if (s.ilist[b][0] == 1) n = {{0, 3}, {2}};
        s.ne.push_back(n);
        std::vector<std::array<Real, 3>> x;
        static const int P[4][3] = {{0, 0, 0}, {1, 2, 2}, {-2, 1, -2}, {2, -1, 2}};
        for (int a = 0; a < s.nall; a++) x.push_back({Real(P[a][0] + b), Real(P[a][(1 + b) % 3] - b), Real(P[a][2])});
        s.x.push_back(x);
        for (int i = 0; i < s.inum; i++) for (int t = 0; t < 2; t++) if ((int)s.of_type(b, i, t).size() > c[t]) throw PathAbort();
    }
    s.hb = env_int("hb", 0, s.nb - 1); s.hi = env_int("hi", 0, s.inum - 1); s.hk = env_iparam("axis");
    if (s.ne[s.hb][s.hi].empty()) throw PathAbort();
    s.hj = (int)s.ne[s.hb][s.hi].size() - 1;
    auto io = at::TensorOptions().dtype(torch::kInt32);
    s.til = at::zeros({s.nb, s.inum}, io); s.tnn = at::zeros({s.nb, s.inum}, io); s.tfn = at::full({s.nb, s.inum, s.umax}, env_iparam("pad"), io); s.tty = at::zeros({s.nb, s.nall}, io);
    s.tcap = cap_per_structure ? at::zeros({s.nb, s.ntypes}, io) : at::zeros({s.ntypes}, io);
    for (int b = 0; b < s.nb; b++) {
        for (int i = 0; i < s.inum; i++) { s.til[b][i] = s.ilist[b][i]; s.tnn[b][i] = (int)s.ne[b][i].size(); for (size_t j = 0; j < s.ne[b][i].size(); j++) s.tfn[b][i][(int)j] = s.ne[b][i][j]; }
        for (int i = 0; i < s.nall; i++) s.tty[b][i] = s.types[b][i];
        for (int t = 0; t < 2; t++) { if (cap_per_structure) s.tcap[b][t] = s.cap[b][t]; else s.tcap[t] = s.cap[0][t]; }
    }
    return s;
}
static void shape_is(const TT &t, std::vector<int64_t> e, const char *l) { env_check(t.dim() == (int64_t)e.size(), l); for (size_t i = 0; i < e.size(); i++) env_check(t.size((int64_t)i) == e[i], l); }

static void check_batch(const Batch &s, const TT &v, const TT &d, const TT *rel, const std::vector<std::vector<std::vector<std::array<Real, 3>>>> &dis, int sign) {
    shape_is(v, {s.nb, s.inum, s.umax, 4}, "shape of the values"); shape_is(d, {s.nb, s.inum, s.umax, 4, 3}, "shape of the derivatives");
    if (rel) shape_is(*rel, {s.nb, s.inum, s.umax, 3}, "shape of the relative coordinates");
    for (int b = 0; b < s.nb; b++) for (int i = 0; i < s.inum; i++) for (int t = 0, at_ = 0; t < s.ntypes; at_ += s.cap[b][t], t++) {
        std::vector<int> js = s.of_type(b, i, t);
        for (int m = 0; m < s.cap[b][t]; m++) {
            Real e[4] = {Real(0), Real(0), Real(0), Real(0)}, de[4][3]; for (auto &r : de) for (auto &z : r) z = Real(0);
            const Real *dd = nullptr;
            if (m < (int)js.size()) { dd = dis[b][i][js[m]].data(); ref_row(dd, s.rc, s.rs, e, de); env_reach("row"); } else env_reach("padding");
            for (int q = 0; q < 4; q++) {
                ceq(val(v[b][i][at_ + m][q]), e[q], nm("value component ", q));
                for (int k = 0; k < 3; k++) ceq(val(d[b][i][at_ + m][q][k]), Real(sign) * de[q][k], nm("derivative component ", q, ",", k));
            }
            if (rel) for (int k = 0; k < 3; k++) ceq(val((*rel)[b][i][at_ + m][k]), dd ? dd[k] : Real(0), "relative coordinate of each slot");
        }
    }
}
#ifndef BIND
typedef torch::autograd::variable_list VL;
extern VL bound_op(TT, TT, TT, TT, TT, TT, Real, Real);
#endif
CASE(env_op) {
    Batch s = make(true);
    single = env_int("single", 0, 1);
    auto fo = at::TensorOptions().dtype(single ? torch::kFloat32 : torch::kFloat64);
    TT rel = at::zeros({s.nb, s.inum, s.umax, 3}, fo);
    std::vector<std::vector<std::vector<std::array<Real, 3>>>> dis(s.nb);
    for (int b = 0; b < s.nb; b++) for (int i = 0; i < s.inum; i++) {
        dis[b].emplace_back();
        for (size_t j = 0; j < s.ne[b][i].size(); j++) {
            std::array<Real, 3> d;
            for (int k = 0; k < 3; k++) d[k] = s.x[b][s.ne[b][i][j]][k] - s.x[b][s.ilist[b][i]][k];
            if (b == s.hb && i == s.hi && (int)j == s.hj) { d = {Real(1), Real(0), Real(1)}; d[(s.hk + 1) % 3] = Real(-1); d[s.hk] = env_real("u", -5, 5); }
            for (int k = 0; k < 3; k++) rel[b][i][(int)j][k] = d[k];
            dis[b][i].push_back(d);
        }
    }
    VL o = env_iparam("bound") ? bound_op(s.til, s.tnn, s.tfn, rel, s.tty, s.tcap, s.rc, s.rs) : EnvMatrixOp(s.til, s.tnn, s.tfn, rel, s.tty, s.tcap, s.rc, s.rs);
    env_check(o.size() == 2, "values and derivatives come back");
    env_check(o[0].scalar_type() == rel.scalar_type() && o[1].scalar_type() == rel.scalar_type(), "precision follows the coordinates");
    check_batch(s, o[0], o[1], nullptr, dis, 1);
    // the inputs stay what they were
    for (int b = 0; b < s.nb; b++) for (int i = 0; i < s.inum; i++) { env_check(ival(s.til[b][i]) == s.ilist[b][i] && ival(s.tnn[b][i]) == (int)s.ne[b][i].size(), "inputs unchanged"); for (size_t j = 0; j < s.ne[b][i].size(); j++) for (int k = 0; k < 3; k++) ceq(val(rel[b][i][(int)j][k]), dis[b][i][j][k], "inputs unchanged"); }
    env_reach("end");
}
CASE(se4pw_op) {
    Batch s = make(false);
    single = env_int("single", 0, 1);
    auto fo = at::TensorOptions().dtype(single ? torch::kFloat32 : torch::kFloat64);
    s.x[s.hb][3][s.hk] = env_real("u", -5, 5);
    TT x = at::zeros({s.nb, s.nall, 3}, fo);
    for (int b = 0; b < s.nb; b++) for (int a = 0; a < s.nall; a++) for (int k = 0; k < 3; k++) x[b][a][k] = s.x[b][a][k];
    std::vector<std::vector<std::vector<std::array<Real, 3>>>> dis(s.nb);
    for (int b = 0; b < s.nb; b++) for (int i = 0; i < s.inum; i++) {
        dis[b].emplace_back();
        for (int a : s.ne[b][i]) {
            std::array<Real, 3> d; Real n2 = Real(0);
            for (int k = 0; k < 3; k++) { d[k] = s.x[b][a][k] - s.x[b][s.ilist[b][i]][k]; n2 = n2 + d[k] * d[k]; }
            env_assume_le(rat(1, 16), n2);
            dis[b][i].push_back(d);
        }
    }
    VL o = Se4pwOp::forward(s.nb, s.inum, s.til, s.tnn, s.tfn, x, s.tty, s.ntypes, s.tcap, s.rc, s.rs);
    env_check(o.size() == 3, "values, derivatives and relative coordinates come back");
    check_batch(s, o[0], o[1], &o[2], dis, -1);
    TT p = Se4pwOp::get_prim_indices_from_matersdk(s.nb, s.inum, s.til, s.tnn, s.tfn, s.tty, s.ntypes, s.tcap);
    shape_is(p, {s.nb, s.inum, s.umax}, "shape of the owner indices");
    for (int b = 0; b < s.nb; b++) for (int i = 0; i < s.inum; i++) for (int t = 0, at_ = 0; t < s.ntypes; at_ += s.cap[b][t], t++) {
        std::vector<int> js = s.of_type(b, i, t);
        for (int m = 0; m < s.cap[b][t]; m++) env_check(ival(p[b][i][at_ + m]) == (m < (int)js.size() ? s.ne[b][i][js[m]] % s.inum : -1), "owner index of each slot");
    }
    env_reach("end");
}
