// Harness: the torch operators and modules of the moment-tensor descriptor.
#include "sym.h"
#include "memmon.h"
#include <torch/torch.h>
#include "descriptor/mtp/src/mtpMRadialOp.cc"
#include "descriptor/mtp/src/mtpMAngularOp.cc"
#include "descriptor/mtp/src/mtpMModule.cc"
#include "descriptor/mtp/src/mtpLevel.cc"
#include "descriptor/mtp/src/mtpBModule.cc"
using namespace matersdk::mtp;
typedef at::Tensor TT;
typedef std::array<Real, 3> V3;
typedef torch::autograd::variable_list VL;

static bool single = false;
struct Tape { ~Tape() { torch::autograd::tape().clear(); } };
static void ceq(const Real &a, const Real &b, const std::string &l) {
#if SYM
    env_check_eq(a, b, l);
#else
    if (!single) env_check_eq(a, b, l);
    else env_check(std::fabs(a - b) <= 2e-3 * std::max(1.0, std::fabs(b)), l);
#endif
}
static Real val(const TT &t) { return t.item<Real>(); }
static void shape_is(const TT &t, std::vector<int64_t> e, const char *l) { env_check(t.dim() == (int64_t)e.size(), l); for (size_t i = 0; i < e.size(); i++) env_check(t.size((int64_t)i) == e[i], l); }
static Real norm3(const V3 &d) { return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
static const int TC[6][6] = {{1}, {0, 1}, {-1, 0, 2}, {0, -3, 0, 4}, {1, 0, -8, 0, 8}, {0, 5, 0, -20, 0, 16}};
// radial function n and its derivative at distance r
static void ref_q(int n, Real r, Real rc, Real rs, Real &q, Real &dq) {
    q = dq = Real(0);
    if (r < rs || !(r < rc)) return;
    Real u = (r - rs) / (rc - rs), w = u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1), dw = (Real(-30) * u * u * u * u + Real(60) * u * u * u - Real(30) * u * u) / (rc - rs);
    Real x = (Real(2) * r - (rc + rs)) / (rc - rs), t = Real(0), dt = Real(0), p = Real(1);
    for (int k = 0; k <= n; k++) { t = t + p * Real(TC[n][k]); if (k < n) dt = dt + p * Real(TC[n][k + 1] * (k + 1)); p = p * x; }
    q = t * w; dq = dt * Real(2) / (rc - rs) * w + t * dw;
}
static at::TensorOptions fopt() { single = env_int("single", 0, 1); return at::TensorOptions().dtype(single ? torch::kFloat32 : torch::kFloat64); }
static TT cuts(at::TensorOptions fo, Real &rc, Real &rs) { rc = env_param("rc"); rs = env_param("rs"); TT t = at::zeros({2}, fo); t[0] = rc; t[1] = rs; return t; }
// neighbours at various distances, one with a symbolic coordinate; an unused slot (zero displacement) among them
static std::vector<V3> neighbours(int n) {
    static const int P[5][3] = {{1, 2, 2}, {0, 0, 0}, {2, -1, 2}, {0, 3, -4}, {-2, 0, 0}};
    std::vector<V3> o; int h = env_int("at", 0, n - 1), ax = env_iparam("axis");
    for (int i = 0; i < n; i++) {
        V3 d = {Real(P[i % 5][0]), Real(P[i % 5][1]), Real(P[i % 5][2])};
        if (i == h) d[ax] = env_real("u", -5, 5);
        o.push_back(d);
    }
    return o;
}
static TT tensor_of(const std::vector<V3> &d, at::TensorOptions fo) { TT t = at::zeros({(int64_t)d.size(), 3}, fo); for (size_t i = 0; i < d.size(); i++) for (int k = 0; k < 3; k++) t[(int)i][k] = d[i][k]; return t; }

CASE(mtp_q_op) {
    Tape tape_guard; auto fo = fopt(); Real rc, rs; TT ct = cuts(fo, rc, rs);
    int n = env_iparam("n"), size = env_int("size", 1, env_iparam("size"));
    std::vector<V3> d = neighbours(n); TT t = tensor_of(d, fo);
    torch::autograd::tape().clear();
    VL o = MtpQOp(size, ct, t);
    env_check(o.size() == 1, "one result"); shape_is(o[0], {n, size}, "shape of the radial functions"); env_check(o[0].scalar_type() == t.scalar_type(), "precision kept");
    TT g = env_int("strided", 0, 1) ? at::zeros({size, n}, fo).transpose(0, 1) : at::zeros({n, size}, fo);
    std::vector<std::vector<Real>> gv(n, std::vector<Real>(size));
    for (int i = 0; i < n; i++) for (int j = 0; j < size; j++) { gv[i][j] = i == n - 1 ? env_real(nm("g", j).c_str(), -2, 2) : Real(1 + i - 2 * j); g[i][j] = gv[i][j]; }
    env_check(torch::autograd::tape().size() == 1, "recorded for the backward pass");
    VL b = MtpQFunction::backward(torch::autograd::tape()[0].get(), {g});
    env_check(b.size() == 3 && !b[0].defined() && !b[1].defined() && b[2].defined(), "a gradient for the displacements only");
    shape_is(b[2], {n, 3}, "shape of the gradient");
    for (int i = 0; i < n; i++) {
        Real r = norm3(d[i]); V3 e = {Real(0), Real(0), Real(0)};
        for (int j = 0; j < size; j++) {
            Real q, dq; ref_q(j, r, rc, rs, q, dq);
            ceq(val(o[0][i][j]), q, nm("radial function ", j));
            if (!(r == Real(0))) for (int k = 0; k < 3; k++) e[k] = e[k] + gv[i][j] * dq * d[i][k] / r;
            env_reach("term");
        }
        for (int k = 0; k < 3; k++) ceq(val(b[2][i][k]), e[k], "gradient of the radial functions");
        if (r == Real(0)) env_reach("unused slot");
    }
    env_reach("end");
}
CASE(mtp_angular) {
    Tape tape_guard; auto fo = fopt(); int n = env_iparam("n"), nu = env_int("nu", 0, env_iparam("nu"));
    std::vector<V3> d = neighbours(n); TT t = tensor_of(d, fo);
    torch::autograd::tape().clear();
    TT o = MtpMAngularOp(t, nu);
    std::vector<int64_t> sh = {n}; for (int k = 0; k < nu; k++) sh.push_back(3);
    shape_is(o, sh, "shape of the angular part"); env_check(o.scalar_type() == t.scalar_type(), "precision kept");
    int m = 1; for (int k = 0; k < nu; k++) m *= 3;
    for (int i = 0; i < n; i++) for (int c = 0; c < m; c++) {
        TT e = o[i]; Real p = Real(1); int x = c;
        for (int k = 0; k < nu; k++) { e = e[x % 3]; p = p * d[i][x % 3]; x /= 3; }
        ceq(val(e), p, "outer product");
    }
    if (nu == 0) {
        env_check(torch::autograd::tape().size() == 1, "recorded for the backward pass");
        TT g = at::zeros({n}, fo); for (int i = 0; i < n; i++) g[i] = Real(i + 1);
        VL b = OuterNu0Function::backward(torch::autograd::tape()[0].get(), {g});
        env_check(b.size() == 1, "one gradient"); shape_is(b[0], {n, 3}, "shape of the gradient");
        for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) ceq(val(b[0][i][k]), Real(0), "a constant has no gradient");
        env_reach("constant");
    } else env_reach("product");
    env_reach("end");
}

struct Sys { int nb, nc, nall, umax, ntypes; std::vector<std::vector<int>> types, ilist; std::vector<std::vector<std::vector<int>>> ne; std::vector<std::vector<std::vector<V3>>> dis; };
static Sys make(bool per_structure) {
    Sys s; s.nb = env_iparam("nb"); s.nc = 2; s.nall = 3; s.umax = 3; s.ntypes = 2;
    int hb = env_int("hb", 0, s.nb - 1), hc = env_int("hc", 0, s.nc - 1), pad = env_iparam("pad");
    for (int b = 0; b < s.nb; b++) {
        std::vector<int> ty = {b % 2, (b + 1) % 2, 0};
        if (per_structure || b == 0) ty[2] = env_int(nm("type", b).c_str(), 0, 1);
        if (!per_structure) ty = b ? s.types[0] : ty;
        s.types.push_back(ty); s.ilist.push_back(b % 2 ? std::vector<int>{1, 0} : std::vector<int>{0, 1});
        std::vector<std::vector<int>> ne; std::vector<std::vector<V3>> di;
        for (int c = 0; c < s.nc; c++) {
            std::vector<int> n; std::vector<V3> d;
            int cnt = (b + c) % 2 ? 1 : 2;
            for (int j = 0; j < cnt; j++) {
                static const int P[4][3] = {{2, -1, 2}, {1, 2, -2}, {-2, 2, 1}, {2, 2, 1}};
                n.push_back(j ? 2 : (c + 1 + b) % 3);
                V3 e = {Real(P[(2 * b + c + j) % 4][0]), Real(P[(2 * b + c + j) % 4][1]), Real(P[(2 * b + c + j) % 4][2])};
                if (b == hb && c == hc && j == cnt - 1) { Real t = env_real("t", 0.25, 1.75); for (auto &z : e) z = z * t; }
                d.push_back(e);
            }
            for (int j = cnt; j < s.umax; j++) { n.push_back(pad); d.push_back({Real(0), Real(0), Real(0)}); }
            ne.push_back(n); di.push_back(d);
        }
        s.ne.push_back(ne); s.dis.push_back(di);
    }
    return s;
}
// coefficients: one of them symbolic
static std::vector<std::vector<Real>> coeffs(std::vector<TT> ps, int size, const char *where) {
    std::vector<std::vector<Real>> c; int h = env_int(where, 0, (int)ps.size() - 1);
    for (size_t i = 0; i < ps.size(); i++) {
        c.emplace_back();
        shape_is(ps[i], {size}, "one coefficient per radial function");
        for (int k = 0; k < size; k++) { Real v = (int)i == h && k == size - 1 ? env_real("c", -3, 3) : Real(1 + (int)(i * 5 + k * 3) % 7 - 3); ps[i][k] = v; c.back().push_back(v); }
    }
    return c;
}
// moment (mu, nu) of one centre, flat, first index slowest
static std::vector<Real> ref_m(const Sys &s, int b, int c, int mu, int nu, const std::vector<std::vector<Real>> &co, Real rc, Real rs) {
    int m = 1; for (int k = 0; k < nu; k++) m *= 3;
    std::vector<Real> o(m, Real(0)); int size = (int)co[0].size(), zi = s.types[b][s.ilist[b][c]];
    for (int j = 0; j < s.umax; j++) {
        const V3 &d = s.dis[b][c][j]; Real r = norm3(d), f = Real(0);
        if (r == Real(0)) continue;
        int zj = s.types[b][s.ne[b][c][j]];
        for (int n = 0; n < size; n++) { Real q, dq; ref_q(n, r, rc, rs, q, dq); f = f + co[mu * s.ntypes * s.ntypes + zi * s.ntypes + zj][n] * q; }
        for (int x = 0; x < m; x++) { Real p = f; int y = x; for (int k = 0; k < nu; k++) { p = p * d[y % 3]; y /= 3; } o[x] = o[x] + p; }
    }
    return o;
}
static TT types_of(const Sys &s, bool batched) {
    auto io = at::TensorOptions().dtype(torch::kInt64);
    TT t = batched ? at::zeros({s.nb, s.nall}, io) : at::zeros({s.nall}, io);
    for (int b = 0; b < (batched ? s.nb : 1); b++) for (int i = 0; i < s.nall; i++) { if (batched) t[b][i] = s.types[b][i]; else t[i] = s.types[b][i]; }
    return t;
}
CASE(mtp_m) {
    Tape tape_guard; auto fo = fopt(); Real rc, rs; TT ct = cuts(fo, rc, rs);
    Sys s = make(true); int size = env_iparam("size"), nmus = env_iparam("nmus");
    MtpMModule mod(nmus, s.ntypes, size, ct);
    mod->to(single ? torch::kFloat32 : torch::kFloat64);
    std::vector<TT> ps = mod->parameters();
    env_check((int)ps.size() == nmus * s.ntypes * s.ntypes, "one set of coefficients per radial index and pair of species");
    auto co = coeffs(ps, size, "which");
    int mu = env_int("mu", 0, nmus - 1), nu = env_int("nu", 0, env_iparam("nu"));
    TT ty = types_of(s, true);
    auto io = at::TensorOptions().dtype(torch::kInt64);
    for (int b = 0; b < s.nb; b++) for (int c = 0; c < s.nc; c++) {
        TT ne = at::zeros({s.umax}, io); for (int j = 0; j < s.umax; j++) ne[j] = s.ne[b][c][j];
        TT o = mod->forward(mu, nu, s.ilist[b][c], ne, ty[b], tensor_of(s.dis[b][c], fo));
        shape_is(o, std::vector<int64_t>(nu, 3), "a tensor of rank nu");
        std::vector<Real> e = ref_m(s, b, c, mu, nu, co, rc, rs);
        for (size_t x = 0; x < e.size(); x++) { TT q = o; int y = (int)x; for (int k = 0; k < nu; k++) { q = q[y % 3]; y /= 3; } ceq(val(q), e[x], "moment"); }
        env_reach("moment");
    }
    env_reach("end");
}
CASE(mtp_b) {
    Tape tape_guard; auto fo = fopt(); Real rc, rs; TT ct = cuts(fo, rc, rs);
    bool batched = env_int("batched types", 0, 1);
    Sys s = make(batched); int size = env_iparam("size"), L = env_iparam("level");
    MtpBModule mod(L, s.ntypes, size, ct);
    mod->to(single ? torch::kFloat32 : torch::kFloat64);
    std::vector<TT> ps = mod->parameters();
    MtpMCoeffPairCombs list(L);
    env_check((int)ps.size() == list.nmus() * s.ntypes * s.ntypes, "coefficients for every radial index up to the level");
    auto co = coeffs(ps, size, "which");
    auto io = at::TensorOptions().dtype(torch::kInt64);
    TT il = at::zeros({s.nb, s.nc}, io), ne = at::zeros({s.nb, s.nc, s.umax}, io), rcs = at::zeros({s.nb, s.nc, s.umax, 3}, fo), ty = types_of(s, batched);
    for (int b = 0; b < s.nb; b++) for (int c = 0; c < s.nc; c++) { il[b][c] = s.ilist[b][c]; for (int j = 0; j < s.umax; j++) { ne[b][c][j] = s.ne[b][c][j]; for (int k = 0; k < 3; k++) rcs[b][c][j][k] = s.dis[b][c][j][k]; } }
    TT o = mod->forward(il, ne, rcs, ty);
    shape_is(o, {s.nb, s.nc, list.size()}, "one number per structure, centre and combination"); env_check(o.scalar_type() == rcs.scalar_type(), "precision kept");
    for (int b = 0; b < s.nb; b++) for (int c = 0; c < s.nc; c++) for (int k = 0; k < list.size(); k++) {
        std::vector<std::pair<int, int>> f; for (auto p : list.coeff_pair_combs()[k]) f.push_back(p.coeff_pair());
        std::stable_sort(f.begin(), f.end(), [](auto &a, auto &b) { return a.second > b.second; });
        std::vector<std::vector<Real>> M; for (auto &p : f) M.push_back(ref_m(s, b, c, p.first, p.second, co, rc, rs));
        int rest = 0; for (size_t i = 1; i < f.size(); i++) rest += f[i].second;
        Real e = Real(0);
        if (f[0].second == rest || f.size() == 1) {      // the largest tensor is contracted with all the others
            for (size_t x = 0; x < M[0].size(); x++) { Real p = M[0][x]; int y = (int)x; for (size_t i = 1; i < f.size(); i++) { p = p * M[i][y % (int)M[i].size()]; y /= (int)M[i].size(); } e = e + p; }
            env_reach("largest");
        } else {                                          // tensors of equal order are contracted in pairs
            e = Real(1);
            for (size_t i = 0; i < f.size();) {
                if (f[i].second == 0) { e = e * M[i][0]; i++; continue; }
                env_check(i + 1 < f.size() && f[i + 1].second == f[i].second, "contractible combination");
                Real t = Real(0); for (size_t x = 0; x < M[i].size(); x++) t = t + M[i][x] * M[i + 1][x];
                e = e * t; i += 2;
            }
            env_reach("pairs");
        }
        ceq(val(o[b][c][k]), e, "contracted moments");
    }
    env_reach("end");
}
