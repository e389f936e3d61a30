// Harness: copying, assigning and moving the library's owning classes, in any order the solver picks.
#include "sym.h"
#include "memmon.h"
#include "nblist/include/structure.h"
#include "nblist/include/binLinkedList.h"
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtp/src/mtpLevel.cc"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtpr/src/mtpParam.cc"
#include <unistd.h>
using namespace matersdk;

// ids: 0 and 1 are two different values, 2 is the default-constructed value, -1 is unspecified (moved from)
template <class T> struct Own;
static int natoms_of(int id) { return id == 0 ? 2 : 3; }
static int Z(int id, int a) { return (id * 7 + a * 5) % 11 + 1; }
static Real coord(int id, int a, int k) { return env_realn(nm("p", id, "_", a * 3 + k), -9, 9); }
static bool fixed_lat = false;      // classes that derive cell geometry from the lattice get a fixed one
static Real lat(int id, int i, int j) { return fixed_lat ? rat(i == j ? 5 + id : (i + 2 * j + id) % 3, 1) : env_realn(nm("l", id, "_", i * 3 + j), -9, 9); }
static Structure<Real> *mk_struct(int id) {
    if (id == 2) return new Structure<Real>();
    int n = natoms_of(id), z[3]; Real L[3][3], c[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) L[i][j] = lat(id, i, j);
    for (int a = 0; a < n; a++) { z[a] = Z(id, a); for (int k = 0; k < 3; k++) c[a][k] = coord(id, a, k); }
    return new Structure<Real>(n, L, z, c, true);
}
static void ck_struct(const Structure<Real> &s, int id, const int *sc = nullptr) {
    if (id == 2) { env_check(s.get_num_atoms() == 0, "empty structure stays empty"); return; }
    int one[3] = {1, 1, 1}; if (!sc) sc = one;
    int n = natoms_of(id), at = 0, lo[3];
    env_check(s.get_num_atoms() == n * sc[0] * sc[1] * sc[2], "atom count survives");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) env_check_eq(s.get_basis_vectors()[i][j], lat(id, i, j) * Real(sc[i]), "lattice survives");
    for (int k = 0; k < 3; k++) lo[k] = sc[k] % 2 ? -(sc[k] - 1) / 2 : -sc[k] / 2 + 1;
    for (int i = lo[0]; i < lo[0] + sc[0]; i++) for (int j = lo[1]; j < lo[1] + sc[1]; j++) for (int k = lo[2]; k < lo[2] + sc[2]; k++)
        for (int a = 0; a < n; a++, at++) {
            env_check(s.get_atomic_numbers()[at] == Z(id, a), "species survive");
            for (int x = 0; x < 3; x++) env_check_eq(s.get_cart_coords()[at][x], coord(id, a, x) + lat(id, 0, x) * Real(i) + lat(id, 1, x) * Real(j) + lat(id, 2, x) * Real(k), "positions survive");
        }
    for (int x = 0; x < 3; x++) env_check_eq(s.get_pseudo_origin()[x], lat(id, 0, x) * Real(lo[0]) + lat(id, 1, x) * Real(lo[1]) + lat(id, 2, x) * Real(lo[2]), "origin survives");
}
template <> struct Own<Structure<Real>> {
    static Structure<Real> *make(int id) { return mk_struct(id); }
    static void check(const Structure<Real> &s, int id) { ck_struct(s, id); }
    // changing one object must not show in another
    static void mutate(Structure<Real> &s, int id) { int sc[3] = {1, 2, 1}; if (id != 2) s.make_supercell(sc); }
};
template <> struct Own<Supercell<Real>> {
    static void sc(int id, int *s) { s[0] = id ? 2 : 1; s[1] = id ? 1 : 3; s[2] = 1; }
    static Supercell<Real> *make(int id) {
        if (id == 2) return new Supercell<Real>();
        int s[3]; sc(id, s);
        Structure<Real> *p = mk_struct(id);
        Supercell<Real> *r = new Supercell<Real>(*p, s);
        delete p;
        return r;
    }
    static void check(const Supercell<Real> &u, int id) {
        if (id == 2) { env_check(u.get_num_atoms() == 0, "empty supercell stays empty"); return; }
        int s[3]; sc(id, s);
        ck_struct(u.get_structure(), id, s);
        env_check(u.get_prim_num_atoms() == natoms_of(id) && u.get_num_atoms() == natoms_of(id) * s[0] * s[1] * s[2], "counts survive");
        int home = id ? 0 : 1;
        env_check(u.get_prim_cell_idx() == home, "home cell survives");
        for (int k = 0; k < 3; k++) env_check(u.get_scaling_matrix()[k] == s[k], "scaling survives");
        for (int a = 0; a < natoms_of(id); a++) env_check(u.get_owned_atom_idxs()[a] == home * natoms_of(id) + a, "owned atoms survive");
    }
    static void mutate(Supercell<Real> &, int) {}
};
// a fixed geometry for the classes that search for neighbours; the cutoff (kept by the objects) is symbolic
static Structure<Real> geom(int id) {
    int z[3] = {42, 16, 16};
    Real L[3][3] = {{Real(6), Real(0), Real(0)}, {Real(0), Real(7), Real(0)}, {Real(0), Real(0), Real(8)}};
    Real c[3][3] = {{Real(1), Real(1), Real(1)}, {Real(2), Real(2), Real(2)}, {Real(3), Real(5), Real(4)}};
    return Structure<Real>(natoms_of(id), L, z, c, true);
}
static Real cutoff(int id) { return id ? rat(7, 2) : rat(5, 2); }
static bool PBC[2][3] = {{false, false, false}, {true, true, false}};
static void ck_bins(const BinLinkedList<Real> &b, int id) {
    const Structure<Real> &s = b.get_supercell().get_structure();
    int n = natoms_of(id);
    env_check(b.get_supercell().get_prim_num_atoms() == n, "atoms of the cell survive");
    // 2 atoms: the pair at distance sqrt 3; 3 atoms: periodic in x and y
    Structure<Real> g = geom(id);
    const int *own = b.get_supercell().get_owned_atom_idxs();
    for (int a = 0; a < n; a++) {
        for (int k = 0; k < 3; k++) env_check_eq(s.get_cart_coords()[own[a]][k], g.get_cart_coords()[a][k], "positions survive");
        std::vector<int> v = b.get_neigh_atoms(a), w = BinLinkedList<Real>(g, cutoff(id), PBC[id]).get_neigh_atoms(a);
        std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end());
        env_check(v == w, "neighbour candidates survive");
    }
}
template <> struct Own<BinLinkedList<Real>> {
    static BinLinkedList<Real> *make(int id) { return id == 2 ? new BinLinkedList<Real>() : new BinLinkedList<Real>(geom(id), cutoff(id), PBC[id]); }
    static void check(const BinLinkedList<Real> &b, int id) { if (id != 2) ck_bins(b, id); else env_check(b.get_supercell().get_num_atoms() == 0, "empty bins stay empty"); }
    static void mutate(BinLinkedList<Real> &, int) {}
};
static void ck_list(const NeighborList<Real> &l, int id) {
    NeighborList<Real> w(geom(id), cutoff(id), PBC[id], true);
    env_check(l.get_num_center_atoms() == natoms_of(id), "number of centres survives");
    env_check_eq(l.get_rcut(), cutoff(id), "cutoff survives");
    for (int a = 0; a < natoms_of(id); a++) env_check(l.get_neighbor_lists()[a] == w.get_neighbor_lists()[a], "neighbours survive");
}
template <> struct Own<NeighborList<Real>> {
    static NeighborList<Real> *make(int id) { return id == 2 ? new NeighborList<Real>() : new NeighborList<Real>(geom(id), cutoff(id), PBC[id], true); }
    static void check(const NeighborList<Real> &l, int id) { if (id == 2) env_check(l.get_num_center_atoms() == 0, "empty list stays empty"); else { ck_list(l, id); ck_bins(l.get_binLinkedList(), id); } }
    static void mutate(NeighborList<Real> &, int) {}
};
typedef deepPotSE::TildeR<Real> TR;
template <> struct Own<TR> {
    static TR *make(int id) {
        if (id == 2) return new TR();
        NeighborList<Real> nl(geom(id), cutoff(id), PBC[id], true);
        int c[2] = {42, 16}, cap[2] = {2 + id, 3};
        return new TR(nl, 2, c, 2, c, cap, rat(1, 2));
    }
    static void check(const TR &t, int id) {
        if (id == 2) { env_check(t.get_num_center_atoms() == 0 && t.get_num_neigh_atoms() == 0, "empty descriptor stays empty"); return; }
        env_check(t.get_num_center_atoms() == natoms_of(id), "rows survive");
        env_check(t.get_num_neigh_atoms() == 5 + id, "columns survive");
        TR *w = make(id);
        Real ***a = t.generate(), ***b = w->generate();
        for (int i = 0; i < natoms_of(id); i++) for (int j = 0; j < 5 + id; j++) for (int q = 0; q < 4; q++) env_check_eq(a[i][j][q], b[i][j][q], "descriptor survives");
        arrayUtils::free3dArray<Real>(a, natoms_of(id), 5 + id); arrayUtils::free3dArray<Real>(b, natoms_of(id), 5 + id);
        delete w;
    }
    static void mutate(TR &, int) {}
};
typedef deepPotSE::PairTildeR<Real> PTR;
template <> struct Own<PTR> {
    static PTR *make(int id) {
        if (id == 2) return new PTR();
        NeighborList<Real> nl(geom(id), cutoff(id), PBC[id], true);
        return new PTR(nl, id ? 16 : 42, 16, 3 + id, rat(1, 2));
    }
    static void check(const PTR &t, int id) {
        if (id == 2) { env_check(t.get_num_neigh_atoms() == 0, "empty descriptor stays empty"); return; }
        int n = t.get_num_center_atoms();
        env_check(n == (id ? 2 : 1), "rows survive");
        env_check(t.get_num_neigh_atoms() == 3 + id, "columns survive");
        PTR *w = make(id);
        Real ***a = t.generate(), ***b = w->generate();
        for (int i = 0; i < n; i++) for (int j = 0; j < 3 + id; j++) for (int q = 0; q < 4; q++) env_check_eq(a[i][j][q], b[i][j][q], "descriptor survives");
        arrayUtils::free3dArray<Real>(a, n, 3 + id); arrayUtils::free3dArray<Real>(b, n, 3 + id);
        delete w;
    }
    static void mutate(PTR &, int) {}
};
// radial bases: rebuilt at another distance after copying, all cutoffs symbolic
static Real rmax_of(int id) { return rat(9 + id, 2); }
static Real rmin_of(int id) { return rat(1 + id, 4); }
static Real dist_of(int id, int k) { return env_realn(nm("r", id, "_", k), 2, 3); }
static int size_of(int id) { return id == 2 ? 0 : id + 2; }
static Real tcheb(int n, Real x) { Real a = Real(1), b = x; for (int i = 0; i < n; i++) { Real t = Real(2) * x * b - a; a = b; b = t; } return a; }
static Real xi(int id, Real r) { Real a = rmax_of(id), b = rmin_of(id); return (Real(2) * r - (a + b)) / (a - b); }
static Real sw(int id, Real r) { Real u = (r - rmin_of(id)) / (rmax_of(id) - rmin_of(id)); return u * u * u * (Real(-6) * u * u + Real(15) * u - Real(10)) + Real(1); }
#define BASIS(CLS, VALS, WITHSW)                                                                                                   \
    template <> struct Own<CLS> {                                                                                                  \
        static CLS *make(int id) { if (id == 2) return new CLS(); CLS *c = new CLS(size_of(id), rmax_of(id), rmin_of(id)); c->build(dist_of(id, 0)); return c; } \
        static void check(const CLS &c, int id) {                                                                                  \
            env_check(c.size() == size_of(id), "size survives");                                                                   \
            for (int n = 0; n < size_of(id); n++) env_check_eq(c.VALS()[n], tcheb(n, xi(id, dist_of(id, 0))) * (WITHSW ? sw(id, dist_of(id, 0)) : Real(1)), "values survive"); \
            if (id == 2) return;                                                                                                   \
            CLS d(c); d.build(dist_of(id, 1));                                                                                     \
            for (int n = 0; n < size_of(id); n++) env_check_eq(d.VALS()[n], tcheb(n, xi(id, dist_of(id, 1))) * (WITHSW ? sw(id, dist_of(id, 1)) : Real(1)), "a copy evaluates by itself"); \
            for (int n = 0; n < size_of(id); n++) env_check_eq(c.VALS()[n], tcheb(n, xi(id, dist_of(id, 0))) * (WITHSW ? sw(id, dist_of(id, 0)) : Real(1)), "a copy shares nothing"); \
        }                                                                                                                          \
        static void mutate(CLS &c, int id) { if (id != 2) c.build(dist_of(id, 1)); }                                               \
    };
BASIS(mtp::ChebyshevPoly<Real>, get_result, false)
BASIS(mtp::MtpQ<Real>, get_result, true)
BASIS(mtpr::RB_Chebyshev<Real>, vals, false)
BASIS(mtpr::RQ_Chebyshev<Real>, vals, true)
// parameter tables
static int cell(int id, int which, int i, int k) { return (id * 5 + which * 3 + i * 7 + k * 2) % 10; }
static std::string param_file(int id, int nb, int nt, int ns) {
    std::string t;
    for (int i = 0; i < 10; i++) t += "header line\n";
    auto tab = [&](int which, int n) { std::string o = "{"; for (int i = 0; i < n; i++) { o += i ? ", {" : "{"; for (int k = 0; k < 4; k++) o += (k ? ", " : "") + std::to_string(cell(id, which, i, k)); o += "}"; } return o + "}"; };
    t += "alpha_moments_count = " + std::to_string(10 + id) + "\nalpha_index_basic_count = " + std::to_string(nb) + "\nalpha_index_basic = " + tab(0, nb);
    t += "\nalpha_index_times_count = " + std::to_string(nt) + "\nalpha_index_times = " + tab(1, nt) + "\nalpha_scalar_moments = " + std::to_string(ns) + "\nalpha_moment_mapping = {";
    for (int i = 0; i < ns; i++) t += (i ? ", " : "") + std::to_string(cell(id, 2, i, 0));
    return t + "}\n";
}
static std::string scratch(const std::string &text) {
    char path[] = "/tmp/verif_own_XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) throw CodeEvent{"scratch file"};
    close(fd);
    return path;
}
typedef mtpr::MtpParam MP;
static int nbasic(int id) { return id == 2 ? 0 : id + 1; }
static int ntimes(int id) { return id == 0 ? 2 : 0; }       // the second table has no products: an empty array inside a non-empty object
static int nscalar(int id) { return id == 2 ? 0 : 3 - id; }
static void ck_param(const MP &p, int id, int nb, int nt, int ns) {
    env_check(p.alpha_moments_count() == (id == 2 ? 0 : 10 + id) && p.alpha_index_basic_count() == nb && p.alpha_index_times_count() == nt && p.alpha_scalar_moments() == ns, "table sizes survive");
    for (int i = 0; i < nb; i++) for (int k = 0; k < 4; k++) env_check(p.alpha_index_basic()[i][k] == cell(id, 0, i, k), "basic moments survive");
    for (int i = 0; i < nt; i++) for (int k = 0; k < 4; k++) env_check(p.alpha_index_times()[i][k] == cell(id, 1, i, k), "products survive");
    for (int i = 0; i < ns; i++) env_check(p.alpha_moment_mapping()[i] == cell(id, 2, i, 0), "mapping survives");
}
template <> struct Own<MP> {
    static MP *make(int id) {
        if (id == 2) return new MP();
        std::string f = scratch(param_file(id, nbasic(id), ntimes(id), nscalar(id)));
        MP *p = nullptr;
        try { p = new MP(f); } catch (...) { unlink(f.c_str()); throw; }
        unlink(f.c_str());
        return p;
    }
    static void check(const MP &p, int id) { ck_param(p, id, nbasic(id), ntimes(id), nscalar(id)); }
    static void mutate(MP &, int) {}
};
typedef mtp::MtpMCoeffPairCombs CC;
template <> struct Own<CC> {
    static CC *make(int id) { return id == 2 ? new CC() : new CC(id ? 8 : 5); }
    static void check(const CC &c, int id) {
        env_check(c.max_level() == (id == 2 ? 0 : id ? 8 : 5), "level survives");
        CC w = id == 2 ? CC() : CC(id ? 8 : 5);
        env_check(c.size() == w.size(), "number of combinations survives");
        for (int i = 0; i < w.size(); i++) {
            env_check(c.coeff_pair_combs()[i].size() == w.coeff_pair_combs()[i].size(), "combination survives");
            for (size_t j = 0; j < w.coeff_pair_combs()[i].size(); j++) env_check(c.coeff_pair_combs()[i][j].coeff_pair() == w.coeff_pair_combs()[i][j].coeff_pair() && c.coeff_pair_combs()[i][j].level() == w.coeff_pair_combs()[i][j].level(), "combination survives");
        }
    }
    static void mutate(CC &, int) {}
};

template <class T> static void drive() {
    long base = mem_live();
    int steps = env_iparam("steps"), slots = env_iparam("slots");
    int id[3] = {0, slots == 2 && env_int("second_empty", 0, 1) ? 2 : 1, 2};
    T *s[3] = {nullptr, nullptr, nullptr};
    for (int i = 0; i < slots; i++) { s[i] = Own<T>::make(id[i]); Own<T>::check(*s[i], id[i]); }
    for (int t = 0; t < steps; t++) {
        int op = env_int(nm("op", t).c_str(), 0, 4), i = env_int(nm("to", t).c_str(), 0, slots - 1), j = env_int(nm("from", t).c_str(), 0, slots - 1);
        if (id[j] < 0) throw PathAbort();            // a moved-from object is only assigned to or destroyed
        if (op == 0) { T *n = new T(*s[j]); int was = id[j]; delete s[i]; s[i] = n; id[i] = was; env_reach("copy"); }
        else if (op == 1) { T *r = &(*s[i] = *s[j]); env_check(r == s[i], "assignment yields the assigned object"); id[i] = id[j]; env_reach("assign"); }
        else if (op == 2) {
            T *n = new T(std::move(*s[j])); int was = id[j];
            id[j] = -1; delete s[i]; s[i] = n; id[i] = was; env_reach("move");
        } else if (op == 3) {
            T *r = &(*s[i] = std::move(*s[j])); env_check(r == s[i], "assignment yields the assigned object");
            int was = id[j]; id[j] = -1; if (i != j) id[i] = was; env_reach("move assign");
        } else {
            if (i == j) throw PathAbort();
            // two equal objects, one of them changed: the other keeps its value
            *s[i] = *s[j]; Own<T>::mutate(*s[i], id[j]); Own<T>::check(*s[j], id[j]); id[i] = -1;
            env_reach("independent");
        }
        for (int k = 0; k < slots; k++) if (id[k] >= 0) Own<T>::check(*s[k], id[k]);
        env_check(mem_state().empty(), "heap intact: " + mem_state());
    }
    for (int i = 0; i < slots; i++) delete s[i];
    env_check(mem_state().empty(), "heap intact: " + mem_state());
    env_check(mem_live() == base, "no heap block left behind");
    env_reach("end");
}
CASE(own_structure) { fixed_lat = false; drive<Structure<Real>>(); }
CASE(own_supercell) { fixed_lat = true; drive<Supercell<Real>>(); }
CASE(own_bins) { drive<BinLinkedList<Real>>(); }
CASE(own_list) { drive<NeighborList<Real>>(); }
CASE(own_tilder) { drive<TR>(); }
CASE(own_pairtilder) { drive<PTR>(); }
CASE(own_cheb) { drive<mtp::ChebyshevPoly<Real>>(); }
CASE(own_mtpq) { drive<mtp::MtpQ<Real>>(); }
CASE(own_rb) { drive<mtpr::RB_Chebyshev<Real>>(); }
CASE(own_rq) { drive<mtpr::RQ_Chebyshev<Real>>(); }
CASE(own_param) { drive<MP>(); }
CASE(own_combs) { drive<CC>(); }
// parameter files: every table size the solver picks is read back in full
CASE(param_load) {
    int nb = env_int("basic", 1, 4), nt = env_int("times", 0, 4), ns = env_int("scalars", 1, 4), id = env_int("values", 0, 1);
    std::string f = scratch(param_file(id, nb, nt, ns));
    try { MP p(f); unlink(f.c_str()); ck_param(p, id, nb, nt, ns); MP q; q = p; ck_param(q, id, nb, nt, ns); }
    catch (...) { unlink(f.c_str()); throw; }
    env_check(mem_live() == 0, "no heap block left behind");
    env_reach("end");
}
