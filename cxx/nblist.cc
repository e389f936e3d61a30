// Harness: structures, supercells, cell geometry, neighbour lists and their flattened form.
#include "sym.h"
#include "memmon.h"
#include "nblist/include/structure.h"
#include "nblist/include/binLinkedList.h"
#include "nblist/include/neighborList.h"
using namespace matersdk;
template <class A> static A *arr(size_t n) { return (A *)malloc(sizeof(A) * n); }
template <class A> static A **arr2(size_t n, size_t m) { A **r = arr<A *>(n); for (size_t i = 0; i < n; i++) r[i] = arr<A>(m); return r; }
template <class A> static void free2(A **p, size_t n) { for (size_t i = 0; i < n; i++) free((void *)p[i]); free((void *)p); }

// concrete lattices: rows are the basis vectors, in 1/8 Angstrom
static const int LAT[][9] = {
    {32, 0, 0, 0, 32, 0, 0, 0, 32},            // 0 cubic 4
    {24, 0, 0, 0, 40, 0, 0, 0, 56},            // 1 orthorhombic 3 5 7
    {32, 0, 0, 16, 28, 0, 0, 0, 48},           // 2 monoclinic/hexagonal like
    {32, 0, 0, -16, 28, 0, 8, -8, 40},         // 3 triclinic, negative components
    {0, 24, 24, 24, 0, 24, 24, 24, 0},         // 4 fcc primitive
    {8, 0, 0, 0, 48, 0, 0, 0, 48},             // 5 very flat cell
    {32, 0, 0, 0, 0, 40, 0, -36, 0},           // 6 rotated axes, negative
    {64, 0, 0, 24, 48, 0, 0, 0, 48},           // 7 wide
};
static void lattice_const(int id, Real L[3][3]) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) L[i][j] = rat(LAT[id][3 * i + j], 8); }
static void lattice_sym(Real L[3][3], int spread = 4) {
    static const char *B = "abc", *X = "xyz";
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { char n[3] = {B[i], X[j], 0}; L[i][j] = env_real(n, -spread, spread); }
}
// general position, all entries positive and diagonally dominant: never singular, signs known
static void lattice_dom(Real L[3][3]) {
    static const char *B = "abc", *X = "xyz";
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { char n[3] = {B[i], X[j], 0}; L[i][j] = i == j ? env_real(n, 6, 8) : env_real(n, 0.0625, 1); }
}
static Real det3(const Real L[3][3]) {
    return L[0][0] * (L[1][1] * L[2][2] - L[1][2] * L[2][1]) - L[0][1] * (L[1][0] * L[2][2] - L[1][2] * L[2][0]) + L[0][2] * (L[1][0] * L[2][1] - L[1][1] * L[2][0]);
}

// ---------------------------------------------------------------- structures
static void check_struct(const Structure<Real> &s, int n, const Real L[3][3], const int *z, Real c[][3], const char *what) {
    env_check(s.get_num_atoms() == n, std::string(what) + ": atom count");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) env_check_eq(s.get_basis_vectors()[i][j], L[i][j], std::string(what) + ": lattice");
    for (int a = 0; a < n; a++) {
        env_check(s.get_atomic_numbers()[a] == z[a], std::string(what) + ": species of each atom");
        for (int k = 0; k < 3; k++) env_check_eq(s.get_cart_coords()[a][k], c[a][k], std::string(what) + ": position of each atom");
    }
    for (int k = 0; k < 3; k++) env_check_eq(s.get_pseudo_origin()[k], Real(0), std::string(what) + ": origin");
}
CASE(struct_forms) {
    int n = 1 + env_int("n", 0, 2);
    Real L[3][3]; lattice_sym(L);
    Real f[3][3], c[3][3]; int z[3] = {42, 16, 6};
    for (int a = 0; a < n; a++) for (int k = 0; k < 3; k++) f[a][k] = env_realn(nm("f", a, "_", k), -2, 2);
    for (int a = 0; a < n; a++) for (int k = 0; k < 3; k++) c[a][k] = f[a][0] * L[0][k] + f[a][1] * L[1][k] + f[a][2] * L[2][k];
    long base = mem_live();
    {
        int how = env_int("how", 0, 3);
        if (how < 2) {
            Structure<Real> s(n, L, z, how ? f : c, how == 0);
            check_struct(s, n, L, z, c, how ? "fractional" : "cartesian");
            env_reach("arrays");
        } else {
            Real **L2 = arr2<Real>(3, 3), **c2 = arr2<Real>(n, 3);
            int *z2 = arr<int>(n);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) L2[i][j] = L[i][j];
            for (int a = 0; a < n; a++) { z2[a] = z[a]; for (int k = 0; k < 3; k++) c2[a][k] = how == 3 ? f[a][k] : c[a][k]; }
            {
                Structure<Real> s(n, L2, z2, c2, how == 2);
                for (int a = 0; a < n; a++) { z2[a] = 0; for (int k = 0; k < 3; k++) c2[a][k] = Real(99); }   // the structure owns its data
                check_struct(s, n, L, z, c, how == 3 ? "fractional" : "cartesian");
            }
            free2(L2, 3); free2(c2, n); free(z2);
            env_reach("pointers");
        }
    }
    env_check(mem_live() == base, "no heap block left behind");
}

// ---------------------------------------------------------------- supercells
CASE(supercell_images) {
    int n = env_iparam("natoms");
    int s[3];
    for (int k = 0; k < 3; k++) s[k] = env_int(nm("s", k).c_str(), 1, env_iparam("smax"));
    Real L[3][3]; lattice_dom(L);
    Real c[2][3]; int z[2] = {42, 16};
    for (int a = 0; a < n; a++) for (int k = 0; k < 3; k++) c[a][k] = env_realn(nm("p", a, "_", k), -9, 9);
    long base = mem_live();
    {
        Structure<Real> st(n, L, z, c, true);
        Structure<Real> direct(st);
        direct.make_supercell(s);
        Supercell<Real> sc(st, s);
        const Structure<Real> *both[2] = {&direct, &sc.get_structure()};
        int lo[3];
        for (int k = 0; k < 3; k++) lo[k] = s[k] % 2 ? -(s[k] - 1) / 2 : -s[k] / 2 + 1;
        for (int q = 0; q < 2; q++) {
            const Structure<Real> &u = *both[q];
            int N = n * s[0] * s[1] * s[2];
            env_check(u.get_num_atoms() == N, "supercell atom count");
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) env_check_eq(u.get_basis_vectors()[i][j], L[i][j] * Real(s[i]), "supercell lattice");
            int at = 0;
            for (int i = lo[0]; i < lo[0] + s[0]; i++) for (int j = lo[1]; j < lo[1] + s[1]; j++) for (int k = lo[2]; k < lo[2] + s[2]; k++)
                for (int a = 0; a < n; a++, at++) {
                    env_check(u.get_atomic_numbers()[at] == z[a], "supercell species");
                    for (int x = 0; x < 3; x++)
                        env_check_eq(u.get_cart_coords()[at][x], c[a][x] + L[0][x] * Real(i) + L[1][x] * Real(j) + L[2][x] * Real(k), "supercell image position");
                }
            for (int x = 0; x < 3; x++) env_check_eq(u.get_pseudo_origin()[x], L[0][x] * Real(lo[0]) + L[1][x] * Real(lo[1]) + L[2][x] * Real(lo[2]), "supercell origin");
        }
        env_check(sc.get_num_atoms() == n * s[0] * s[1] * s[2] && sc.get_prim_num_atoms() == n, "counts of the supercell");
        int h[3] = {-lo[0], -lo[1], -lo[2]};
        for (int k = 0; k < 3; k++) { env_check(sc.get_prim_cell_idx_xyz()[k] == h[k], "home cell along each axis"); env_check(sc.get_scaling_matrix()[k] == s[k], "scaling kept"); }
        for (int a = 0; a < n; a++) {
            int o = sc.get_owned_atom_idxs()[a];
            env_check(o >= 0 && o < n * s[0] * s[1] * s[2], "owned atom index in range");
            env_check(o == sc.get_prim_cell_idx() * n + a, "owned atoms are the home-cell block");
            for (int x = 0; x < 3; x++) env_check_eq(sc.get_structure().get_cart_coords()[o][x], c[a][x], "owned atoms sit at the original positions");
            env_check(sc.get_structure().get_atomic_numbers()[o] == z[a], "owned atoms keep their species");
        }
        env_reach("end");
    }
    env_check(mem_live() == base, "no heap block left behind");
}

// ---------------------------------------------------------------- cell geometry
CASE(cell_geometry) {
    Real L[3][3]; int row = env_iparam("row");
    if (row < 0) lattice_sym(L);
    else { lattice_const(3, L); for (int k = 0; k < 3; k++) L[row][k] = env_realn(nm("v", k), -8, 8); }
    Real d = det3(L);
    env_assume_le(rat(1, 4), d * d);
    Real c[1][3] = {{Real(0), Real(0), Real(0)}}; int z[1] = {1};
    Structure<Real> s(1, L, z, c, true);
    Real *h = s.get_interplanar_distances();
    for (int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        Real n0 = L[j][1] * L[k][2] - L[j][2] * L[k][1], n1 = L[j][2] * L[k][0] - L[j][0] * L[k][2], n2 = L[j][0] * L[k][1] - L[j][1] * L[k][0];
        env_check_le(Real(0), h[i], "plane spacing is not negative");
        env_check_eq(h[i] * h[i] * (n0 * n0 + n1 * n1 + n2 * n2), d * d, "plane spacing is volume over face area");
    }
    free(h);
    env_reach("end");
    env_check(mem_live() >= 0, "heap");
}
CASE(cell_box) {
    Real L[3][3]; lattice_const(3, L);
    int ax = env_iparam("axis");      // the components along one Cartesian axis are arbitrary
    for (int i = 0; i < 3; i++) L[i][ax] = env_realn(nm("v", i), -8, 8);
    int s[3] = {env_iparam("s0"), env_iparam("s1"), env_iparam("s2")};
    Real c[1][3] = {{Real(1), Real(0), Real(0)}}; int z[1] = {1};
    long base = mem_live();
    {
        Structure<Real> st(1, L, z, c, true);
        st.make_supercell(s);
        int lo[3];
        for (int k = 0; k < 3; k++) lo[k] = s[k] % 2 ? -(s[k] - 1) / 2 : -s[k] / 2 + 1;
        Real o[3], S[3][3];
        for (int x = 0; x < 3; x++) { o[x] = L[0][x] * Real(lo[0]) + L[1][x] * Real(lo[1]) + L[2][x] * Real(lo[2]); for (int i = 0; i < 3; i++) S[i][x] = L[i][x] * Real(s[i]); }
        Real **v = st.get_vertexes(), **lim = st.get_limit_xyz(), *pl = st.get_projected_lengths();
        for (int q = 0; q < 8; q++) for (int x = 0; x < 3; x++)
            env_check_eq(v[q][x], o[x] + Real(q >> 2 & 1) * S[0][x] + Real(q >> 1 & 1) * S[1][x] + Real(q & 1) * S[2][x], "corners of the cell");
        for (int x = 0; x < 3; x++) {
            Real lo_ = o[x], hi_ = o[x];
            for (int i = 0; i < 3; i++) { if (S[i][x] < Real(0)) lo_ = lo_ + S[i][x]; else hi_ = hi_ + S[i][x]; }
            env_check_eq(lim[x][0], lo_, "lower limit is the lowest corner");
            env_check_eq(lim[x][1], hi_, "upper limit is the highest corner");
            env_check_eq(pl[x], lim[x][1] - lim[x][0], "projected length is the extent of the cell");
        }
        free2(v, 8); free2(lim, 3); free(pl);
        env_reach("end");
    }
    env_check(mem_live() == base, "no heap block left behind");
}

// ---------------------------------------------------------------- neighbour lists
struct NB {
    Real L[3][3]; Real rc; bool pbc[3]; int n; Real p[12][3]; int z[12];
};
static const int FRAC[12][3] = {{1, 1, 2}, {5, 4, 3}, {2, 6, 5}, {6, 2, 7}, {4, 0, 6}, {0, 5, 0}, {7, 7, 1}, {3, 2, 0}, {0, 3, 5}, {4, 7, 7}, {7, 4, 5}, {2, 4, 1}};      // in 1/8
static NB make_nb() {
    NB s;
    lattice_const(env_iparam("lat"), s.L);
    int mode = env_iparam("mode"), mask = env_iparam("pbc");
    for (int k = 0; k < 3; k++) s.pbc[k] = mask >> k & 1;
    s.n = env_iparam("natoms");
    s.rc = env_param("rc");
    if (mode & 8) { s.rc = env_real("rc", env_iparam("rclo"), env_iparam("rchi")); }
    if (mode & 16) { Real t = env_real("scale", 0.75, 1.5); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s.L[i][j] = s.L[i][j] * t; }
    Real f[12][3];
    for (int a = 0; a < s.n; a++) { s.z[a] = a % 2 ? 16 : 42; for (int k = 0; k < 3; k++) f[a][k] = rat(FRAC[a][k], 8); }
    // the last atom moves along the axes in the mode mask
    for (int k = 0; k < 3; k++) if (mode >> k & 1) f[s.n - 1][k] = (mode & 32) && !s.pbc[k] ? env_realn(nm("f", k), -1, 2) : mode & 64 ? env_realn(nm("f", k), 0.25, 0.5) : env_realn(nm("f", k), 0, 1);
    for (int k = 0; k < 3; k++) if (s.pbc[k]) env_assume_lt(f[s.n - 1][k], Real(1));
    for (int a = 0; a < s.n; a++) for (int x = 0; x < 3; x++) s.p[a][x] = f[a][0] * s.L[0][x] + f[a][1] * s.L[1][x] + f[a][2] * s.L[2][x];
    return s;
}
static Real sq(const Real &x) { return x * x; }
struct Img { int a, i, j, k; Real d[3], d2; };
// every image of every atom that could lie within the cutoff
static std::vector<Img> images(const NB &s, int c, int N) {
    std::vector<Img> o;
    for (int a = 0; a < s.n; a++)
        for (int i = -(s.pbc[0] ? N : 0); i <= (s.pbc[0] ? N : 0); i++) for (int j = -(s.pbc[1] ? N : 0); j <= (s.pbc[1] ? N : 0); j++) for (int k = -(s.pbc[2] ? N : 0); k <= (s.pbc[2] ? N : 0); k++) {
            if (a == c && !i && !j && !k) continue;
            Img m; m.a = a; m.i = i; m.j = j; m.k = k;
            for (int x = 0; x < 3; x++) m.d[x] = s.p[a][x] - s.p[c][x] + s.L[0][x] * Real(i) + s.L[1][x] * Real(j) + s.L[2][x] * Real(k);
            m.d2 = sq(m.d[0]) + sq(m.d[1]) + sq(m.d[2]);
            o.push_back(m);
        }
    return o;
}
static NeighborList<Real> build(const NB &s, bool sort) {
    Real L[3][3], p[12][3]; int z[12]; bool pbc[3];
    for (int i = 0; i < 3; i++) { pbc[i] = s.pbc[i]; for (int j = 0; j < 3; j++) L[i][j] = s.L[i][j]; }
    for (int a = 0; a < s.n; a++) { z[a] = s.z[a]; for (int k = 0; k < 3; k++) p[a][k] = s.p[a][k]; }
    Structure<Real> st(s.n, L, z, p, true);
    int b = env_iparam("bin");
    if (b == 0) return NeighborList<Real>(st, s.rc, pbc, sort);
    Real bs[3];
    for (int k = 0; k < 3; k++) bs[k] = s.rc * rat(b + (b > 4 ? 0 : k), 4);
    return NeighborList<Real>(st, s.rc, bs, pbc, sort);
}
// the moving atom never comes closer than 0.125 A to another atom or image
static void assume_apart(const NB &s, int N) {
    int c = s.n - 1;
    for (const Img &m : images(s, c, N)) env_assume_le(rat(1, 64), m.d2);
}
static void check_list(const NB &s, const NeighborList<Real> &nl, bool sort, int N) {
    const Structure<Real> &u = nl.get_binLinkedList().get_supercell().get_structure();
    int n = s.n, tot = u.get_num_atoms();
    const int *own = nl.get_binLinkedList().get_supercell().get_owned_atom_idxs();
    env_check(nl.get_num_center_atoms() == n, "one list per atom of the cell");
    env_check_eq(nl.get_rcut(), s.rc, "cutoff kept");
    for (int c = 0; c < n; c++) {
        std::vector<Img> im = images(s, c, N);
        std::vector<int> hit(im.size(), 0);
        const std::vector<int> &lst = nl.get_neighbor_lists()[c];
        Real prev = Real(0);
        for (int q : lst) {
            env_check(q >= 0 && q < tot, "neighbour index valid");
            int found = -1;
            Real dd[3];
            for (int x = 0; x < 3; x++) dd[x] = u.get_cart_coords()[q][x] - u.get_cart_coords()[own[c]][x];
            for (size_t t = 0; t < im.size() && found < 0; t++) {
                if (im[t].a != q % n) continue;
#if SYM
                Real e0 = dd[0] - im[t].d[0], e1 = dd[1] - im[t].d[1], e2 = dd[2] - im[t].d[2];
                if (e0.isc() && !e0.num && e1.isc() && !e1.num && e2.isc() && !e2.num) found = (int)t;
#else
                if (std::fabs(dd[0] - im[t].d[0]) + std::fabs(dd[1] - im[t].d[1]) + std::fabs(dd[2] - im[t].d[2]) < 1e-8) found = (int)t;
#endif
            }
            env_check(found >= 0, "every neighbour is a periodic image of an atom");
            env_check(u.get_atomic_numbers()[q] == s.z[im[found].a], "species of each neighbour");
            env_check(!hit[found], "no neighbour listed twice");
            hit[found] = 1;
            env_check_lt(im[found].d2, s.rc * s.rc, "only atoms inside the cutoff");
            if (sort) { env_check_le(prev, im[found].d2, "ordered by distance"); prev = im[found].d2; }
        }
        for (size_t t = 0; t < im.size(); t++) if (!hit[t]) env_check_le(s.rc * s.rc, im[t].d2, "no atom inside the cutoff is missed");
        if (!lst.empty()) env_reach("some neighbour");
    }
    env_reach("end");
}
CASE(nb_list) {
    NB s = make_nb();
    int N = env_iparam("nimg");
    assume_apart(s, N);
    long base = mem_live();
    {
        bool sort = env_iparam("sort");
        NeighborList<Real> nl = build(s, sort);
        check_list(s, nl, sort, N);
    }
    env_check(mem_live() == base, "no heap block left behind");
}
CASE(nb_flat) {
    NB s = make_nb();
    int N = env_iparam("nimg");
    assume_apart(s, N);
    long base = mem_live();
    {
        NeighborList<Real> nl = build(s, env_iparam("sort"));
        int n = s.n, extra = env_iparam("extra");
        // the counts users size their buffers with
        int mx = 0, by[2][2] = {{0, 0}, {0, 0}};
        const Structure<Real> &u = nl.get_binLinkedList().get_supercell().get_structure();
        for (int c = 0; c < n; c++) {
            int k = (int)nl.get_neighbor_lists()[c].size(), t[2] = {0, 0};
            if (k > mx) mx = k;
            for (int q : nl.get_neighbor_lists()[c]) t[s.z[q % n] == 16]++;
            for (int w = 0; w < 2; w++) if (t[w] > by[s.z[c] == 16][w]) by[s.z[c] == 16][w] = t[w];
        }
        env_check(nl.get_max_num_neigh_atoms() == mx, "largest neighbour count");
        int zs[2] = {42, 16};
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) env_check(nl.get_max_num_neigh_atoms_ssss(zs[a], zs[b]) == by[a][b], "largest neighbour count per species pair");
        int umax = mx + extra;
        int inum = -1, nghost = -1;
        int *ilist = arr<int>(n), *num = arr<int>(n), *first = arr<int>(n * umax), *types = arr<int>(n);
        Real *rel = arr<Real>(n * umax * 3);
        nl.find_info4mlff(inum, ilist, num, first, rel, types, nghost, umax);
        env_check(inum == n, "number of centres");
        env_check(nghost == 0, "images are folded back, so there are no ghost atoms");
        const int *own = nl.get_binLinkedList().get_supercell().get_owned_atom_idxs();
        for (int c = 0; c < n; c++) {
            const std::vector<int> &lst = nl.get_neighbor_lists()[c];
            env_check(ilist[c] == c, "centre order");
            env_check(types[c] == s.z[c], "species of each centre");
            env_check(num[c] == (int)lst.size(), "neighbour count of each centre");
            for (int j = 0; j < umax; j++) {
                if (j < (int)lst.size()) {
                    env_check(first[c * umax + j] == lst[j] % n, "neighbour owner index");
                    for (int x = 0; x < 3; x++) env_check_eq(rel[(c * umax + j) * 3 + x], u.get_cart_coords()[lst[j]][x] - u.get_cart_coords()[own[c]][x], "neighbour displacement");
                    env_reach("neighbour");
                } else {
                    env_check(first[c * umax + j] == -1, "unused slots are -1");
                    for (int x = 0; x < 3; x++) env_check_eq(rel[(c * umax + j) * 3 + x], Real(0), "unused displacements are zero");
                    env_reach("padding");
                }
            }
        }
        free(ilist); free(num); free(first); free(types); free(rel);
        env_reach("end");
    }
    env_check(mem_live() == base, "no heap block left behind");
}
