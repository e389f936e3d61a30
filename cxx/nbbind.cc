// Harness: the Python binding of the neighbour list.
#include "sym.h"
#include "memmon.h"
#include <Python.h>
#include <numpy/arrayobject.h>
#include "nblist/bind/nblist_bind.cc"
using namespace matersdk;
struct Session { ~Session() { fakepy::reset(); } };
static const int LAT[][9] = {{32, 0, 0, 0, 32, 0, 0, 0, 32}, {32, 0, 0, -16, 28, 0, 8, -8, 40}, {0, 24, 24, 24, 0, 24, 24, 24, 0}};
// an array object over caller-owned memory; layout 0: rows in order, 1: column by column, 2: every second row of a larger array
template <class T> static PyObject *array2(std::vector<T> &store, const std::vector<std::vector<T>> &v, int nd, int type, int layout) {
    long n = (long)v.size(), m = (long)v[0].size();
    store.assign(n * m * (layout == 2 ? 2 : 1), T(7));
    for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) store[layout == 1 ? j * n + i : layout == 2 ? 2 * i * m + j : i * m + j] = v[i][j];
    long d[2] = {n, m};
    PyObject *o = fakepy::arr(nd, d, type, store.data());
    long w = fakepy::isize(type);
    if (layout == 1 && nd == 2) { o->strides = {w, n * w}; }
    if (layout == 2) o->strides[0] = 2 * m * w;
    return o;
}
static PyObject *pybool(int v, int how) { return how == 0 ? PyBool_FromLong(v) : PyLong_FromLong(v ? 3 : 0); }

CASE(py_nblist) {
    Session session;
    int lat = env_iparam("lat"), n = env_iparam("natoms"), mode = env_iparam("mode"), spare = env_int("spare", -1, 2);
    int sort = env_iparam("sort"), cart = env_iparam("cart"), layout = env_int("layout", 0, 2), pbcm = env_iparam("pbc"), how = sort;
    Real rc = env_param("rc");
    std::vector<std::vector<Real>> L(3, std::vector<Real>(3)), x(n, std::vector<Real>(3)); std::vector<std::vector<int>> z;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) L[i][j] = rat(LAT[lat][3 * i + j], 8);
    static const int F[4][3] = {{2, 3, 1}, {9, 11, 6}, {13, 5, 12}, {6, 14, 9}};
    for (int a = 0; a < n; a++) {
        Real f[3]; for (int k = 0; k < 3; k++) f[k] = rat(F[a][k], 16);
        if (a == n - 1) for (int k = 0; k < 3; k++) if (mode >> k & 1) f[k] = env_realn(nm("f", k), 0.0625, 0.9375);
        for (int k = 0; k < 3; k++) x[a][k] = cart ? f[0] * L[0][k] + f[1] * L[1][k] + f[2] * L[2][k] : f[k];
        z.push_back({a % 2 ? 16 : 42});
    }
    // what the library itself says
    Real L3[3][3], x3[4][3]; int z3[4]; bool pbc[3];
    for (int i = 0; i < 3; i++) { pbc[i] = pbcm >> i & 1; for (int j = 0; j < 3; j++) L3[i][j] = L[i][j]; }
    for (int a = 0; a < n; a++) { z3[a] = z[a][0]; for (int k = 0; k < 3; k++) x3[a][k] = x[a][k]; }
    std::vector<int> il(n), nn(n), fn, ty(n); std::vector<Real> rel; int in, ng, umax, most;
    {
        Structure<Real> st(n, L3, z3, x3, (bool)cart); NeighborList<Real> nl(st, rc, pbc, (bool)sort);
        most = 0; for (int a = 0; a < n; a++) most = std::max(most, (int)nl.get_neighbor_lists()[a].size());
        umax = most + spare; fn.resize(n * (most + 2)); rel.resize(n * (most + 2) * 3);
        if (umax < 0) throw PathAbort();
        if (spare >= 0) nl.find_info4mlff(in, il.data(), nn.data(), fn.data(), rel.data(), ty.data(), ng, umax);
    }
    std::vector<Real> sl, sx; std::vector<int> sz;
    PyObject *pl = array2(sl, L, 2, NPY_DOUBLE, layout), *px = array2(sx, x, 2, NPY_DOUBLE, layout), *pz = array2(sz, z, 1, NPY_INT, layout == 1 ? 0 : layout);
    PyObject *prc = PyFloat_FromDouble(rc), *pu = PyLong_FromLong(umax), *pp = PyList_New(3);
    for (int i = 0; i < 3; i++) pp->items[i] = pybool(pbc[i], how);
    PyObject *ps = pybool(sort, how), *pc = pybool(cart, how);
    std::vector<PyObject *> args = {pl, pz, px, prc, pp, pu, ps, pc};
    std::vector<long> rcnt; for (PyObject *o : args) rcnt.push_back(o->ob_refcnt);
    long base = mem_live();
    PyObject *r = find_info4mlff(pl, pz, px, prc, pp, pu, ps, pc);
    for (size_t i = 0; i < args.size(); i++) env_check(!args[i]->dead && args[i]->ob_refcnt == rcnt[i], "the arguments stay with the caller");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) env_check_eq(*(Real *)PyArray_GETPTR2(pl, i, j), L[i][j], "the arguments keep their values");
    if (spare < 0) {
        env_check(r == nullptr && PyErr_Occurred(), "too few slots are reported as an error");
        env_check(mem_live() == base, "nothing left behind");
        env_reach("too small"); return;
    }
    env_check(r != nullptr && !PyErr_Occurred(), "a result comes back");
    env_check(r->kind == PK_TUPLE && r->items.size() == 7, "seven items");
    for (PyObject *o : r->items) env_check(o != nullptr && !o->dead && (o->eternal || o->ob_refcnt == 1), "items owned by the result alone");
    env_check(PyLong_AsLong(r->items[0]) == n, "number of atoms");
    env_check(PyLong_AsLong(r->items[6]) == 0, "number of ghost atoms");
    long dm[5][3] = {{n}, {n}, {n, umax}, {n, umax, 3}, {n}}; int nd[5] = {1, 1, 2, 3, 1}, tn[5] = {NPY_INT, NPY_INT, NPY_INT, NPY_DOUBLE, NPY_INT};
    for (int q = 0; q < 5; q++) {
        PyObject *o = r->items[1 + q];
        env_check(o->kind == PK_ARRAY && o->type_num == tn[q] && (int)o->dims.size() == nd[q], "type and rank of each array");
        for (int k = 0; k < nd[q]; k++) env_check(o->dims[k] == dm[q][k], "shape of each array");
        env_check(fakepy::ccontig(o), "arrays are contiguous");
    }
    for (int a = 0; a < n; a++) {
        env_check(*(int *)PyArray_GETPTR1(r->items[1], a) == il[a], "centres"); env_check(*(int *)PyArray_GETPTR1(r->items[2], a) == nn[a], "neighbour counts");
        env_check(*(int *)PyArray_GETPTR1(r->items[5], a) == ty[a], "species");
        for (int j = 0; j < umax; j++) {
            env_check(*(int *)PyArray_GETPTR2(r->items[3], a, j) == fn[a * umax + j], "neighbour indices");
            for (int k = 0; k < 3; k++) env_check_eq(*(Real *)PyArray_GETPTR3(r->items[4], a, j, k), rel[(a * umax + j) * 3 + k], "displacements");
            env_reach("slot");
        }
    }
    Py_DECREF(r);
    env_check(mem_live() == base, "releasing the result releases all its memory");
    env_reach("end");
}
