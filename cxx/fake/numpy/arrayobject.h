#pragma once
#include <Python.h>
typedef long npy_intp; typedef int npy_int32; typedef int npy_int; typedef long npy_int64; typedef Real npy_double; typedef Real npy_float64;
enum { NPY_BOOL = 0, NPY_INT = 5, NPY_INT32 = 5, NPY_LONG = 7, NPY_INT64 = 7, NPY_FLOAT = 11, NPY_FLOAT32 = 11, NPY_DOUBLE = 12, NPY_FLOAT64 = 12 };
enum { NPY_ARRAY_C_CONTIGUOUS = 1, NPY_ARRAY_F_CONTIGUOUS = 2, NPY_ARRAY_OWNDATA = 4, NPY_ARRAY_FORCECAST = 0x10, NPY_ARRAY_ENSURECOPY = 0x20, NPY_ARRAY_ALIGNED = 0x100, NPY_ARRAY_NOTSWAPPED = 0x200, NPY_ARRAY_WRITEABLE = 0x400,
       NPY_ARRAY_IN_ARRAY = 0x101, NPY_ARRAY_CARRAY = 0x501, NPY_ARRAY_CARRAY_RO = 0x101, NPY_ARRAY_DEFAULT = 0x501, NPY_ARRAY_BEHAVED = 0x500 };
#define NPY_OWNDATA NPY_ARRAY_OWNDATA
#define NPY_IN_ARRAY NPY_ARRAY_IN_ARRAY
#define NPY_C_CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
#define import_array() do { } while (0)
#define import_array1(r) do { } while (0)
inline int _import_array() { return 0; }
namespace fakepy {
inline long isize(int t) { return t == NPY_INT ? 4 : t == NPY_LONG ? 8 : t == NPY_BOOL ? 1 : t == NPY_DOUBLE ? (long)sizeof(Real) : t == NPY_FLOAT ? (long)sizeof(Real) : (bad("unknown array type"), 0); }
inline PyObject *arr(int nd, const long *dims, int t, void *data) {
    PyObject *o = mk(PK_ARRAY); o->type_num = t; o->dims.assign(dims, dims + nd); o->strides.assign(nd, 0); long k = isize(t);
    for (int i = nd - 1; i >= 0; i--) { if (dims[i] < 0) bad("negative dimension"); o->strides[i] = k; k *= dims[i]; }
    if (data) o->data = (char *)data; else { o->data = (char *)malloc(k ? k : 1); o->flags |= NPY_ARRAY_OWNDATA; }
    return o;
}
inline PyObject *a(const void *p) { PyObject *o = (PyObject *)p; live(o); if (o->kind != PK_ARRAY) bad("not an array"); return o; }
inline bool ccontig(const PyObject *o) { long k = isize(o->type_num); for (int i = (int)o->dims.size() - 1; i >= 0; i--) { if (o->dims[i] != 1 && o->strides[i] != k) return false; k *= o->dims[i]; } return true; }
inline long total(const PyObject *o) { long n = 1; for (long d : o->dims) n *= d; return n; }
inline char *at(const PyObject *o, long i) { long off = 0; for (int d = (int)o->dims.size() - 1; d >= 0; d--) { off += i % o->dims[d] * o->strides[d]; i /= o->dims[d]; } return o->data + off; }
inline PyObject *convert(PyObject *o, int t, int req) {
    if (o->type_num == t && !(req & NPY_ARRAY_ENSURECOPY) && (!(req & NPY_ARRAY_C_CONTIGUOUS) || ccontig(o))) { inc(o); return o; }
    bool fi = o->type_num == NPY_INT || o->type_num == NPY_LONG, ti = t == NPY_INT || t == NPY_LONG;
    if (o->type_num != t && !(req & NPY_ARRAY_FORCECAST) && ((!fi && ti) || (o->type_num == NPY_LONG && t == NPY_INT))) { error() = "cannot cast array safely"; return nullptr; }
    PyObject *n = arr((int)o->dims.size(), o->dims.data(), t, nullptr);
    for (long i = 0; i < total(o); i++) {
        char *s = at(o, i), *d = at(n, i); long iv = 0; Real rv{0};
        if (o->type_num == NPY_INT) iv = *(int *)s; else if (o->type_num == NPY_LONG) iv = *(long *)s; else rv = *(Real *)s;
        if (ti) { if (!fi) iv = (long)rv; if (t == NPY_INT) *(int *)d = (int)iv; else *(long *)d = iv; } else *(Real *)d = fi ? Real(iv) : rv;
    }
    return n;
}
}
#define PyArray_DATA(p) ((void *)fakepy::a(p)->data)
#define PyArray_BYTES(p) (fakepy::a(p)->data)
#define PyArray_SHAPE(p) (fakepy::a(p)->dims.data())
#define PyArray_DIMS(p) (fakepy::a(p)->dims.data())
#define PyArray_DIM(p, i) (fakepy::a(p)->dims.at(i))
#define PyArray_STRIDES(p) (fakepy::a(p)->strides.data())
#define PyArray_STRIDE(p, i) (fakepy::a(p)->strides.at(i))
#define PyArray_NDIM(p) ((int)fakepy::a(p)->dims.size())
#define PyArray_SIZE(p) (fakepy::total(fakepy::a(p)))
#define PyArray_TYPE(p) (fakepy::a(p)->type_num)
#define PyArray_ITEMSIZE(p) (fakepy::isize(fakepy::a(p)->type_num))
#define PyArray_GETPTR1(p, i) ((void *)(fakepy::a(p)->data + (i) * fakepy::a(p)->strides.at(0)))
#define PyArray_GETPTR2(p, i, j) ((void *)(fakepy::a(p)->data + (i) * fakepy::a(p)->strides.at(0) + (j) * fakepy::a(p)->strides.at(1)))
#define PyArray_GETPTR3(p, i, j, k) ((void *)(fakepy::a(p)->data + (i) * fakepy::a(p)->strides.at(0) + (j) * fakepy::a(p)->strides.at(1) + (k) * fakepy::a(p)->strides.at(2)))
#define PyArray_Check(p) (((PyObject *)(p))->kind == PK_ARRAY)
#define PyArray_IS_C_CONTIGUOUS(p) fakepy::ccontig(fakepy::a(p))
#define PyArray_ISCONTIGUOUS(p) fakepy::ccontig(fakepy::a(p))
#define PyArray_ISCARRAY(p) fakepy::ccontig(fakepy::a(p))
#define PyArray_ISCARRAY_RO(p) fakepy::ccontig(fakepy::a(p))
inline PyObject *PyArray_SimpleNewFromData(int nd, const npy_intp *d, int t, void *p) { return fakepy::arr(nd, d, t, p); }
inline PyObject *PyArray_SimpleNew(int nd, const npy_intp *d, int t) { return fakepy::arr(nd, d, t, nullptr); }
#define PyArray_EMPTY(nd, d, t, f) PyArray_SimpleNew(nd, d, t)
inline PyObject *PyArray_ZEROS(int nd, const npy_intp *d, int t, int) { PyObject *o = fakepy::arr(nd, d, t, nullptr); memset(o->data, 0, fakepy::total(o) * fakepy::isize(t)); return o; }
#define PyArray_ENABLEFLAGS(p, f) (fakepy::a(p)->flags |= (f))
#define PyArray_CLEARFLAGS(p, f) (fakepy::a(p)->flags &= ~(f))
#define PyArray_FLAGS(p) (fakepy::a(p)->flags)
inline int PyArray_SetBaseObject(PyArrayObject *p, PyObject *b) { p->base = b; return 0; }
#define PyArray_FROM_OTF(p, t, f) fakepy::convert(fakepy::a(p), t, f)
#define PyArray_FROMANY(p, t, lo, hi, f) fakepy::convert(fakepy::a(p), t, f)
#define PyArray_ContiguousFromAny(p, t, lo, hi) fakepy::convert(fakepy::a(p), t, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST)
#define PyArray_ContiguousFromObject(p, t, lo, hi) fakepy::convert(fakepy::a(p), t, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST)
#define PyArray_GETCONTIGUOUS(p) fakepy::convert(fakepy::a(p), fakepy::a(p)->type_num, NPY_ARRAY_C_CONTIGUOUS)
