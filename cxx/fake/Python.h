// A stand-in for the parts of the Python C API an extension of this kind uses.  Objects are reference
// counted; every object of a path is known to the harness, so leaks and over-releases can be told.
#pragma once
#include "sym.h"
#include <cstdarg>
typedef ssize_t Py_ssize_t;
struct _typeobject { const char *name; };
typedef _typeobject PyTypeObject;
enum PyKind { PK_NONE, PK_BOOL, PK_LONG, PK_FLOAT, PK_LIST, PK_TUPLE, PK_ARRAY, PK_STR, PK_DICT, PK_EXC };
struct PyObject {
    long ob_refcnt = 1; PyKind kind = PK_NONE; long l = 0; Real r{0}; std::vector<PyObject *> items; bool dead = false, eternal = false;
    // arrays
    int type_num = 0; std::vector<long> dims, strides; char *data = nullptr; int flags = 0; PyObject *base = nullptr;
};
typedef PyObject PyArrayObject;
namespace fakepy {
inline std::vector<PyObject *> &all() { static std::vector<PyObject *> v; return v; }
inline std::string &error() { static std::string s; return s; }
inline PyObject *mk(PyKind k) { PyObject *o = new PyObject; o->kind = k; all().push_back(o); return o; }
inline PyObject *eternal(PyKind k, long l) { PyObject *o = new PyObject; o->kind = k; o->l = l; o->eternal = true; return o; }
[[noreturn]] inline void bad(const std::string &s) { throw CodeEvent{"python: " + s}; }
inline void live(const PyObject *o) { if (!o) bad("NULL object used"); if (o->dead) bad("object used after its release"); }
inline void dec(PyObject *o);
inline void destroy(PyObject *o) {
    o->dead = true;
    for (PyObject *i : o->items) if (i) dec(i);
    if (o->kind == PK_ARRAY) { if (o->flags & 4) free(o->data); if (o->base) dec(o->base); }
}
inline void dec(PyObject *o) { live(o); if (o->eternal) return; if (--o->ob_refcnt == 0) destroy(o); }
inline void inc(PyObject *o) { live(o); if (!o->eternal) o->ob_refcnt++; }
inline void reset() { for (PyObject *o : all()) delete o; all().clear(); error().clear(); }
}
inline PyObject *fakepy_true() { static PyObject *o = fakepy::eternal(PK_BOOL, 1); return o; }
inline PyObject *fakepy_false() { static PyObject *o = fakepy::eternal(PK_BOOL, 0); return o; }
inline PyObject *fakepy_none() { static PyObject *o = fakepy::eternal(PK_NONE, 0); return o; }
#define Py_True fakepy_true()
#define Py_False fakepy_false()
#define Py_None fakepy_none()
#define FAKEPY_EXC(N) inline PyObject *fakepy_##N() { static PyObject *o = fakepy::eternal(PK_EXC, 0); return o; }
FAKEPY_EXC(ValueError) FAKEPY_EXC(TypeError) FAKEPY_EXC(RuntimeError) FAKEPY_EXC(IndexError) FAKEPY_EXC(MemoryError) FAKEPY_EXC(Exception) FAKEPY_EXC(OverflowError)
#define PyExc_ValueError fakepy_ValueError()
#define PyExc_TypeError fakepy_TypeError()
#define PyExc_RuntimeError fakepy_RuntimeError()
#define PyExc_IndexError fakepy_IndexError()
#define PyExc_MemoryError fakepy_MemoryError()
#define PyExc_OverflowError fakepy_OverflowError()
#define PyExc_Exception fakepy_Exception()
#define Py_INCREF(o) fakepy::inc((PyObject *)(o))
#define Py_DECREF(o) fakepy::dec((PyObject *)(o))
#define Py_XINCREF(o) do { PyObject *o_ = (PyObject *)(o); if (o_) fakepy::inc(o_); } while (0)
#define Py_XDECREF(o) do { PyObject *o_ = (PyObject *)(o); if (o_) fakepy::dec(o_); } while (0)
#define Py_CLEAR(o) do { PyObject *o_ = (PyObject *)(o); if (o_) { (o) = nullptr; fakepy::dec(o_); } } while (0)
#define Py_REFCNT(o) (((PyObject *)(o))->ob_refcnt)
#define Py_RETURN_NONE return Py_None
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
inline void PyErr_SetString(PyObject *, const char *m) { fakepy::error() = m && *m ? m : "error"; }
inline PyObject *PyErr_Format(PyObject *, const char *m, ...) { fakepy::error() = m; return nullptr; }
inline PyObject *PyErr_NoMemory() { fakepy::error() = "memory"; return nullptr; }
inline PyObject *PyErr_Occurred() { return fakepy::error().empty() ? nullptr : Py_None; }
inline void PyErr_Clear() { fakepy::error().clear(); }
inline PyObject *PyLong_FromLong(long v) { PyObject *o = fakepy::mk(PK_LONG); o->l = v; return o; }
#define PyLong_FromLongLong PyLong_FromLong
#define PyLong_FromSsize_t PyLong_FromLong
#define PyLong_FromSize_t PyLong_FromLong
inline long PyLong_AsLong(PyObject *o) { fakepy::live(o); if (o->kind != PK_LONG && o->kind != PK_BOOL) { fakepy::error() = "an integer is required"; return -1; } return o->l; }
#define PyLong_AsLongLong PyLong_AsLong
#define PyLong_AsSsize_t PyLong_AsLong
inline int _PyLong_AsInt(PyObject *o) { return (int)PyLong_AsLong(o); }
inline PyObject *PyFloat_FromDouble(Real v) { PyObject *o = fakepy::mk(PK_FLOAT); o->r = v; return o; }
inline Real PyFloat_AsDouble(PyObject *o) { fakepy::live(o); if (o->kind == PK_FLOAT) return o->r; if (o->kind == PK_LONG || o->kind == PK_BOOL) return Real(o->l); fakepy::error() = "must be real number"; return Real(-1); }
#define PyFloat_AS_DOUBLE PyFloat_AsDouble
inline PyObject *PyBool_FromLong(long v) { return v ? Py_True : Py_False; }
inline int PyObject_IsTrue(PyObject *o) {
    fakepy::live(o);
    switch (o->kind) { case PK_BOOL: case PK_LONG: return o->l != 0; case PK_FLOAT: return !(o->r == Real(0)); case PK_NONE: return 0; case PK_LIST: case PK_TUPLE: return !o->items.empty(); default: return 1; }
}
inline int PyObject_Not(PyObject *o) { return !PyObject_IsTrue(o); }
inline int PyBool_Check(PyObject *o) { return o->kind == PK_BOOL; } inline int PyLong_Check(PyObject *o) { return o->kind == PK_LONG || o->kind == PK_BOOL; }
inline int PyFloat_Check(PyObject *o) { return o->kind == PK_FLOAT; } inline int PyList_Check(PyObject *o) { return o->kind == PK_LIST; } inline int PyTuple_Check(PyObject *o) { return o->kind == PK_TUPLE; }
inline int PySequence_Check(PyObject *o) { return o->kind == PK_LIST || o->kind == PK_TUPLE; }
inline PyObject *fakepy_item(PyObject *o, Py_ssize_t i) { fakepy::live(o); if (i < 0 || i >= (Py_ssize_t)o->items.size()) { fakepy::error() = "index out of range"; return nullptr; } return o->items[i]; }
inline PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { if (o->kind != PK_LIST) { fakepy::error() = "not a list"; return nullptr; } return fakepy_item(o, i); }
inline PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { if (o->kind != PK_TUPLE) { fakepy::error() = "not a tuple"; return nullptr; } return fakepy_item(o, i); }
inline PyObject *PySequence_GetItem(PyObject *o, Py_ssize_t i) { PyObject *r = fakepy_item(o, i); if (r) Py_INCREF(r); return r; }
inline PyObject *PySequence_Fast(PyObject *o, const char *) { Py_INCREF(o); return o; }
#define PySequence_Fast_GET_ITEM(o, i) fakepy_item((PyObject *)(o), i)
#define PySequence_Fast_GET_SIZE(o) ((Py_ssize_t)((PyObject *)(o))->items.size())
#define PyList_GET_ITEM(o, i) fakepy_item((PyObject *)(o), i)
#define PyTuple_GET_ITEM(o, i) fakepy_item((PyObject *)(o), i)
inline Py_ssize_t PyList_Size(PyObject *o) { return (Py_ssize_t)o->items.size(); }
#define PyList_GET_SIZE PyList_Size
#define PyTuple_Size PyList_Size
#define PyTuple_GET_SIZE PyList_Size
#define PySequence_Size PyList_Size
#define PySequence_Length PyList_Size
#define PyObject_Length PyList_Size
inline PyObject *fakepy_seq(PyKind k, Py_ssize_t n) { PyObject *o = fakepy::mk(k); o->items.assign(n, nullptr); return o; }
inline PyObject *PyTuple_New(Py_ssize_t n) { return fakepy_seq(PK_TUPLE, n); }
inline PyObject *PyList_New(Py_ssize_t n) { return fakepy_seq(PK_LIST, n); }
inline int fakepy_set(PyObject *o, Py_ssize_t i, PyObject *v) { fakepy::live(o); if (i < 0 || i >= (Py_ssize_t)o->items.size()) { Py_XDECREF(v); fakepy::error() = "assignment index out of range"; return -1; } Py_XDECREF(o->items[i]); o->items[i] = v; return 0; }
#define PyTuple_SetItem fakepy_set
#define PyTuple_SET_ITEM fakepy_set
#define PyList_SetItem fakepy_set
#define PyList_SET_ITEM fakepy_set
inline PyObject *PyTuple_Pack(Py_ssize_t n, ...) { va_list a; va_start(a, n); PyObject *o = PyTuple_New(n); for (Py_ssize_t i = 0; i < n; i++) { PyObject *v = va_arg(a, PyObject *); Py_INCREF(v); o->items[i] = v; } va_end(a); return o; }
inline PyObject *Py_BuildValue(const char *f, ...) {
    va_list a; va_start(a, f); std::vector<PyObject *> v; bool par = *f == '(';
    for (const char *p = f; *p; p++) switch (*p) {
        case 'i': v.push_back(PyLong_FromLong(va_arg(a, int))); break; case 'l': case 'n': case 'L': v.push_back(PyLong_FromLong(va_arg(a, long))); break;
        case 'O': { PyObject *o = va_arg(a, PyObject *); Py_INCREF(o); v.push_back(o); break; } case 'N': v.push_back(va_arg(a, PyObject *)); break;
        case '(': case ')': case ',': case ' ': break; default: fakepy::bad("Py_BuildValue format");
    }
    va_end(a);
    if (v.size() == 1 && !par) return v[0];
    PyObject *o = PyTuple_New((Py_ssize_t)v.size()); o->items = v; return o;
}
inline void *PyMem_Malloc(size_t n) { return malloc(n ? n : 1); } inline void PyMem_Free(void *p) { free(p); }
inline void *PyDataMem_NEW(size_t n) { return malloc(n ? n : 1); } inline void PyDataMem_FREE(void *p) { free(p); }
