// Self-test of the native analyses: every function named bad_* contains exactly the defect its
// EXPECT line names, every ok_* function none.  Compiled and analysed on each run, never executed.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>
#include <stdio.h>
#include <fftw3.h>
#include <complex>
#define NO_IMPORT_ARRAY
#define PY_ARRAY_UNIQUE_SYMBOL fixture_ARRAY_API
#include "numpy/arrayobject.h"

// EXPECT bad_leak leak
PyObject *bad_leak(PyObject *self, PyObject *args) {
    PyObject *a, *m;
    if(!PyArg_ParseTuple(args, "O", &a)) return NULL;
    m = PyObject_GetAttrString(a, "x");
    if( m == NULL ) return NULL;
    PyObject *n = PyObject_GetAttrString(a, "y");
    if( n == NULL ) return NULL;
    Py_DECREF(n);
    return m;
}
// EXPECT bad_double over-release
PyObject *bad_double(PyObject *self, PyObject *args) {
    PyObject *m = PyObject_GetAttrString(args, "x");
    if( m == NULL ) return NULL;
    Py_DECREF(m);
    Py_DECREF(m);
    Py_RETURN_NONE;
}
// EXPECT bad_after use-released
PyObject *bad_after(PyObject *self, PyObject *args) {
    PyObject *m = PyObject_GetAttrString(args, "x");
    if( m == NULL ) return NULL;
    Py_DECREF(m);
    return PyObject_GetAttrString(m, "x");
}
// EXPECT bad_unchecked unchecked
PyObject *bad_unchecked(PyObject *self, PyObject *args) {
    PyObject *m = PyObject_GetAttrString(args, "x");
    long n = PyLong_AsLong(m);
    Py_XDECREF(m);
    return PyLong_FromLong(n);
}
// EXPECT bad_family mismatch
PyObject *bad_family(PyObject *self, PyObject *args) {
    float *p = (float *) malloc(400);
    fftwf_free(p);
    Py_RETURN_NONE;
}
// EXPECT bad_gil gil-api
PyObject *bad_gil(PyObject *self, PyObject *args) {
    PyObject *m;
    Py_BEGIN_ALLOW_THREADS
    m = PyLong_FromLong(3);
    Py_END_ALLOW_THREADS
    return m;
}
// EXPECT bad_balance gil-balance
PyObject *bad_balance(PyObject *self, PyObject *args) {
    PyThreadState *_save = PyEval_SaveThread();
    if( args == self ) return NULL;
    PyEval_RestoreThread(_save);
    return NULL;
}
// EXPECT bad_plan planner-nogil
PyObject *bad_plan(PyObject *self, PyObject *args) {
    fftwf_complex *b = (fftwf_complex *) fftwf_malloc(sizeof(fftwf_complex)*64);
    fftwf_plan p;
    Py_BEGIN_ALLOW_THREADS
    p = fftwf_plan_dft_1d(64, b, b, FFTW_FORWARD, FFTW_ESTIMATE);
    Py_END_ALLOW_THREADS
    fftwf_execute(p);
    fftwf_destroy_plan(p);
    fftwf_free(b);
    Py_RETURN_NONE;
}
// EXPECT bad_silent null-no-error
PyObject *bad_silent(PyObject *self, PyObject *args) {
    if( args == self ) return NULL;
    Py_RETURN_NONE;
}
// EXPECT bad_swallow error-swallowed
PyObject *bad_swallow(PyObject *self, PyObject *args) {
    if( args == self ) PyErr_Format(PyExc_RuntimeError, "same");
    Py_RETURN_NONE;
}
// EXPECT bad_race race
PyObject *bad_race(PyObject *self, PyObject *args) {
    float *p = (float *) malloc(400), tmp;
    long i;
    if( p == NULL ) { PyErr_NoMemory(); return NULL; }
    Py_BEGIN_ALLOW_THREADS
    #pragma omp parallel for default(shared) private(i)
    for(i=0; i<100; i++) { tmp = i*2; p[i] = tmp*tmp; }
    Py_END_ALLOW_THREADS
    free(p);
    Py_RETURN_NONE;
}
// EXPECT bad_overlap race
PyObject *bad_overlap(PyObject *self, PyObject *args) {
    float *p = (float *) malloc(800);
    long i;
    if( p == NULL ) { PyErr_NoMemory(); return NULL; }
    Py_BEGIN_ALLOW_THREADS
    #pragma omp parallel for default(shared) private(i)
    for(i=0; i<100; i++) { p[i/2] += i; }
    Py_END_ALLOW_THREADS
    free(p);
    Py_RETURN_NONE;
}
// EXPECT bad_once history
PyObject *bad_once(PyObject *self, PyObject *args) {
    long n = PyLong_AsLong(args);
    static double norm = 1.0/n;
    return PyFloat_FromDouble(norm);
}
static long last_n = 0;
// EXPECT bad_keep history
PyObject *bad_keep(PyObject *self, PyObject *args) {
    long n = PyLong_AsLong(args), r = last_n;
    last_n = n;
    return PyLong_FromLong(r);
}
PyObject *ok_all(PyObject *self, PyObject *args) {
    PyObject *a, *m, *n;
    float *p;
    long i;
    if(!PyArg_ParseTuple(args, "O", &a)) return NULL;
    m = PyObject_GetAttrString(a, "x");
    if( m == NULL ) return NULL;
    n = PyObject_GetAttrString(a, "y");
    if( n == NULL ) { Py_DECREF(m); return NULL; }
    p = (float *) malloc(400);
    if( p == NULL ) { Py_DECREF(m); Py_DECREF(n); return PyErr_NoMemory(); }
    Py_BEGIN_ALLOW_THREADS
    #pragma omp parallel for default(shared) private(i)
    for(i=0; i<100; i++) { float tmp = i*2; p[i] = tmp*tmp; }
    Py_END_ALLOW_THREADS
    free(p);
    Py_DECREF(n);
    return m;
}
