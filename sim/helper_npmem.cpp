// numpy's data allocations behind the same fault decisions as the module's own.
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL npmem_array_api
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include "sim.h"

static void * m_malloc(void *, size_t n) { return malloc(n ? n : 1); }
static void * m_calloc(void *, size_t a, size_t b) { return calloc(a ? a : 1, b ? b : 1); }
static void * m_realloc(void *, void * p, size_t n) { return realloc(p, n ? n : 1); }
static void m_free(void *, void * p, size_t) { free(p); }
static PyDataMem_Handler handler = { "sim_allocator", 1, { nullptr, m_malloc, m_calloc, m_realloc, m_free } };

static int init() { import_array1(-1); return 0; }

extern "C"
{
    // from now on in this thread (called with the interpreter lock)
    int np_install()
    {
        if (init()) return -1;
        PyObject * c = PyCapsule_New(&handler, "mem_handler", nullptr);
        if (!c) return -1;
        PyObject * old = PyDataMem_SetHandler(c);
        Py_DECREF(c);
        if (!old) return -1;
        Py_DECREF(old);
        return 0;
    }
}
