/* Routes numpy's array memory through the simulated allocator in shim.c. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>

extern void *sim_np_malloc(size_t), *sim_np_calloc(size_t, size_t), *sim_np_realloc(void *, size_t);
extern void sim_np_free(void *);

static void *m(void *c, size_t n) { return sim_np_malloc(n); }
static void *ca(void *c, size_t a, size_t b) { return sim_np_calloc(a, b); }
static void *re(void *c, void *p, size_t n) { return sim_np_realloc(p, n); }
static void fr(void *c, void *p, size_t n) { sim_np_free(p); }
static PyDataMem_Handler h = { "sim", 1, { NULL, m, ca, re, fr } };

static PyObject *install(PyObject *s, PyObject *a)
{
    PyObject *cap = PyCapsule_New(&h, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyMethodDef meths[] = { { "install", install, METH_NOARGS, "" }, { 0 } };
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT, "npsim", 0, -1, meths };
PyMODINIT_FUNC PyInit_npsim(void) { import_array(); return PyModule_Create(&mod); }
