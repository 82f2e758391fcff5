/* Calls a Python callable while chosen allocations of the interpreter fail. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
static PyMemAllocatorEx orig[3];
static long counter, from_, to_, failed;
static int fail(void) { long i = counter++; int f = i>=from_ && (to_<0 || i<to_); failed += f; return f; }
static void *hm(void *c, size_t n) { return fail() ? NULL : ((PyMemAllocatorEx*)c)->malloc(((PyMemAllocatorEx*)c)->ctx, n); }
static void *hc(void *c, size_t k, size_t n) { return fail() ? NULL : ((PyMemAllocatorEx*)c)->calloc(((PyMemAllocatorEx*)c)->ctx, k, n); }
static void *hr(void *c, void *p, size_t n) { return fail() ? NULL : ((PyMemAllocatorEx*)c)->realloc(((PyMemAllocatorEx*)c)->ctx, p, n); }
static void hf(void *c, void *p) { ((PyMemAllocatorEx*)c)->free(((PyMemAllocatorEx*)c)->ctx, p); }
static const PyMemAllocatorDomain dom[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
/* call(from, to, callable, args, kws) -> (result or NotImplemented, exception or None, allocations, failed) */
static PyObject *call(PyObject *self, PyObject *args)
{
    long f, t; PyObject *fn, *a, *k = NULL, *r, *e, *ret;
    if(!PyArg_ParseTuple(args, "llOO!|O!", &f, &t, &fn, &PyTuple_Type, &a, &PyDict_Type, &k)) return NULL;
    int i;
    PyGC_Collect(); /* also empties the free lists */
    for(i=0; i<3; i++) PyMem_GetAllocator(dom[i], &orig[i]);
    counter = failed = 0; from_ = f; to_ = t;
    for(i=0; i<3; i++) { PyMemAllocatorEx h = {&orig[i], hm, hc, hr, hf}; PyMem_SetAllocator(dom[i], &h); }
    r = PyObject_Call(fn, a, k);
    for(i=0; i<3; i++) PyMem_SetAllocator(dom[i], &orig[i]);
    e = PyErr_GetRaisedException();
    ret = Py_BuildValue("OOlli", r ? r : Py_NotImplemented, e ? e : Py_None, counter, failed, (r!=NULL)==(e==NULL));
    Py_XDECREF(r); Py_XDECREF(e);
    return ret;
}
static PyMethodDef meth[] = {{"call", call, METH_VARARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "vpoom", NULL, -1, meth};
PyMODINIT_FUNC PyInit_vpoom(void) { return PyModule_Create(&mod); }
