// NEP 49: numpy data allocations go through the simulator (see simrt.cpp).
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include "numpy/arrayobject.h"
#include <dlfcn.h>

static PyDataMem_Handler handler = {"verif_sim", 1, {NULL, NULL, NULL, NULL, NULL}};

static PyObject *install(PyObject *, PyObject *) {
  handler.allocator.malloc = (void *(*)(void *, size_t))dlsym(RTLD_DEFAULT, "sim_np_malloc");
  handler.allocator.calloc = (void *(*)(void *, size_t, size_t))dlsym(RTLD_DEFAULT, "sim_np_calloc");
  handler.allocator.realloc = (void *(*)(void *, void *, size_t))dlsym(RTLD_DEFAULT, "sim_np_realloc");
  handler.allocator.free = (void (*)(void *, void *, size_t))dlsym(RTLD_DEFAULT, "sim_np_free");
  if (!handler.allocator.malloc) { PyErr_SetString(PyExc_RuntimeError, "the simulator is not loaded"); return NULL; }
  PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
  if (!cap) return NULL;
  PyObject *old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  return old;
}
static PyMethodDef methods[] = {{"install", install, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "npmem", "", -1, methods};
PyMODINIT_FUNC PyInit_npmem() { import_array(); return PyModule_Create(&mod); }
