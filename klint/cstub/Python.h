/* Reduced declarations of the Python C API, for parsing only: macros become functions, so that their calls stay visible. */
#ifndef KLINT_PYTHON_H
#define KLINT_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <assert.h>
typedef long Py_ssize_t;
typedef long Py_hash_t;
typedef struct _typeobject PyTypeObject;
typedef struct _object { Py_ssize_t ob_refcnt; PyTypeObject *ob_type; } PyObject;
typedef struct { PyObject ob_base; Py_ssize_t ob_size; } PyVarObject;
#define PyObject_HEAD PyObject ob_base;
#define PyObject_VAR_HEAD PyVarObject ob_base;
#define PyObject_HEAD_INIT(t) { 1, t },
#define PyVarObject_HEAD_INIT(t, n) { { 1, t }, n },
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*getter)(PyObject *, void *);
typedef int (*setter)(PyObject *, PyObject *, void *);
typedef void (*destructor)(PyObject *);
typedef void (*freefunc)(void *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*newfunc)(PyTypeObject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(PyTypeObject *, Py_ssize_t);
typedef PyObject *(*reprfunc)(PyObject *);
typedef int (*visitproc)(PyObject *, void *);
typedef int (*traverseproc)(PyObject *, visitproc, void *);
typedef int (*inquiry)(PyObject *);
typedef PyObject *(*getattrofunc)(PyObject *, PyObject *);
typedef int (*setattrofunc)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*ternaryfunc)(PyObject *, PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyGetSetDef { const char *name; getter get; setter set; const char *doc; void *closure; } PyGetSetDef;
typedef struct PyMemberDef { const char *name; int type; Py_ssize_t offset; int flags; const char *doc; } PyMemberDef;
typedef struct PyModuleDef_Base { PyObject ob_base; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT { { 1, NULL } }
typedef struct PyModuleDef_Slot { int slot; void *value; } PyModuleDef_Slot;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods;
    PyModuleDef_Slot *m_slots; traverseproc m_traverse; inquiry m_clear; freefunc m_free; } PyModuleDef;
struct _typeobject {
    PyVarObject ob_base; const char *tp_name; Py_ssize_t tp_basicsize, tp_itemsize; destructor tp_dealloc; reprfunc tp_repr; reprfunc tp_str;
    void *tp_as_number; void *tp_as_sequence; void *tp_as_mapping; ternaryfunc tp_call; getattrofunc tp_getattro; setattrofunc tp_setattro;
    unsigned long tp_flags; const char *tp_doc; traverseproc tp_traverse; inquiry tp_clear; PyMethodDef *tp_methods; PyMemberDef *tp_members;
    PyGetSetDef *tp_getset; PyTypeObject *tp_base; PyObject *tp_dict; initproc tp_init; allocfunc tp_alloc; newfunc tp_new; freefunc tp_free;
    destructor tp_finalize;
};
#define Py_TPFLAGS_DEFAULT 1UL
#define Py_TPFLAGS_BASETYPE 2UL
#define Py_TPFLAGS_HAVE_GC 4UL
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define METH_CLASS 16
#define METH_STATIC 32
#define METH_FASTCALL 128
#define PyMODINIT_FUNC PyObject *
extern PyObject klint_None, klint_True, klint_False, klint_NotImplemented;
#define Py_None (&klint_None)
#define Py_True (&klint_True)
#define Py_False (&klint_False)
#define Py_NotImplemented (&klint_NotImplemented)
#define Py_RETURN_NONE return klint_return_None()
#define Py_RETURN_TRUE return klint_return_True()
#define Py_RETURN_FALSE return klint_return_False()
#define Py_RETURN_NOTIMPLEMENTED return klint_return_None()
PyObject *klint_return_None(void);
PyObject *klint_return_True(void);
PyObject *klint_return_False(void);
/* reference counts: any pointer type */
void klint_incref(const void *); void klint_xincref(const void *); void klint_decref(const void *); void klint_xdecref(const void *);
void klint_clear(void *);
void *klint_newref(const void *);
#define Py_INCREF(o) klint_incref(o)
#define Py_XINCREF(o) klint_xincref(o)
#define Py_DECREF(o) klint_decref(o)
#define Py_XDECREF(o) klint_xdecref(o)
#define Py_CLEAR(o) klint_clear(&(o))
#define Py_NewRef(o) ((PyObject *) klint_newref(o))
#define Py_XNewRef(o) ((PyObject *) klint_newref(o))
#define Py_SETREF(a, b) do { klint_decref(a); (a) = (b); } while (0)
#define Py_XSETREF(a, b) do { klint_xdecref(a); (a) = (b); } while (0)
PyTypeObject *klint_type(const void *);
#define Py_TYPE(o) klint_type(o)
#define Py_REFCNT(o) (((PyObject *) (o))->ob_refcnt)
#define Py_UNUSED(x) x
#define Py_ARRAY_LENGTH(a) (sizeof(a) / sizeof((a)[0]))
#define Py_VISIT(x) do { if (x) { int v = visit((PyObject *) (x), arg); if (v) return v; } } while (0)
extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_OverflowError, *PyExc_AttributeError,
    *PyExc_Exception, *PyExc_SystemError, *PyExc_ZeroDivisionError, *PyExc_KeyError, *PyExc_NotImplementedError;
extern PyTypeObject PyFloat_Type, PyLong_Type, PyBaseObject_Type, PyUnicode_Type;
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
int PyErr_ExceptionMatches(PyObject *);
void PyErr_SetNone(PyObject *);
void PyErr_Print(void);
int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t);
int PyErr_BadArgument(void);
int PyArg_Parse(PyObject *, const char *, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *Py_BuildValue(const char *, ...);
double PyFloat_AsDouble(PyObject *);
double PyFloat_AS_DOUBLE(PyObject *);
PyObject *PyFloat_FromDouble(double);
int PyFloat_Check(const void *);
int PyFloat_CheckExact(const void *);
int PyNumber_Check(const void *);
int PyLong_Check(const void *);
int PyLong_CheckExact(const void *);
int PyBool_Check(const void *);
int PyUnicode_Check(const void *);
int PyTuple_Check(const void *);
int PyCallable_Check(PyObject *);
PyObject *PyNumber_Float(PyObject *);
PyObject *PyNumber_Long(PyObject *);
PyObject *PyNumber_Index(PyObject *);
Py_ssize_t PyNumber_AsSsize_t(PyObject *, PyObject *);
long PyLong_AsLong(PyObject *);
long long PyLong_AsLongLong(PyObject *);
unsigned long PyLong_AsUnsignedLong(PyObject *);
size_t PyLong_AsSize_t(PyObject *);
Py_ssize_t PyLong_AsSsize_t(PyObject *);
double PyLong_AsDouble(PyObject *);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromLongLong(long long);
PyObject *PyLong_FromUnsignedLong(unsigned long);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyLong_FromSize_t(size_t);
PyObject *PyLong_FromDouble(double);
PyObject *PyBool_FromLong(long);
PyObject *PyUnicode_FromString(const char *);
PyObject *PyUnicode_FromFormat(const char *, ...);
int PyObject_IsTrue(PyObject *);
int PyObject_TypeCheck(const void *, PyTypeObject *);
int PyObject_IsInstance(PyObject *, PyObject *);
PyObject *PyObject_GetAttrString(PyObject *, const char *);
PyObject *PyObject_Call(PyObject *, PyObject *, PyObject *);
PyObject *PyObject_CallObject(PyObject *, PyObject *);
Py_ssize_t PyTuple_Size(PyObject *);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
PyObject *PyTuple_New(Py_ssize_t);
int PyType_Ready(PyTypeObject *);
PyObject *PyType_GenericAlloc(PyTypeObject *, Py_ssize_t);
PyObject *PyType_GenericNew(PyTypeObject *, PyObject *, PyObject *);
PyObject *PyModule_Create(PyModuleDef *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
int PyModule_AddObjectRef(PyObject *, const char *, PyObject *);
int PyModule_AddType(PyObject *, PyTypeObject *);
int PyModule_AddIntConstant(PyObject *, const char *, long);
int PyModule_AddStringConstant(PyObject *, const char *, const char *);
PyObject *PyObject_GetAttr(PyObject *, PyObject *);
void PyObject_Del(void *);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void *PyMem_Realloc(void *, size_t); void PyMem_Free(void *);
void *PyMem_RawMalloc(size_t); void *PyMem_RawCalloc(size_t, size_t); void PyMem_RawFree(void *);
void *PyObject_Malloc(size_t); void PyObject_Free(void *);
#define PyMem_New(t, n) ((t *) PyMem_Malloc((n) * sizeof(t)))
#define PyMem_MALLOC PyMem_Malloc
#define PyMem_FREE PyMem_Free
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#define PyDoc_STRVAR(n, s) static const char n[] = s
#define PyDoc_STR(s) s
#define Py_MIN(a, b) ((a) < (b) ? (a) : (b))
#define Py_MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
