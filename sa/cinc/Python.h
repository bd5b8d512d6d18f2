/* declarations only: a front end's view of the C API, one function per
   macro so that the syntax tree names the operation */
#ifndef SA_PYTHON_H
#define SA_PYTHON_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <stdint.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
typedef ptrdiff_t Py_ssize_t;
typedef long Py_hash_t;
typedef struct _object { Py_ssize_t ob_refcnt; struct _typeobject *ob_type; } PyObject;
typedef struct _typeobject { PyObject ob_base; const char *tp_name; } PyTypeObject;
typedef struct _ts PyThreadState;
typedef int PyGILState_STATE;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
typedef int (*visitproc)(PyObject *, void *);
typedef int (*traverseproc)(PyObject *, visitproc, void *);
typedef int (*inquiry)(PyObject *);
typedef void (*freefunc)(void *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef_Base { PyObject ob_base; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; traverseproc m_traverse; inquiry m_clear; freefunc m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT { { 1, 0 } }
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject *
#define PyAPI_FUNC(t) extern t
#define Py_UNUSED(x) x
extern PyObject _Py_NoneStruct, _Py_TrueStruct, _Py_FalseStruct;
#define Py_None (&_Py_NoneStruct)
#define Py_True (&_Py_TrueStruct)
#define Py_False (&_Py_FalseStruct)
void Py_INCREF(void *); void Py_XINCREF(void *); void Py_DECREF(void *); void Py_XDECREF(void *);
PyObject *Py_NewRef(void *); PyObject *Py_XNewRef(void *);
void Py_CLEAR_(void *); void Py_SETREF_(void *, void *);
#define Py_CLEAR(x) Py_CLEAR_(&(x))
#define Py_VISIT(x) do { if (x) { int vret = visit((PyObject *)(x), arg); if (vret) return vret; } } while (0)
#define Py_RETURN_NONE do { Py_INCREF(Py_None); return Py_None; } while (0)
#define Py_RETURN_TRUE do { Py_INCREF(Py_True); return Py_True; } while (0)
#define Py_RETURN_FALSE do { Py_INCREF(Py_False); return Py_False; } while (0)
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_RuntimeError, *PyExc_IndexError, *PyExc_KeyError,
    *PyExc_OverflowError, *PyExc_ZeroDivisionError, *PyExc_ArithmeticError, *PyExc_Exception, *PyExc_AttributeError, *PyExc_SystemError,
    *PyExc_NotImplementedError, *PyExc_OSError, *PyExc_IOError, *PyExc_FloatingPointError;
PyObject *PyErr_Format(PyObject *, const char *, ...);
void PyErr_SetString(PyObject *, const char *); void PyErr_SetNone(PyObject *); void PyErr_SetObject(PyObject *, PyObject *);
PyObject *PyErr_NoMemory(void); PyObject *PyErr_Occurred(void); void PyErr_Clear(void); void PyErr_BadArgument(void);
int PyErr_ExceptionMatches(PyObject *); PyObject *PyErr_SetFromErrno(PyObject *); int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t); void PyErr_Print(void);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...); int PyArg_Parse(PyObject *, const char *, ...); int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *Py_BuildValue(const char *, ...);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void *PyMem_Realloc(void *, size_t); void PyMem_Free(void *);
void *PyMem_RawMalloc(size_t); void PyMem_RawFree(void *); void *PyObject_Malloc(size_t); void PyObject_Free(void *);
PyThreadState *PyEval_SaveThread(void); void PyEval_RestoreThread(PyThreadState *);
PyGILState_STATE PyGILState_Ensure(void); void PyGILState_Release(PyGILState_STATE);
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save; _save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
int PyOS_snprintf(char *, size_t, const char *, ...);
int PyObject_IsTrue(PyObject *); int PyObject_Not(PyObject *); PyObject *PyObject_GetAttrString(PyObject *, const char *);
int PyObject_SetAttrString(PyObject *, const char *, PyObject *); PyObject *PyObject_Call(PyObject *, PyObject *, PyObject *);
PyObject *PyObject_CallObject(PyObject *, PyObject *); PyObject *PyObject_CallFunction(PyObject *, const char *, ...);
PyObject *PyObject_CallMethod(PyObject *, const char *, const char *, ...); PyObject *PyObject_Str(PyObject *); PyObject *PyObject_Repr(PyObject *);
Py_ssize_t PyObject_Length(PyObject *); Py_ssize_t PyObject_Size(PyObject *); PyObject *PyObject_GetItem(PyObject *, PyObject *);
int PyObject_RichCompareBool(PyObject *, PyObject *, int); int PyCallable_Check(PyObject *);
int PySequence_Check(PyObject *); Py_ssize_t PySequence_Size(PyObject *); Py_ssize_t PySequence_Length(PyObject *); PyObject *PySequence_GetItem(PyObject *, Py_ssize_t);
PyObject *PySequence_Fast(PyObject *, const char *); PyObject *PySequence_Tuple(PyObject *); PyObject *PySequence_List(PyObject *);
PyObject *PySequence_Fast_GET_ITEM(PyObject *, Py_ssize_t); Py_ssize_t PySequence_Fast_GET_SIZE(PyObject *); PyObject *PySequence_ITEM(PyObject *, Py_ssize_t);
int PyLong_Check(void *); long PyLong_AsLong(PyObject *); PyObject *PyLong_FromLong(long); Py_ssize_t PyLong_AsSsize_t(PyObject *); PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyLong_FromUnsignedLong(unsigned long); long long PyLong_AsLongLong(PyObject *); int PyBool_Check(void *); PyObject *PyBool_FromLong(long);
int PyNumber_Check(PyObject *); int PyIndex_Check(PyObject *); PyObject *PyNumber_Float(PyObject *); PyObject *PyNumber_Long(PyObject *); PyObject *PyNumber_Index(PyObject *);
Py_ssize_t PyNumber_AsSsize_t(PyObject *, PyObject *);
int PyFloat_Check(void *); double PyFloat_AsDouble(PyObject *); PyObject *PyFloat_FromDouble(double); double PyFloat_AS_DOUBLE(PyObject *);
int PyUnicode_Check(void *); Py_ssize_t PyUnicode_GetSize(PyObject *); Py_ssize_t PyUnicode_GetLength(PyObject *); Py_ssize_t PyUnicode_GET_LENGTH(PyObject *); PyObject *PyUnicode_AsASCIIString(PyObject *); PyObject *PyUnicode_AsUTF8String(PyObject *);
PyObject *PyUnicode_AsEncodedString(PyObject *, const char *, const char *); PyObject *PyUnicode_AsLatin1String(PyObject *); unsigned PyUnicode_ReadChar(PyObject *, Py_ssize_t); unsigned PyUnicode_READ_CHAR(PyObject *, Py_ssize_t);
const char *PyUnicode_AsUTF8(PyObject *); const char *PyUnicode_AsUTF8AndSize(PyObject *, Py_ssize_t *); PyObject *PyUnicode_FromString(const char *); PyObject *PyUnicode_FromFormat(const char *, ...);
int PyUnicode_CompareWithASCIIString(PyObject *, const char *); PyObject *PyUnicode_InternFromString(const char *);
int PyBytes_Check(void *); char *PyBytes_AsString(PyObject *); char *PyBytes_AS_STRING(PyObject *); Py_ssize_t PyBytes_Size(PyObject *); Py_ssize_t PyBytes_GET_SIZE(PyObject *); PyObject *PyBytes_FromString(const char *);
int PyTuple_Check(void *); PyObject *PyTuple_New(Py_ssize_t); Py_ssize_t PyTuple_Size(PyObject *); Py_ssize_t PyTuple_GET_SIZE(PyObject *); PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t); PyObject *PyTuple_GET_ITEM(PyObject *, Py_ssize_t);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *); void PyTuple_SET_ITEM(PyObject *, Py_ssize_t, PyObject *); PyObject *PyTuple_Pack(Py_ssize_t, ...);
int PyList_Check(void *); PyObject *PyList_New(Py_ssize_t); Py_ssize_t PyList_Size(PyObject *); Py_ssize_t PyList_GET_SIZE(PyObject *); PyObject *PyList_GetItem(PyObject *, Py_ssize_t); PyObject *PyList_GET_ITEM(PyObject *, Py_ssize_t);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *); void PyList_SET_ITEM(PyObject *, Py_ssize_t, PyObject *); int PyList_Append(PyObject *, PyObject *);
int PyDict_Check(void *); PyObject *PyDict_New(void); int PyDict_SetItemString(PyObject *, const char *, PyObject *); int PyDict_SetItem(PyObject *, PyObject *, PyObject *); PyObject *PyDict_GetItemString(PyObject *, const char *); PyObject *PyDict_GetItem(PyObject *, PyObject *);
PyObject *PyModule_Create(PyModuleDef *); PyObject *PyModule_GetDict(PyObject *); void *PyModule_GetState(PyObject *); int PyModule_AddObject(PyObject *, const char *, PyObject *); int PyModule_AddObjectRef(PyObject *, const char *, PyObject *);
int PyModule_AddStringConstant(PyObject *, const char *, const char *); int PyModule_AddIntConstant(PyObject *, const char *, long); PyObject *PyImport_ImportModule(const char *);
#endif
