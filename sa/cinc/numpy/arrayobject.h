#ifndef SA_ARRAYOBJECT_H
#define SA_ARRAYOBJECT_H
#include "Python.h"
typedef Py_ssize_t npy_intp;
typedef double npy_double;
typedef struct _arr { PyObject ob_base; } PyArrayObject;
typedef struct _descr { PyObject ob_base; int type_num; } PyArray_Descr;
typedef struct _iter { PyObject ob_base; int nd_m1; npy_intp index, size; char *dataptr; PyArrayObject *ao; } PyArrayIterObject;
enum NPY_TYPES { NPY_BOOL, NPY_BYTE, NPY_INT = 5, NPY_LONG = 7, NPY_INTP = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12, NPY_CDOUBLE = 15, NPY_OBJECT = 17 };
#define NPY_MAXDIMS 32
#define NPY_FAIL 0
#define NPY_SUCCEED 1
#define NPY_TRUE 1
#define NPY_FALSE 0
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_ENSUREARRAY 0x0040
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_CARRAY 0x0501
#define NPY_ARRAY_DEFAULT 0x0501
#define NPY_ARRAY_IN_ARRAY 0x0101
#define NPY_ARRAY_OUT_ARRAY 0x0501
#define NPY_ARRAY_INOUT_ARRAY 0x0501
PyObject *PyArray_SimpleNew(int, npy_intp *, int); PyObject *PyArray_Zeros(int, npy_intp *, PyArray_Descr *, int); PyObject *PyArray_ZEROS(int, npy_intp *, int, int); PyObject *PyArray_EMPTY(int, npy_intp *, int, int);
PyObject *PyArray_Empty(int, npy_intp *, PyArray_Descr *, int); PyObject *PyArray_SimpleNewFromData(int, npy_intp *, int, void *); PyObject *PyArray_NewLikeArray(PyArrayObject *, int, PyArray_Descr *, int);
PyObject *PyArray_FROM_OTF(PyObject *, int, int); PyObject *PyArray_FROM_OF(PyObject *, int); PyObject *PyArray_FROM_OT(PyObject *, int); PyObject *PyArray_ContiguousFromAny(PyObject *, int, int, int); PyObject *PyArray_FromAny(PyObject *, PyArray_Descr *, int, int, int, PyObject *);
PyObject *PyArray_Copy(PyArrayObject *); PyObject *PyArray_NewCopy(PyArrayObject *, int); int PyArray_CopyInto(PyArrayObject *, PyArrayObject *);
PyArray_Descr *PyArray_DescrFromType(int);
PyObject *PyArray_Return(PyArrayObject *);
void *PyArray_DATA(PyArrayObject *); char *PyArray_BYTES(PyArrayObject *); int PyArray_NDIM(PyArrayObject *); npy_intp PyArray_DIM(PyArrayObject *, int); npy_intp PyArray_STRIDE(PyArrayObject *, int);
npy_intp *PyArray_DIMS(PyArrayObject *); npy_intp *PyArray_SHAPE(PyArrayObject *); npy_intp *PyArray_STRIDES(PyArrayObject *); npy_intp PyArray_SIZE(PyArrayObject *); int PyArray_TYPE(PyArrayObject *); int PyArray_ISCOMPLEX(PyArrayObject *);
int PyArray_SAMESHAPE(PyArrayObject *, PyArrayObject *); int PyArray_Check(void *); int PyArray_CheckExact(void *); int PyArray_FLAGS(PyArrayObject *); int PyArray_CHKFLAGS(PyArrayObject *, int); int PyArray_IS_C_CONTIGUOUS(PyArrayObject *);
int PyArray_ISCONTIGUOUS(PyArrayObject *); int PyArray_ISWRITEABLE(PyArrayObject *); int PyArray_ISBEHAVED(PyArrayObject *); int PyArray_ISALIGNED(PyArrayObject *); npy_intp PyArray_NBYTES(PyArrayObject *); int PyArray_ITEMSIZE(PyArrayObject *);
void *PyArray_GETPTR1(PyArrayObject *, npy_intp); void *PyArray_GETPTR2(PyArrayObject *, npy_intp, npy_intp); PyArray_Descr *PyArray_DESCR(PyArrayObject *);
PyObject *PyArray_IterNew(PyObject *); PyObject *PyArray_IterAllButAxis(PyObject *, int *); void PyArray_ITER_NEXT(void *); void PyArray_ITER_RESET(void *); void *PyArray_ITER_DATA(void *); int PyArray_ITER_NOTDONE(void *);
int PyArray_AxisConverter(PyObject *, int *); int PyArray_IntpConverter(PyObject *, void *); int PyArray_BoolConverter(PyObject *, void *); int PyArray_Converter(PyObject *, PyObject **); int PyArray_OutputConverter(PyObject *, PyArrayObject **);
int _import_array(void);
#define import_array() do { if (_import_array() < 0) return NULL; } while (0)
#endif
