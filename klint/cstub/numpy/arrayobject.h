#ifndef KLINT_NP_H
#define KLINT_NP_H
typedef long npy_intp;
typedef double npy_double;
typedef unsigned char npy_bool;
typedef struct { PyObject ob_base; char *data; int nd; npy_intp *dimensions; npy_intp *strides; PyObject *base; void *descr; int flags; } PyArrayObject;
typedef struct { PyObject ob_base; } PyArray_Descr;
enum NPY_TYPES { NPY_BOOL = 0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG,
    NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_CFLOAT, NPY_CDOUBLE };
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_OWNDATA 0x0004
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_ENSUREARRAY 0x0040
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_NOTSWAPPED 0x0200
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_BEHAVED (NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_CARRAY_RO (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
#define NPY_ARRAY_OUT_ARRAY NPY_ARRAY_CARRAY
#define NPY_ARRAY_INOUT_ARRAY NPY_ARRAY_CARRAY
#define NPY_IN_ARRAY NPY_ARRAY_IN_ARRAY
#define NPY_C_CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
int _import_array(void);
#define import_array() { if (_import_array() < 0) { return NULL; } }
#define import_array1(r) { if (_import_array() < 0) { return r; } }
#define import_array2(m, r) { if (_import_array() < 0) { return r; } }
/* loose pointer types: the code passes array objects as well as plain objects */
void *PyArray_FROM_O(const void *);
void *PyArray_FROM_OT(const void *, int);
void *PyArray_FROM_OF(const void *, int);
void *PyArray_FROM_OTF(const void *, int, int);
void *PyArray_FROMANY(const void *, int, int, int, int);
void *PyArray_ContiguousFromAny(const void *, int, int, int);
void *PyArray_ContiguousFromObject(const void *, int, int, int);
void *PyArray_FromAny(const void *, void *, int, int, int, void *);
void *PyArray_SimpleNew(int, npy_intp *, int);
void *PyArray_SimpleNewFromData(int, npy_intp *, int, void *);
void *PyArray_ZEROS(int, npy_intp *, int, int);
void *PyArray_EMPTY(int, npy_intp *, int, int);
void *PyArray_Zeros(int, npy_intp *, void *, int);
void *PyArray_NewCopy(const void *, int);
void *PyArray_NewLikeArray(const void *, int, void *, int);
void *PyArray_GETCONTIGUOUS(const void *);
void *PyArray_Cast(const void *, int);
PyObject *PyArray_Return(void *);
void *PyArray_DescrFromType(int);
int PyArray_Check(const void *);
int PyArray_CheckExact(const void *);
int PyArray_NDIM(const void *);
npy_intp *PyArray_DIMS(const void *);
npy_intp *PyArray_SHAPE(const void *);
npy_intp PyArray_DIM(const void *, int);
npy_intp *PyArray_STRIDES(const void *);
npy_intp PyArray_STRIDE(const void *, int);
void *PyArray_DATA(const void *);
char *PyArray_BYTES(const void *);
npy_intp PyArray_SIZE(const void *);
npy_intp PyArray_NBYTES(const void *);
int PyArray_TYPE(const void *);
int PyArray_FLAGS(const void *);
int PyArray_ITEMSIZE(const void *);
int PyArray_ISCONTIGUOUS(const void *);
int PyArray_IS_C_CONTIGUOUS(const void *);
void *PyArray_GETPTR1(const void *, npy_intp);
int PyArray_SetBaseObject(void *, void *);
int PyArray_CopyInto(void *, void *);
void PyArray_FILLWBYTE(void *, int);
#endif
