"""
Knowledge about the C APIs the extension modules use: who returns an owned
reference / allocation, who takes ownership, what needs the GIL, what is the
(non thread-safe) FFTW planner.
"""
import re

NEWREF = set('''
Py_BuildValue Py_VaBuildValue PyObject_CallMethod PyObject_CallMethodObjArgs PyObject_CallObject PyObject_Call
PyObject_CallFunction PyObject_CallFunctionObjArgs PyObject_CallNoArgs PyObject_CallOneArg PyObject_CallMethodNoArgs
PyObject_CallMethodOneArg PyObject_Vectorcall PyObject_VectorcallMethod
PyObject_GetAttrString PyObject_GetAttr PyObject_GetItem PyObject_Str PyObject_Repr PyObject_GetIter PyIter_Next
PyLong_FromLong PyLong_FromUnsignedLong PyLong_FromLongLong PyLong_FromUnsignedLongLong PyLong_FromSize_t
PyLong_FromSsize_t PyLong_FromDouble PyFloat_FromDouble PyComplex_FromDoubles PyBool_FromLong
PyUnicode_FromString PyUnicode_FromFormat PyUnicode_FromStringAndSize PyBytes_FromString PyBytes_FromStringAndSize
PyUnicode_AsUTF8String PyUnicode_AsEncodedString
PyList_New PyTuple_New PyDict_New PySet_New PyTuple_Pack PySequence_GetItem PySequence_Fast PySequence_List PySequence_Tuple
PyNumber_Long PyNumber_Float PyNumber_Add PyImport_ImportModule PyImport_Import PyErr_NewException Py_NewRef Py_XNewRef
PyMapping_GetItemString PyList_GetSlice PyMemoryView_FromMemory
PyArray_DescrFromType PyArray_DescrNewFromType PyArray_DescrNew PyArray_Zeros PyArray_Empty PyArray_New
PyArray_NewFromDescr PyArray_FromAny PyArray_CheckFromAny PyArray_FromArray PyArray_NewCopy PyArray_Copy PyArray_Newshape
PyArray_Reshape PyArray_Transpose PyArray_Cast PyArray_CastToType PyArray_EnsureArray PyArray_NewLikeArray
PyArray_Squeeze PyArray_Flatten PyArray_Ravel PyArray_SwapAxes PyArray_ContiguousFromAny PyArray_IterNew
PyArray_SimpleNewFromDesc PyArray_View PyArray_Scalar PyArray_ToScalar PyArray_Arange PyArray_GetField
'''.split())

# argument positions whose reference the callee takes over
STEALS = {
    'PyList_SetItem': [2], 'PyTuple_SetItem': [2], 'PyList_SET_ITEM': [2], 'PyTuple_SET_ITEM': [2],
    'PyModule_AddObject': [2],
    'PyArray_Zeros': [2], 'PyArray_Empty': [2], 'PyArray_NewFromDescr': [1], 'PyArray_FromAny': [1],
    'PyArray_CheckFromAny': [1], 'PyArray_FromArray': [1], 'PyArray_CastToType': [1], 'PyArray_NewLikeArray': [2],
    'PyArray_View': [1], 'PyErr_Restore': [0, 1, 2], 'PyErr_SetRaisedException': [0],
}
# result is the (same) reference given as first argument
PASSTHRU = {'PyArray_Return': 0}

PYFREE = {'Py_DECREF', 'Py_XDECREF', '_Py_DECREF', '_Py_XDECREF', 'Py_DecRef', 'Py_IncRef_'}
PYINC = {'Py_INCREF', 'Py_XINCREF', '_Py_INCREF', '_Py_XINCREF', 'Py_IncRef'}

ALLOC = {'malloc': 'heap', 'calloc': 'heap', 'realloc': 'heap', 'aligned_alloc': 'heap', 'memalign': 'heap', 'strdup': 'heap',
         '_Znwm': 'new', '_Znam': 'newarr', 'fftwf_malloc': 'fftw', 'fftwf_alloc_complex': 'fftw', 'fftwf_alloc_real': 'fftw',
         'fftw_malloc': 'fftw',
         'PyMem_Malloc': 'pymem', 'PyMem_Calloc': 'pymem', 'PyMem_RawMalloc': 'pymemraw', 'fopen': 'file', 'fopen64': 'file'}
FREE = {'free': 'heap', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'newarr', '_ZdaPvm': 'newarr', 'fftwf_free': 'fftw', 'fftw_free': 'fftw',
        'PyMem_Free': 'pymem', 'PyMem_RawFree': 'pymemraw', 'fclose': 'file',
        'fftwf_destroy_plan': 'plan', 'fftw_destroy_plan': 'plan'}

BORROWED = {'PyTuple_GetItem', 'PyList_GetItem', 'PyDict_GetItemString', 'PyDict_GetItem', 'PyModule_GetDict', 'PyImport_AddModule',
            'PyTuple_GET_ITEM', 'PyList_GET_ITEM', 'PySequence_Fast_GET_ITEM', 'PyArray_BASE', 'PyArray_DESCR'}

_PLAN = re.compile(r'^fftwf?_(plan_|destroy_plan$|import_|export_|forget_wisdom|cleanup|init_threads|plan_with_nthreads|set_timelimit|make_planner_thread_safe)')
_MKPLAN = re.compile(r'^fftwf?_plan_(?!with_nthreads)')


def is_planner(n):
    return bool(_PLAN.match(n or ''))


def is_mkplan(n):
    return bool(_MKPLAN.match(n or ''))


# accessors which only read fields of an object that the caller keeps alive
GIL_FREE = set('''
PyArray_DATA PyArray_BYTES PyArray_DIM PyArray_DIMS PyArray_SHAPE PyArray_NDIM PyArray_STRIDE PyArray_STRIDES PyArray_TYPE
PyArray_ITEMSIZE PyArray_FLAGS PyArray_CHKFLAGS PyArray_MultiplyList PyArray_OverflowMultiplyList PyDataType_ELSIZE PyArray_DESCR PyArray_SIZE
Py_TYPE Py_SIZE Py_IS_TYPE PyBytes_AS_STRING PyBytes_GET_SIZE PyType_HasFeature PyFloat_AS_DOUBLE
PyTuple_GET_SIZE PyList_GET_SIZE
PyEval_SaveThread PyEval_RestoreThread PyGILState_Ensure PyGILState_Release PyMem_RawMalloc PyMem_RawCalloc PyMem_RawRealloc PyMem_RawFree
PyTypeNum_ISCOMPLEX
'''.split())


def needs_gil(n):
    if not n:
        return False
    if not (n.startswith('Py') or n.startswith('_Py') or n.startswith('npy_')):
        return False
    if n.startswith('npy_'):
        return False
    return n not in GIL_FREE


def callee_name(u, ins):
    """Resolved name of the function called by `ins` (short for static inlines), or None."""
    c = ins.callee
    if c is None:
        return None
    if c.k == 'func':
        n = c.v
        if n.startswith('_Z'):
            s = u.short.get(n, n)
            return s if s.startswith(('Py', '_Py')) else n
        return n
    if c.k == 'inst' and c.op == 'load':
        a = c.ops[0]
        off = None
        base = None
        if a.k == 'inst' and a.op == 'gep' and not a.gidx:
            off, base = a.goff, a.ops[0]
        elif a.k == 'inst' and a.op == 'load':
            off, base = 0, a
        elif a.k == 'cexpr' and a.v == 'gep' and not a.x[1]:
            off, base = a.x[0], a.ops[0]
        if base is not None:
            g = None
            if base.k == 'inst' and base.op == 'load' and base.ops[0].k == 'global':
                g = base.ops[0].v
            if g and 'ARRAY_API' in g or g and 'PyArray_API' in g:
                return u.api.get(off // 8, 'PyArray_API[%d]' % (off // 8))
    return None
