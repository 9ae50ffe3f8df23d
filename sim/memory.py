"""Content of fresh memory: all blocks that numpy obtains for arrays (np.empty, np.ndarray, results of ufuncs with
``where``, ...) are filled with a pattern."""
import ctypes
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
lib = None


def prepare():
    """builds the allocator and hands it to numpy"""
    global lib
    if lib is not None:
        return
    import numpy as np
    d = os.path.join(os.path.dirname(HERE), 'evidence')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'alloc-%d.so' % os.getpid())
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'native', 'alloc.c')], check=True)
    lib = ctypes.CDLL(so)
    os.remove(so)
    lib.set_pattern.argtypes = [ctypes.c_double, ctypes.c_int]
    lib.blocks.restype = ctypes.c_long
    try:
        from numpy._core import _multiarray_umath as mu
    except ImportError:
        from numpy.core import _multiarray_umath as mu
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    new = api.PyCapsule_New
    new.restype = ctypes.py_object
    new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    capsule = new(ctypes.addressof(ctypes.c_char.in_dll(lib, 'handler')), b'mem_handler', None)
    set_handler(capsule)
    lib.capsule = capsule
    fill(123.)
    if np.ndarray((5,))[3] != 123.:
        raise RuntimeError('simulated memory is not in use')
    fill(None)


def fill(value):
    if lib is not None:
        lib.set_pattern(0. if value is None else value, value is not None)
