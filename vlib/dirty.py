"""Content of memory that a call has not written itself: the heap (mallopt M_PERTURB) and the stack below each function
of the extension that is called from another file (thunks of vlib/build.py)."""
import ctypes

libc = ctypes.CDLL(None)
_byte = None


def heap(byte):
    """malloc returns memory holding this byte (0: as the allocator leaves it)"""
    libc.mallopt(-6, byte ^ 0xff if byte else 0)


def stack(byte):
    """None: left as it is"""
    global _byte
    if _byte is None:
        import pycold._colds_cython as m
        _byte = ctypes.c_int.in_dll(ctypes.CDLL(m.__file__), "vp_fill_byte")
    _byte.value = -1 if byte is None else byte


def on(byte):
    """what is not written holds the byte, in this process and those it starts (if the extension can be loaded)"""
    heap(byte)
    try:
        stack(byte)
    except (ImportError, OSError, ValueError):
        pass
