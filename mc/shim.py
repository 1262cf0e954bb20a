"""Interface to the file system shim (shim/fsshim.c)."""
import ctypes
import os
import subprocess

from .core import VERIF

RECORD, KILL_BEFORE, KILL_AFTER, TORN, FAIL, FAIL_FROM, FAIL_SAME = range(1, 8)


def build_shim():
    """Build the shared library if needed; returns its path."""
    source = os.path.join(VERIF, 'shim', 'fsshim.c')
    target = os.path.join(VERIF, 'build', 'fsshim.so')
    if not os.path.exists(target) or os.path.getmtime(target) < os.path.getmtime(source):
        os.makedirs(os.path.dirname(target), exist_ok=True)
        tmp = target + '.{}'.format(os.getpid())
        subprocess.check_call(['gcc', '-O1', '-Wall', '-fPIC', '-shared', '-o', tmp, source, '-ldl'])
        os.rename(tmp, target)
    return target


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(None)
        _LIB.fsshim_log.restype = ctypes.c_char_p
        _LIB.fsshim_count.restype = ctypes.c_long
        _LIB.fsshim_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        _LIB.fsshim_prefix.argtypes = [ctypes.c_char_p]
    return _LIB


def log():
    """The recorded calls: [(name, path, size)]."""
    res = []
    for line in lib().fsshim_log().decode(errors='replace').splitlines():
        name, path, size = line.split('\t')
        res.append((name, path, int(size)))
    return res
