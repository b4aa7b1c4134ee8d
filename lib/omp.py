"""Access to the OpenMP runtime of the harness (flavors tsan and sched)."""
import ctypes
import os

import mlrl.common


class Omp:

    def __init__(self):
        # .build/<flavor>/pkg/mlrl/common/__init__.py
        p = os.path.abspath(os.path.join(os.path.dirname(mlrl.common.__file__), '..', '..', '..', 'libvompshim.so'))
        self.lib = ctypes.CDLL(p)
        self.lib.vomp_config.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
        self.lib.vomp_stats.argtypes = [ctypes.POINTER(ctypes.c_uint64)]

    def config(self, seed, level=2, limit=0):
        self.lib.vomp_config(seed, level, limit)

    def stats(self):
        """(parallel regions, regions in which several threads did work, chunks, hash of the schedule since config)"""
        a = (ctypes.c_uint64 * 4)()
        self.lib.vomp_stats(a)
        return tuple(int(v) for v in a)


_omp = None


def get():
    global _omp
    if _omp is None:
        _omp = Omp()
    return _omp
