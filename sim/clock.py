"""Virtual wall clock (needs native/simclock.c preloaded)."""
import ctypes
import os

_lib = None


def available():
    return "simclock" in os.environ.get("LD_PRELOAD", "")


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["LD_PRELOAD"].split(":")[0])
        _lib.sim_clock_set.argtypes = [ctypes.c_longlong, ctypes.c_long]
        _lib.sim_clock_reads.restype = ctypes.c_longlong
    return _lib


def set_time(seconds: int, nanos: int = 0):
    lib().sim_clock_set(seconds, nanos)


def off():
    lib().sim_clock_off()
