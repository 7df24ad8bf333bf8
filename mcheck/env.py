"""The environment seams: virtual clock and file faults (see shim/shim.c)."""
import ctypes
import os
import time

L = ctypes.CDLL(None)
for n, a, r in [
    ("shim_clock", [ctypes.c_int, ctypes.c_longlong, ctypes.c_int], None),
    ("shim_clock_script", [ctypes.POINTER(ctypes.c_longlong), ctypes.c_int], None),
    ("shim_clock_set", [ctypes.c_longlong], None),
    ("shim_clock_get", [], ctypes.c_longlong),
    ("shim_clock_calls", [], ctypes.c_long),
    ("shim_fs", [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int], None),
    ("shim_fs_off", [], None),
    ("shim_fs_count", [], ctypes.c_long),
    ("shim_fs_log", [], ctypes.c_char_p),
]:
    f = getattr(L, n)
    f.argtypes, f.restype = a, r

NS = 1_000_000_000


def clock_real():
    L.shim_clock(0, 0, 0)


def clock_fixed(ns, mono=False):
    L.shim_clock(1, int(ns), 1 if mono else 0)


def clock_set(ns):
    L.shim_clock_set(int(ns))


def clock_get():
    return L.shim_clock_get()


def clock_script(values):
    arr = (ctypes.c_longlong * len(values))(*values)
    L.shim_clock_script(arr, len(values))


def clock_calls():
    return L.shim_clock_calls()


class at:
    """with at(epoch_seconds): the wall clock stands still there"""

    def __init__(self, seconds, mono=False):
        self.ns, self.mono = int(round(seconds * NS)), mono

    def __enter__(self):
        clock_fixed(self.ns, self.mono)

    def __exit__(self, *a):
        clock_real()


FS_COUNT, FS_EXIT_BEFORE, FS_EXIT_IN, FS_FAIL, FS_TEAR_FAIL = 1, 2, 3, 4, 5


def fs_arm(prefix, mode, target=0, part=-1, err=28):
    L.shim_fs(str(prefix).encode(), mode, target, part, err)


def fs_off():
    L.shim_fs_off()


def fs_log():
    """[(operation, size)] since armed"""
    out = []
    for item in L.shim_fs_log().decode().split(";"):
        if item:
            k, n = item.split(":")
            out.append((k, int(n)))
    return out


SCRATCH = os.environ.get("MCHECK_SCRATCH", "/tmp")
REPO = os.environ.get("TARGET_REPO", "/repo")


class zone:
    """the local time zone while inside"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ", "UTC")
        if self.old != self.name:
            os.environ["TZ"] = self.name
            time.tzset()

    def __exit__(self, *a):
        if self.old != self.name:
            os.environ["TZ"] = self.old
            time.tzset()
