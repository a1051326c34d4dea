import ctypes, importlib, os, sys

lib = pylib = None
if "SIM_LIB" in os.environ:
    lib = ctypes.CDLL(os.environ["SIM_LIB"], mode=ctypes.RTLD_GLOBAL)
    lib.sim_workload.restype = ctypes.c_char_p
    lib.sim_cfg.restype = ctypes.c_uint64
    lib.sim_cfg.argtypes = [ctypes.c_char_p, ctypes.c_uint64]
    for f in ("sim_seq", "sim_now", "sim_rdtsc"):
        getattr(lib, f).restype = ctypes.c_uint64
    lib.sim_fault_count.restype = ctypes.c_uint64
    lib.sim_fault_count.argtypes = [ctypes.c_char_p]
    lib.sim_finish.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.sim_probe.argtypes = [ctypes.c_char_p]
    lib.sim_note.argtypes = [ctypes.c_uint64]
    lib.sim_note_buf.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    lib.sim_fs_nops.restype = ctypes.c_long
    lib.sim_fs_restore.argtypes = [ctypes.c_long, ctypes.c_long]
    lib.sim_fs_get.restype = ctypes.c_long
    lib.sim_fs_get.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_long]
    lib.sim_fs_put.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long]
    lib.sim_fs_oplen.restype = ctypes.c_long
    lib.sim_fs_oplen.argtypes = [ctypes.c_long]
    lib.sim_fs_capacity.argtypes = [ctypes.c_int64]
    lib.sim_shm_limit.argtypes = [ctypes.c_int64]
    lib.sim_advance.argtypes = [ctypes.c_uint64]
    lib.sim_arm.argtypes = [ctypes.c_uint]
    lib.sim_disarm.argtypes = [ctypes.c_uint]
    # the hot helpers keep the GIL
    pylib = ctypes.PyDLL(os.environ["SIM_LIB"])

IO, ALLOC, SIG, TCREATE, SHM = 1, 2, 4, 8, 16
MODDIR = None
rc = None


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ": " + msg)
        self.cls, self.msg = cls, msg


def violate(cls, msg):
    raise Violation(cls, msg)


def begin():
    pylib.sim_begin()


def finish(verdict, msg):
    pylib.sim_finish(verdict.encode("ascii", "replace"), msg.encode("ascii", "replace")[:1500])


def probe(name):
    pylib.sim_probe(name.encode())


def cfg(key, d=0):
    return lib.sim_cfg(key.encode(), d)


def faults(kind=""):
    return lib.sim_fault_count(kind.encode())


def load():
    """Import the instrumented module inside the simulation."""
    global rc
    if rc is None:
        sys.path.insert(0, MODDIR)
        import riptide_cpp
        rc = riptide_cpp
    return rc


def note(a):
    b = a.tobytes()
    pylib.sim_note_buf(b, len(b))


def fs_get(path):
    n = lib.sim_fs_get(path.encode(), None, 0)
    if n < 0:
        return None
    buf = ctypes.create_string_buffer(n + 1)
    lib.sim_fs_get(path.encode(), buf, n)
    return buf.raw[:n]


def fs_put(path, data):
    if data is None:
        lib.sim_fs_put(path.encode(), None, -1)
    else:
        lib.sim_fs_put(path.encode(), data, len(data))
