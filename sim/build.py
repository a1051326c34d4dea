#!/usr/bin/env python3
"""Builds the simulator runtime, the instrumented riptide_cpp module and the C++ hosts from /repo's working tree."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/vp/venv"
SITE = VENV + "/lib/python3.12/site-packages"

CLANG = shutil.which("clang++")
GCC = shutil.which("g++")
COMMON = ["-O0", "-g0", "-fsanitize=thread", "-DNDEBUG", "-DBUILDING_RIPTIDE_CPP",
          "-include", os.path.join(HERE, "rdtsc_shim.h"),
          "-I" + SITE + "/numpy/core/include", "-isystem", "/usr/include/python3.12", "-isystem", VENV + "/include",
          "-isystem", "/opt/vp/compat", "-std=c++20", "-fPIC", "-fpermissive", "-fno-strict-aliasing",
          "-mavx2", "-mbmi2", "-pthread", "-w"]
CLANGX = ["-D__GCC_DESTRUCTIVE_SIZE=64", "-D__GCC_CONSTRUCTIVE_SIZE=64", "-mllvm", "-tsan-distinguish-volatile",
          "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-compound-read-before-write"]
GCCX = ["--param", "tsan-distinguish-volatile=1", "--param", "tsan-instrument-func-entry-exit=0"]
# compile cost in seconds, to start the long ones first
COST = {"HashLinear": 26, "GroupBy": 14, "Ema": 9, "SDSFile": 5, "Bins": 5, "HashFunctions": 4, "Recycler": 4, "RipTide": 4,
        "Logger": 4, "is_member_tg": 4, "Sort": 3, "one_input": 8}
# heavy units that a check may leave out when nothing it runs reaches them (calls into them then trap, and the whole
# module is built instead)
HEAVY = ["HashLinear", "GroupBy", "Ema"]
WRAP = ["malloc", "calloc", "realloc", "memalign", "aligned_alloc", "posix_memalign"]

_lock = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_hc = {}


def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    with _lock:
        if k in _hc:
            return _hc[k]
    h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    with _lock:
        _hc[k] = h
    return h


def parse_dep(path):
    t = open(path).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in t.split() if x]


def compile_tu(src, obj, flagsets, extra=()):
    """flagsets: list of argv prefixes tried in order."""
    meta = obj + ".json"
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if m.get("src") == src and m["flags"] == [list(f) for f in flagsets] + [list(extra)] and all(fhash(p) == h for p, h in m["deps"].items()):
                return
        except Exception:
            pass
    log = ""
    for f in flagsets:
        r = sh(list(f) + list(extra) + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj])
        if r.returncode == 0:
            deps = {p: fhash(p) for p in parse_dep(obj + ".d") if not p.startswith("/usr/")}
            json.dump({"src": src, "flags": [list(x) for x in flagsets] + [list(extra)], "deps": deps}, open(meta, "w"))
            return
        log += r.stdout
    raise BuildError("cannot compile %s\n%s" % (src, log[-3000:]))


def flagsets():
    fs = []
    if CLANG:
        fs.append([CLANG] + CLANGX + COMMON)
    fs.append([GCC] + GCCX + COMMON)
    return fs


def build_libsim():
    os.makedirs(OUT, exist_ok=True)
    so = os.path.join(OUT, "libsim.so")
    key = fhash(os.path.join(HERE, "libsim.cpp")) + fhash(os.path.join(HERE, "sim.h"))
    kf = so + ".key"
    if os.path.exists(so) and os.path.exists(kf) and open(kf).read() == key:
        return so
    r = sh([GCC, "-O2", "-g", "-fPIC", "-shared", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-w", "-std=c++17",
            os.path.join(HERE, "libsim.cpp"), "-o", so, "-ldl", "-pthread"])
    if r.returncode:
        raise BuildError(r.stdout)
    open(kf, "w").write(key)
    return so


def sources():
    """The module's translation units, as the project's own CMakeLists lists them."""
    t = open(os.path.join(SRC, "CMakeLists.txt")).read()
    m = re.search(r"set\(SOURCES(.*?)\)", t, re.S)
    names = [x for x in (m.group(1).split() if m else []) if x.endswith((".cpp", ".c", ".cc"))]
    if not names:
        names = [os.path.relpath(p, SRC) for p in glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/logging/*.cpp")]
    names = [n.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "") for n in names]
    return names


def objname(n):
    return os.path.join(OUT, "obj", n.replace("/", "_").rsplit(".", 1)[0] + ".o")


def compile_all(names, jobs=None):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    names = sorted(names, key=lambda n: -COST.get(os.path.basename(n).rsplit(".", 1)[0], 2))
    fs = flagsets()
    # one_input.cpp is not accepted by clang: do not waste time on it
    gcc_only = [[GCC] + GCCX + COMMON]
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_tu, os.path.join(SRC, n), objname(n), gcc_only if n == "one_input.cpp" else fs) for n in names]
        for f in futs:
            f.result()
    return [objname(n) for n in names]


def nm(args, f):
    return [l.split() for l in sh(["nm"] + args + [f]).stdout.splitlines() if l.strip()]


def syslibs():
    out = []
    for pat in ("/lib/x86_64-linux-gnu/libc.so.6", "/lib/x86_64-linux-gnu/libm.so.6", "/lib/x86_64-linux-gnu/libstdc++.so.6",
                "/usr/lib/x86_64-linux-gnu/libstdc++.so.6", "/lib/x86_64-linux-gnu/libgcc_s.so.1"):
        if os.path.exists(pat):
            out.append(pat)
    return out


def zstd():
    for p in (VENV + "/lib/libzstd.so.1", VENV + "/lib/libzstd.so"):
        if os.path.exists(p):
            return p
    c = sorted(glob.glob(VENV + "/lib/**/libzstd*.so*", recursive=True)) + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libzstd.so*"))
    return c[0]


def tbb():
    c = sorted(glob.glob(VENV + "/lib/libtbb.so*")) + sorted(glob.glob(VENV + "/lib/**/libtbb.so*", recursive=True)) + \
        sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libtbb.so*"))
    c = [x for x in c if re.search(r"libtbb\.so(\.\d+)*$", x)]
    return c[0] if c else None


def build_module(omit=()):
    """Returns the directory holding riptide_cpp.so. omit: heavy units left out (stubbed by traps)."""
    libsim = build_libsim()
    names = sources()
    keep = [n for n in names if os.path.basename(n).rsplit(".", 1)[0] not in omit]
    objs = compile_all(keep)
    tag = "mod" + "".join("-" + o for o in sorted(omit))
    d = os.path.join(OUT, tag)
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "riptide_cpp.so")
    extra = []
    if len(keep) != len(names):
        have = set()
        und = set()
        for o in objs:
            for l in nm([], o):
                if len(l) == 2 and l[0] in "Uw":
                    und.add((l[1], l[0]))
                elif len(l) == 3:
                    have.add(l[2])
        known = set(have)
        pylibs = [os.path.realpath(VENV + "/bin/python3")] + glob.glob("/usr/lib/x86_64-linux-gnu/libpython3.12*.so*")
        for f in syslibs() + [libsim, zstd()] + pylibs + ([tbb()] if tbb() else []):
            for l in nm(["-D", "--defined-only"], f):
                known.add(l[-1].split("@")[0])
        miss = sorted({s for s, k in und if s not in known and k == "U" and not s.startswith(("_GLOBAL_OFFSET", "__wrap_", "__tsan", "__dso"))})
        asm = os.path.join(d, "stubs.s")
        with open(asm, "w") as f:
            f.write(".section .rodata\n.Lmsg: .string \"omitted unit reached\"\n.Lcls: .string \"stub\"\n.text\n")
            for s in miss:
                f.write(".weak %s\n.type %s,@function\n%s:\n" % (s, s, s))
            f.write("  andq $-16,%rsp\n  leaq .Lcls(%rip),%rdi\n  leaq .Lmsg(%rip),%rsi\n  call sim_violate@PLT\n  ud2\n")
            f.write('.section .note.GNU-stack,"",@progbits\n')
        extra = [asm]
    key = hashlib.sha256(("|".join(objs) + "".join(fhash(o) for o in objs) + tag).encode()).hexdigest()
    kf = so + ".key"
    if os.path.exists(so) and os.path.exists(kf) and open(kf).read() == key:
        return d
    cmd = [GCC, "-shared", "-o", so] + objs + extra + ["-Wl,--wrap=" + w for w in WRAP] + [libsim, zstd()]
    if tbb():
        cmd += [tbb(), "-Wl,-rpath," + os.path.dirname(tbb())]
    cmd += ["-Wl,-rpath," + os.path.dirname(zstd()), "-lrt", "-pthread", "-Wl,-z,lazy"]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    open(kf, "w").write(key)
    return d


def build_helper(name, src, moddir):
    """A small instrumented library next to the module, for calls that Python cannot make."""
    o = os.path.join(OUT, "obj", "helper_" + name + ".o")
    compile_tu(src, o, [f + ["-I" + SRC, "-I" + HERE] for f in flagsets()])
    so = os.path.join(moddir, "helper_" + name + ".so")
    r = sh([GCC, "-shared", "-o", so + ".tmp", o] + ["-Wl,--wrap=" + w for w in WRAP] + [os.path.join(moddir, "riptide_cpp.so"), os.path.join(OUT, "libsim.so"), "-pthread"])
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    os.replace(so + ".tmp", so)


def build_host(name, src, units, extra_flags=()):
    """A C++ host: harness source plus selected riptide units, instrumented, linked against libsim."""
    libsim = build_libsim()
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    objs = compile_all(units)
    ho = os.path.join(OUT, "obj", "host_" + name + ".o")
    compile_tu(src, ho, [f + ["-I" + SRC, "-I" + HERE] for f in flagsets()], list(extra_flags))
    exe = os.path.join(OUT, "host_" + name)
    r = sh([GCC, "-o", exe, ho] + objs + ["-Wl,--wrap=" + w for w in WRAP] + [libsim, "-Wl,-rpath," + OUT, "-L/usr/lib/x86_64-linux-gnu",
            "-lpython3.12" if False else "-pthread", "-lrt", "-ldl", "-Wl,--unresolved-symbols=report-all"])
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["setup"]:
        print(build_libsim())
        sys.exit(0)
    print(build_module(sys.argv[1:]), "%.1fs" % (time.time() - t))
