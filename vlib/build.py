"""Builds /repo's current working tree (with the stand-ins of /verif/standin) in /verif/build."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY):
    PY = shutil.which("python3-vt") or sys.executable

SAN = {
    "plain": "-O1 -g1 -D_GLIBCXX_ASSERTIONS",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
            " -D_GLIBCXX_ASSERTIONS -DVERIF_SAN -I%s/standin/compat" % VERIF,
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -DVERIF_SAN -I%s/standin/compat" % VERIF,
}


class BuildError(Exception):
    pass


def _run(cmd, log, cwd=None, env=None):
    with open(log, "ab") as f:
        f.write(("\n$ " + (cmd if isinstance(cmd, str) else " ".join(cmd)) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env)
    if r.returncode != 0:
        with open(log, "rb") as f:
            tail = f.read()[-6000:].decode("utf-8", "replace")
        raise BuildError("command failed: %s\n%s" % (cmd, tail))


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "4G"
    e.pop("LD_PRELOAD", None)
    return e


def launcher():
    return "ccache " if shutil.which("ccache") else ""


def tree_hash(dirs):
    """sha256 of every file below the given directories of REPO, by content"""
    out = {}
    for d in dirs:
        top = os.path.join(REPO, d)
        if os.path.isfile(top):
            out[d] = hashlib.sha256(open(top, "rb").read()).hexdigest()
            continue
        for base, sub, files in os.walk(top):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                try:
                    with open(p, "rb") as fh:
                        out[os.path.relpath(p, REPO)] = hashlib.sha256(fh.read()).hexdigest()
                except OSError:
                    pass
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stale(bdir, dirs):
    """True when a source's content differs from the one recorded for the last build of bdir"""
    rec = os.path.join(bdir, "sources.json")
    now = tree_hash(dirs)
    try:
        with open(rec) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    return old != now, now


def record(bdir, now):
    with open(os.path.join(bdir, "sources.json"), "w") as f:
        json.dump(now, f)


def build_getrf():
    b = os.path.join(BUILD, "getrf")
    with Lock("getrf"):
        os.makedirs(b, exist_ok=True)
        ch, now = stale(b, ["external/getrf"])
        lib = os.path.join(b, "libgetrf.a")
        if not ch and os.path.exists(lib):
            return lib
        log = os.path.join(b, "log.txt")
        open(log, "w").close()
        if not os.path.exists(os.path.join(b, "build.ninja")):
            _run(["cmake", "-S", os.path.join(REPO, "external/getrf"), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RELEASE",
                  "-DCMAKE_Fortran_FLAGS=-freal-8-real-16 -ffixed-line-length-0 -fPIC",
                  "-DCMAKE_CXX_FLAGS=-fPIC"], log, env=env())
        else:
            _run(["ninja", "-C", b, "-t", "clean"], log, env=env())
        _run(["ninja", "-C", b], log, env=env())
        record(b, now)
    return lib


def build_standins(kind):
    """symdiff (in the simulator, so with the same sanitizer) and the math library"""
    b = os.path.join(BUILD, "standin_" + kind)
    with Lock("standin_" + kind):
        os.makedirs(b, exist_ok=True)
        srcs = [os.path.join(VERIF, "standin", p) for p in ("symdiff/symdiff.cc", "symdiff/EngineAPI.hh", "symdiff/parseexpr.hh", "mathlib/mathlib.cc")]
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs) + SAN[kind].encode()).hexdigest()
        stamp = os.path.join(b, "stamp")
        sym, mth = os.path.join(b, "libsymdiff.a"), os.path.join(b, "libdsmath.so")
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(sym) and os.path.exists(mth):
            return sym, mth
        log = os.path.join(b, "log.txt")
        open(log, "w").close()
        flags = SAN[kind]
        _run(f"{launcher()}g++ -std=c++17 -fPIC {flags} -I{VERIF}/standin/symdiff -c {srcs[0]} -o {b}/symdiff.o && rm -f {sym} && ar rcs {sym} {b}/symdiff.o", log, env=env())
        _run(f"{launcher()}g++ -std=c++17 -fPIC -O2 -I/usr/include/eigen3 -c {srcs[3]} -o {b}/mathlib.o && g++ -shared {b}/mathlib.o -o {mth}", log, env=env())
        with open(stamp, "w") as f:
            f.write(h)
    return sym, mth


SOURCES = ["src", "CMakeLists.txt", "python_packages", "umfpack", "cmake", "testing/CMakeLists.txt"]


def build(kind="plain", targets=("devsim_py3",)):
    """Returns (directory to put on PYTHONPATH, math library, build directory)."""
    getrf = build_getrf()
    sym, mth = build_standins(kind)
    b = os.path.join(BUILD, kind)
    with Lock(kind):
        os.makedirs(b, exist_ok=True)
        log = os.path.join(b, "log.txt")
        open(log, "w").close()
        changed, now = stale(b, SOURCES)
        e = env()
        sh = "" if kind == "plain" else SAN[kind].split("-fno-omit-frame-pointer ")[1].split(" ")[0]
        if not os.path.exists(os.path.join(b, "build.ninja")):
            args = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=none",
                    "-DCMAKE_CXX_FLAGS=" + SAN[kind], "-DCMAKE_POSITION_INDEPENDENT_CODE=ON",
                    "-DDEVSIM_EXTENDED_PRECISION=ON", "-DMKL_PARDISO=ON", "-DPYTHON3=ON",
                    "-DPYTHON3_INCLUDE=/usr/include/python3.12", "-DFLEX=/usr/bin/flex", "-DBISON=/usr/bin/bison",
                    "-DBOOST_INCLUDE=/usr/include", "-DQUADMATH_ARCHIVE=-lquadmath", "-DEXTENDED_BLAS_ARCHIVE=" + getrf,
                    f"-DSYMDIFF_INCLUDE={VERIF}/standin/symdiff", "-DSYMDIFF_ARCHIVE=" + sym]
            if launcher():
                args.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
            _run(args, log, env=e)
        elif changed:
            # by content, not by time stamp: drop the objects (ccache makes the unchanged ones cheap)
            _run("find src -name '*.o' -delete; find src -name '*.a' -delete", log, cwd=b, env=e)
        _run(["ninja", "-C", b, *targets], log, env=e)
        py = os.path.join(b, "py")
        pk = os.path.join(py, "devsim")
        os.makedirs(pk, exist_ok=True)
        so = os.path.join(b, "src/main/devsim_py3.so")
        dst = os.path.join(pk, "devsim_py3.so")
        if "devsim_py3" in targets:
            for d in ("python_packages", "umfpack"):
                shutil.rmtree(os.path.join(pk, d), ignore_errors=True)
                shutil.copytree(os.path.join(REPO, d), os.path.join(pk, d))
            if os.path.lexists(dst):
                os.unlink(dst)
            os.symlink(so, dst)
            with open(os.path.join(pk, "__init__.py"), "w") as f:
                f.write("from .devsim_py3 import *\nfrom .devsim_py3 import __version__\n")
        record(b, now)
    return py, mth, b


MATH_DEFINES = "-DDEVSIM_EXTENDED_PRECISION -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_ITERATIVE_SOLVER -DUSE_LAPACK -DUSE_MKL_PARDISO"


def build_harness(name, kind, libs=("math", "utility", "errorSystem", "Data", "Geometry", "models", "Equation", "GeometryCommon")):
    """a shared library of harness/NAME.cc with the libraries of the simulator's build"""
    import shlex
    py, mth, b = build(kind)
    e = env()
    cmds = subprocess.check_output(["ninja", "-C", b, "-t", "compdb"], env=e, text=True)
    # the flags with which the simulator's own source is compiled
    flags = None
    for c in json.loads(cmds):
        if c["file"].endswith("src/math/CompressedMatrix.cc"):
            w = shlex.split(c["command"])
            flags = [x for x in w if x.startswith(("-D", "-I", "-f", "-std", "-O", "-g"))]
            for i, x in enumerate(w):
                if x == "-isystem":
                    flags += [x, w[i + 1]]
    if flags is None:
        raise BuildError("no compile command of src/math")
    src = os.path.join(VERIF, "harness", name + ".cc")
    out = os.path.join(b, "harness")
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, name + ".so")
    with Lock("harness_" + kind):
        h = hashlib.sha256(open(src, "rb").read() + repr(flags).encode() + json.dumps(tree_hash(["src"]), sort_keys=True).encode()).hexdigest()
        stamp = so + ".stamp"
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(so):
            return so
        log = os.path.join(out, "log.txt")
        open(log, "w").close()
        sd = os.path.join(REPO, "src")
        inc = ["-I" + os.path.join(sd, d) for d in ("math", "utility", "Geometry", "Data", "Equation", "errorSystem", "MathEval", "common_api", "Circuit/data", "models")]
        obj = os.path.join(out, name + ".o")
        _run([*launcher().split(), "g++", *flags, *inc, "-fPIC", "-c", src, "-o", obj], log, env=e)
        link = subprocess.check_output(["ninja", "-C", b, "-t", "commands", "src/main/devsim_py3.so"], env=e, text=True).strip().splitlines()[-1]
        # the simulator's own link, with the harness in place of its main
        i = link.index("-o src/main/devsim_py3.so")
        link = link.replace("-o src/main/devsim_py3.so", "-Wl,-soname,%s.so %s -o %s" % (name, obj, so))
        _run(link, log, cwd=b, env=e)
        with open(stamp, "w") as f:
            f.write(h)
    return so


def runtime_env(kind, py, mth):
    e = dict(os.environ)
    e["PYTHONPATH"] = os.pathsep.join([py, VERIF])
    e["DEVSIM_MATH_LIBS"] = mth
    e["OPENBLAS_NUM_THREADS"] = e["OMP_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    if kind == "asan":
        lib = subprocess.check_output(["g++", "-print-file-name=libasan.so"], text=True).strip()
        std = subprocess.check_output(["g++", "-print-file-name=libstdc++.so"], text=True).strip()
        e["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(std)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    elif kind == "tsan":
        lib = subprocess.check_output(["g++", "-print-file-name=libtsan.so"], text=True).strip()
        e["LD_PRELOAD"] = os.path.realpath(lib)
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0"
    return e


if __name__ == "__main__":
    t = time.time()
    for k in sys.argv[1:] or ["plain"]:
        print(build(k), round(time.time() - t, 1))
