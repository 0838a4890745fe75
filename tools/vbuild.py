"""Content-hash based build of /repo sources and the harnesses (no time stamps involved).

Objects are stored under /verif/build/<flavour>/ with a record of the hash of the command and of every
dependency inside /repo and /verif; an object is reused only if all of these are unchanged."""
import fcntl, glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = REPO + "/src"
NCPU = os.cpu_count() or 8

FLAVOURS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
    # Memory accesses of the repository's code call functions that the harness defines (harness/race.hpp); no sanitizer runtime is linked.
    "race": ["-O1", "-g1", "-fsanitize=thread"],
}
HARNESS_FLAVOURS = {"race": ["-O1", "-g1"]}
PYTHON_INC = "/usr/include/python3.12"
CC_TAG = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout

COMMON_DEFS = ["-DVISR_MAJOR_VERSION=0", "-DVISR_MINOR_VERSION=13", "-DVISR_PATCH_VERSION=0", "-DVISR_PLATFORM_NAME_linux_x86_64",
               "-DVISR_SYSTEM_NAME_Linux", "-DVISR_SYSTEM_PROCESSOR_x86_64", "-DVISR_PML_USE_SNDFILE_LIBRARY=1",
               "-DBOOST_ALL_NO_LIB", "-DBOOST_ALL_DYN_LINK", "-DBUILD_FFTS"]
for _l in ("VISR", "EFL", "RBBL", "PML", "RCL", "RRL", "PANNING", "PANNINGDSP", "OBJECTMODEL", "REVERBOBJECT", "SIGNALFLOWS", "AUDIOINTERFACES"):
    COMMON_DEFS.append("-DVISR_%s_STATIC_LIBRARY=1" % _l)
COMMON_INC = ["-I" + SRC, "-I" + REPO + "/3rd/include/oscpkt", "-I" + REPO + "/3rd/include", "-I" + REPO + "/3rd/kissfft", "-I" + REPO + "/3rd/ffts/include"]
EXCLUDE = {"ipp_fft_wrapper.cpp", "vector_functions_ipp.cpp", "jack_interface.cpp", "portaudio_interface.cpp", "audio_interface_factory.cpp", "runtime_profiler.cpp"}
SIMD = {"FMA": ["-mfma", "-mavx2", "-mavx", "-msse4.2"], "AVX": ["-mavx", "-msse4.2"], "SSE": ["-msse4.2"]}

def lib_sources(lib):
    """[(object name, source, extra flags)] for one library of the repository."""
    res = []
    if lib == "kissfft":
        for f in sorted(glob.glob(REPO + "/3rd/kissfft/kiss_fft*_float.c") + glob.glob(REPO + "/3rd/kissfft/kiss_fft*_double.c")):
            res.append((os.path.basename(f), f, []))
        return res
    if lib == "ffts":
        fl = ["-D" + d for d in ("DYNAMIC_DISABLED FFTS_BUILD FFTS_DOUBLE HAVE_DECL_MEMALIGN HAVE_DECL_POSIX_MEMALIGN HAVE_DECL_VALLOC HAVE_INTTYPES_H HAVE_MALLOC_H HAVE_MEMALIGN HAVE_MM_MALLOC_H HAVE_PMMINTRIN_H HAVE_POSIX_MEMALIGN HAVE_SSE HAVE_SSE2 HAVE_SSE3 HAVE_STDINT_H HAVE_STDLIB_H HAVE_STRING_H HAVE_SYS_MMAN_H HAVE_UNISTD_H HAVE_VALLOC").split()] + ["-msse3", "-O2", "-I" + REPO + "/3rd/ffts/src", "-fno-sanitize=all"]
        for b in ("ffts", "ffts_chirp_z", "ffts_cpu", "ffts_nd", "ffts_real", "ffts_real_nd", "ffts_transpose", "ffts_trig", "ffts_static"):
            res.append((b + ".c", REPO + "/3rd/ffts/src/" + b + ".c", fl))
        return res
    if lib.startswith("py_"):  # the Python bindings of one module, linked into the harness as built-in modules
        listed = open(SRC + "/python/" + lib[3:] + "/CMakeLists.txt").read().split()
        return [(os.path.basename(f), f, ["-O0", "-fvisibility=hidden", "-I" + REPO + "/3rd/pybind11/include", "-I" + PYTHON_INC]) for f in sorted(glob.glob(SRC + "/python/" + lib[3:] + "/*.cpp")) if os.path.basename(f) in listed and os.path.basename(f) not in EXCLUDE]
    if lib.startswith("app_"):  # the sources of an application without its main()
        return [(os.path.basename(f), f, []) for f in sorted(glob.glob(SRC + "/apps/" + lib[4:] + "/*.cpp")) if os.path.basename(f) != "main.cpp"]
    d = SRC + "/lib" + lib
    for sub in ("", "impl/", "reference/"):
        for f in sorted(glob.glob(d + "/" + sub + "*.cpp")):
            b = os.path.basename(f)
            if b in EXCLUDE:
                continue
            res.append((sub.replace("/", "_") + b, f, []))
    if lib == "efl":
        for f in sorted(glob.glob(d + "/intel_x86_64/*.cpp")):
            b = os.path.basename(f)
            if "VISR_SIMD_FEATURE" in open(f).read():
                for feat, fl in SIMD.items():
                    res.append(("intel_%s_%s" % (feat, b), f, ["-DVISR_SIMD_FEATURE=" + feat] + fl))
            else:
                res.append(("intel_" + b, f, []))
    return res

_hash_cache = {}
def fhash(p):
    h = _hash_cache.get(p)
    if h is None:
        try:
            h = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[p] = h
    return h

def up_to_date(obj, cmd):
    try:
        rec = json.load(open(obj + ".rec"))
    except (OSError, ValueError):
        return False
    if rec["cmd"] != cmd or not os.path.exists(obj):
        return False
    return all(fhash(p) == h for p, h in rec["deps"].items())

class BuildError(Exception):
    pass

def compile_one(job):
    obj, src, cmd = job
    key = " ".join(cmd) + CC_TAG
    if up_to_date(obj, key):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", obj, "-c", src], capture_output=True, text=True)
    if r.returncode != 0:
        if os.path.exists(obj):
            os.unlink(obj)
        raise BuildError("compile of %s failed:\n%s" % (src, r.stderr[-6000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = sorted({os.path.normpath(p) for p in deps if os.path.normpath(p).startswith((REPO + "/", VERIF + "/"))})
    json.dump({"cmd": key, "deps": {p: fhash(p) for p in deps}}, open(obj + ".rec", "w"))
    return src

def harness_info(src):
    info = {"LIBS": [], "LINK": [], "FLAVOUR": "asan", "CXXFLAGS": [], "EXTRA": []}
    for line in open(src):
        if line.startswith("//!"):
            k, v = line[3:].strip().split(":", 1)
            v = v.split()
            info[k.strip()] = v[0] if k.strip() == "FLAVOUR" else v
        elif line.startswith("#include"):
            break
    return info

def plan(harness, flavour=None):
    """The compilations a harness needs: (object, source, command), and what is linked."""
    src = os.path.join(VERIF, "harness", harness + ".cpp")
    info = harness_info(src)
    flavour = flavour or info["FLAVOUR"]
    out = os.path.join(BUILD, flavour)
    fl = FLAVOURS[flavour]
    hfl = HARNESS_FLAVOURS.get(flavour, fl)
    base = ["g++", "-std=c++14", "-w", "-mtune=generic"] + fl + COMMON_DEFS + COMMON_INC
    hbase = ["g++", "-std=c++14", "-w", "-mtune=generic"] + hfl + COMMON_DEFS + COMMON_INC
    basec = ["gcc", "-w"] + fl + COMMON_INC
    jobs = []
    for lib in info["LIBS"]:
        for name, f, extra in lib_sources(lib):
            jobs.append((os.path.join(out, lib, name + ".o"), f, (basec if f.endswith(".c") else base) + extra))
    libobjs = [j[0] for j in jobs]
    hobjs = []
    for h in [harness] + info["EXTRA"]:
        hsrc = os.path.join(VERIF, "harness", h + ".cpp")
        hobj = os.path.join(out, "harness", h + ".o")
        jobs.append((hobj, hsrc, hbase + [f.replace("@REPO@", REPO) for f in info["CXXFLAGS"]] + ["-I" + os.path.join(VERIF, "harness")]))
        hobjs.append(hobj)
    return info, out, fl, hfl, jobs, libobjs, hobjs

def locked():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    return lock

def precompile(harnesses):
    """Compile everything the harnesses need in one pool; errors are reported by build()."""
    lock = locked()
    try:
        jobs = {}
        for h in harnesses:
            for j in plan(h)[4]:
                jobs.setdefault(j[0], j)
        def one(j):
            try:
                compile_one(j)
            except BuildError:
                pass
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs.values()))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def build(harness, flavour=None, verbose=False):
    """Build harness/<harness>.cpp with the libraries it names; returns the path of the executable."""
    lock = locked()
    try:
        info, out, fl, hfl, jobs, libobjs, hobjs = plan(harness, flavour)
        os.makedirs(out, exist_ok=True)
        with ThreadPoolExecutor(NCPU) as ex:
            done = [s for s in ex.map(compile_one, jobs) if s]
        # Link. Objects go through an archive so that only what the harness needs is pulled in.
        exe = os.path.join(out, "bin", harness)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        key = hashlib.sha256("\n".join([json.dumps(info, sort_keys=True)] + [o + fhash_obj(o) for o in hobjs + libobjs]).encode()).hexdigest()
        stamp = exe + ".stamp"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            ar = os.path.join(out, "bin", harness + ".a")
            if os.path.exists(ar):
                os.unlink(ar)
            rsp = ar + ".rsp"
            open(rsp, "w").write("\n".join(libobjs))
            if libobjs:
                subprocess.run(["ar", "rcsT", ar, "@" + rsp], check=True, capture_output=True)
            # Instrumented instances of inline functions take precedence over those of the harness.
            first = ["-Wl,--whole-archive", ar, "-Wl,--no-whole-archive"] if hfl != fl else []
            r = subprocess.run(["g++"] + hfl + ["-o", exe] + first + hobjs + ([ar] if libobjs and not first else []) + info["LINK"] + ["-lpthread"], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link of %s failed:\n%s" % (harness, r.stderr[-6000:]))
            open(stamp, "w").write(key)
        if verbose:
            print("built %s (%d compiled)" % (harness, len(done)), file=sys.stderr)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def fhash_obj(o):
    return hashlib.sha256(open(o, "rb").read()).hexdigest()

if __name__ == "__main__":
    try:
        for h in sys.argv[1:]:
            print(build(h, verbose=True))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
