"""Builds the conformance drivers, together with the sources of vecmem's core
library, from /repo's working tree, into a scratch folder of this run."""
import concurrent.futures as cf, glob, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
        "-DVECMEM_HAVE_STD_ALIGNED_ALLOC", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF", "-DVECMEM_SOURCE_DIR_LENGTH=6",
        "-DNDEBUG"]
INC = ["-I", VERIF + "/harness/gen", "-I", REPO + "/core/include", "-I", VERIF + "/harness"]

class BuildError(Exception):
    pass

def flags(sanitize, opt):
    f = ["-std=c++17", opt, "-g1", "-w", "-pthread", "-fno-omit-frame-pointer"]
    if sanitize:
        f += ["-fsanitize=" + sanitize]
    return f

def _compile(args):
    src, obj, fl = args
    r = subprocess.run(["g++"] + fl + DEFS + INC + ["-c", src, "-o", obj], capture_output=True, text=True)
    return (src, r.returncode, r.stderr[-4000:])

# The CUDA, HIP and SYCL libraries, on top of stand-ins for the run-times.
BACKENDS = ("cuda", "hip", "sycl")
BACKEND_INC = ["-I", VERIF + "/harness/mock"] + [x for b in BACKENDS for x in ("-I", "%s/%s/include" % (REPO, b))]

def backend_sources():
    for b in BACKENDS:
        for s in sorted(glob.glob("%s/%s/src/**/*.cpp" % (REPO, b), recursive=True) + glob.glob("%s/%s/src/**/*.sycl" % (REPO, b), recursive=True)):
            if "assert_polyfill" not in s:
                yield s

def build(work, drivers, sanitize="", opt="-O1", lib=True, extra=(), link=(), plain=(), backends=False):
    """drivers: dict name -> (source, extra flags). Returns dict name -> executable.
    plain: sources of the harness that are compiled without extra flags.
    backends: with the sources of the CUDA, HIP and SYCL libraries as well."""
    fl = flags(sanitize, opt) + list(extra) + (BACKEND_INC if backends else [])
    jobs, libobjs = [], []
    for s in backend_sources() if backends else ():
        o = os.path.join(work, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        libobjs.append(o)
        jobs.append((s, o, fl + ["-x", "c++"]))
    if lib:
        for s in sorted(glob.glob(REPO + "/core/src/**/*.cpp", recursive=True)):
            o = os.path.join(work, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            libobjs.append(o)
            jobs.append((s, o, fl))
    dobj = {}
    first = []
    for name, (src, xfl, *parts) in drivers.items():
        dobj[name] = []                  # a driver may be compiled in parts
        for k, more in enumerate(parts or [[]]):
            o = os.path.join(work, "drv_%s%d.o" % (name, k))
            dobj[name].append(o)
            first.append((os.path.join(VERIF, "harness", src), o, fl + list(xfl) + list(more)))
    for src in plain:
        o = os.path.join(work, "plain_" + src + ".o")
        libobjs.append(o)
        first.append((os.path.join(VERIF, "harness", src), o, flags("", "-O2")))
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(_compile, first + jobs):
            if rc != 0:
                raise BuildError("cannot compile %s:\n%s" % (src, err))
    exes = {}
    for name, o in dobj.items():
        exe = os.path.join(work, name)
        r = subprocess.run(["g++"] + fl + o + libobjs + list(link) + ["-o", exe], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("cannot link %s:\n%s" % (name, r.stderr[-4000:]))
        exes[name] = exe
    return exes
